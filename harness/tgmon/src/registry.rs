const ASSUMPTIONS: &[&str] = &[
    "cryptographic primitives (ed25519-dalek, libsecp256k1, ring, sha2) are taken as given",
    "the service runs natively against stand-ins for its WebAssembly host; SQLite itself is taken as given",
];

const REGISTRY: &[Entry] = &[
    Entry { id: "K01", level: "exploration", rule: "one case: a key of a random type signs a random message; every later evaluation is one verification (genuine, or with a changed message, key or signature); distinct by signature bytes, message and verifying key", run: props_k::k01 },
    Entry { id: "K02", level: "exploration", rule: "one evaluation: one value round-tripped through one encoding; distinct by key, signature and encoding", run: props_k::k02 },
    Entry { id: "K03", level: "exploration", rule: "one case: a random walk of conversions, clones, uses and drops between the two representations of one key; distinct by key, message and the fact checked", run: props_k::k03 },
    Entry { id: "K04", level: "exploration", rule: "one evaluation: one input buffer inspected after use (or at release), or one debug text searched for secret bytes; distinct by secret and form", run: props_k::k04 },
    Entry { id: "K05", level: "exploration", rule: "one evaluation: one pair of keys compared (equality, hash, text), one key read back from one serialised form, or one map step; distinct by the keys involved", run: props_k::k05 },
    Entry { id: "K06", level: "exploration", rule: "one evaluation: one newly generated secret key compared with all others of the run, from all threads and processes; statistics per bit and byte over the keys of one case; distinct by secret", run: props_k::k06 },
    Entry { id: "T01", level: "exploration", rule: "one evaluation: one trust verified as issued (at a time) or with one field changed; distinct by issuer, subject, times and change", run: props_t::t01 },
    Entry { id: "T02", level: "exploration", rule: "one evaluation: one revocation (or trust posing as one) verified as issued or with one field changed; distinct by content and change", run: props_t::t02 },
    Entry { id: "T03", level: "exploration", rule: "one evaluation: one certificate (original or structurally mutated) with one root list at one time, against the independent validity rule; distinct by chain, roots and time", run: props_t::t03 },
    Entry { id: "T04", level: "exploration", rule: "one evaluation: one attempt to issue or extend a certificate, judged by the independent validity rule; distinct by chain, issuer, trust and time", run: props_t::t04 },
    Entry { id: "T05", level: "exploration", rule: "one evaluation: one document through one format and back; distinct by document and format", run: props_t::t05 },
    Entry { id: "T06", level: "exploration", rule: "one evaluation: one malformed or mutated input given to one entry point; distinct by input and entry point", run: props_t::t06 },
    Entry { id: "G01", level: "exploration", rule: "one evaluation: one query (certificates of one key at one time, over the library or the service) or one operation of a random history judged against the reference model; every returned chain is re-verified link by link with the harness's own record of who signed what; distinct by history state, key and time", run: props_g::g01 },
    Entry { id: "G02", level: "exploration", rule: "one evaluation: one query on a graph with revocations, compared with the model's set of cut and uncut chains; distinct by graph, key and time; counters say how many queries had chains cut and by which position of revoker and revoked", run: props_g::g02 },
    Entry { id: "G03", level: "exploration", rule: "one evaluation: one query whose full set of chains is compared with the model's enumeration of simple chains; distinct by graph, key and time", run: props_g::g03 },
    Entry { id: "G04", level: "exploration", rule: "one evaluation: one weight or one reported weight of an added trust compared with the model; distinct by graph, key and time", run: props_g::g04 },
    Entry { id: "G05", level: "exploration", rule: "one evaluation: one query for a pair (key, issuer), or a host query, compared with the filter of the unrestricted answer and with the model; distinct by graph, pair and time", run: props_g::g05 },
    Entry { id: "G06", level: "exploration", rule: "one evaluation: one permutation step of a multiset of statements over one or more pairs, followed by queries that tell which statement is in force; distinct by statements, order and query", run: props_g::g06 },
    Entry { id: "G07", level: "exploration", rule: "one evaluation: one query at or around an expiry second, or after garbage-collecting queries, compared with the model; distinct by expiry times, query time and history", run: props_g::g07 },
    Entry { id: "G08", level: "exploration", rule: "one evaluation: one forged, corrupted or expired statement offered at some point of a history: it must be refused and all answers, and all stored rows, must be as before; distinct by statement and point", run: props_g::g08 },
    Entry { id: "G09", level: "exploration", rule: "one evaluation: one comparison of all answers of a history with and without extra queries in between, or of the stored rows before and after queries; distinct by history and place", run: props_g::g09 },
    Entry { id: "G10", level: "exploration", rule: "one evaluation: one query on a dense, cyclic or deep graph under a step budget computed from the number of simple chains; distinct by graph and key", run: props_g::g10 },
    Entry { id: "G11", level: "fault_enumeration", rule: "one evaluation: one operation with one storage (or SQL) access made to fail, before or after taking effect; distinct by operation, access number and kind of failure; the answers afterwards are compared with those of the states before and after", run: props_g::g11 },
    Entry { id: "S01", level: "exploration", rule: "one evaluation: one attempt to set a root by some caller, or one query afterwards compared with the model; distinct by caller, key, length and place in the history", run: props_s::s01 },
    Entry { id: "S02", level: "exploration", rule: "one evaluation: one time-taking call with one (right or wrong) set of provenance records; distinct by call, kind of record and caller", run: props_s::s02 },
    Entry { id: "S03", level: "exploration", rule: "one evaluation: one statement with an issue time before, at or after the current time offered through one call; distinct by call, times and place in the history", run: props_s::s03 },
    Entry { id: "S04", level: "exploration", rule: "one evaluation: one document taken through the service's bytes, issue, verify, add and export calls and compared field by field, or one call answered by library and service side by side; distinct by document and call", run: props_s::s04 },
    Entry { id: "S05", level: "fault_enumeration", rule: "one evaluation: one process killed at one database access of one operation (or at start-up) and restarted on the same file, answers compared with the states the operation may leave; distinct by operation, access number and kind", run: props_s::s05 },
    Entry { id: "S06", level: "exploration", rule: "one evaluation: one shipped certificate verified at one time, or one load of the shipped root and certificates at one time with all resulting weights, or one run of the start-up script with its answers; distinct by certificate and time", run: props_s::s06 },
    Entry { id: "S07", level: "exploration", rule: "one evaluation: one call of the published interface, with arguments of the declared types, whose answer is compared with the declared record; distinct by call and arguments", run: props_s::s07 },
    Entry { id: "S08", level: "exploration", rule: "one evaluation: one published Aqua function executed over a network of service processes, its answer compared with the documented one, or one node's complete answers afterwards compared with those of the twin network driven by hand; distinct by case and step; runs counted per function", run: props_a::s08 },
    Entry { id: "S09", level: "exploration", rule: "one evaluation: one run of the admin tool over a network of service processes, under one environment and at most one fault, its exit status and the certificate file compared with what it is documented to write, or one written certificate loaded into a fresh service; distinct by case and fact checked; runs counted per environment and fault", run: props_n::s09 },
];
