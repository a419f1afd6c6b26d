import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
KP="keypair/src/"; TG="trust-graph/src/"; SV="service/src/"
HOOK=None
p("K01","A signature verifies only for the key and message it was made with",
"For Ed25519, RSA and Secp256k1 alike, a signature produced by a key pair verifies with that key pair's public key over the signed message. Verification fails, with an error, for any other message, any other public key (of the same or another type) and any altered, truncated, swapped or forged signature (a changed type label alone, and the mirrored form every ECDSA signature has, are not counted as alterations).",
["inputs"],"every key of every type, every message, every mutation of message, signature and verifying key",
"Unit tests sign one random message and flip one byte for Ed25519 and RSA only; the Secp256k1 test never checks a rejected signature.",
[KP+"key_pair.rs",KP+"public_key.rs",KP+"signature.rs",KP+"ed25519.rs",KP+"rsa.rs",KP+"secp256k1.rs"],
[("KeyPair::sign / KeyPair::verify / PublicKey::verify",KP+"key_pair.rs"),("per-type verify",KP+"{ed25519,rsa,secp256k1}.rs")],
["return value of sign and verify"])
p("K02","Keys and signatures survive every encode/decode round trip",
"Decoding what was encoded yields the same public key, the same signature, or a key pair with the same public key whose signatures are interchangeable with the original's, in every supported form: prefixed bytes, base58 text, raw signature plus type, secret-key bytes, key-pair bytes, DER/PKCS#8 secret keys and the structured serialisation in text and binary formats. The type of the key or signature is preserved, and a form produced for one type is never decoded as another. Bytes or text that do decode as a public key or signature are exactly what that key or signature encodes to: no second encoding is accepted.",
["inputs"],"every key and signature of every type, every supported encoding",
"Tests round-trip a handful of random keys through two or three of the encodings.",
[KP+"key_pair.rs",KP+"public_key.rs",KP+"signature.rs",KP+"ed25519.rs",KP+"rsa.rs",KP+"secp256k1.rs"],
[("PublicKey::{encode,decode,from_base58,to_vec}",KP+"public_key.rs"),("Signature::{encode,decode,from_bytes,get_raw_signature}",KP+"signature.rs"),("KeyPair::{to_vec,from_vec,from_secret_key,secret}",KP+"key_pair.rs"),("serde impls",KP+"secp256k1.rs")])
p("K03","Keys interoperate with libp2p identity without memory errors",
"A key pair or public key converted to its libp2p counterpart and back is the same key; signatures made on either side verify on the other, and both sides derive the same peer id. A peer id of an inlined key converts back to exactly that key, a peer id that does not inline its key is refused with an error, and no conversion commits a memory error, leak of ownership or double free under any order of use and drop.",
["inputs","histories"],"all key types and sizes, every order of converting, cloning, using and dropping the two sides",
"Tests convert one key per type once; nothing executes the unchecked reinterpretation of RSA key pairs under a memory checker.",
[KP+"key_pair.rs",KP+"public_key.rs",KP+"lib.rs"],
[("From conversions, transmute of RSA key pairs",KP+"key_pair.rs"),("From conversions, TryFrom<PeerId>",KP+"public_key.rs"),("peerid_serializer",KP+"lib.rs")])
p("K04","Secret key material is wiped from inputs and never printed",
"Whenever a key pair is successfully built from a caller's mutable buffer of secret bytes, that buffer holds only zeroes afterwards, and a buffer of such bytes handed over by value is wiped before its memory is released. Formatting a key pair or secret key for debugging never reveals any of its secret bytes.",
["inputs"],"every secret key in every mutable-buffer input form",
"No test looks at the buffer after a key was loaded, nor at debug output.",
[KP+"key_pair.rs",KP+"ed25519.rs",KP+"rsa.rs",KP+"secp256k1.rs"],
[("zeroize on rsa_from_pkcs8 / secp256k1_from_der",KP+"rsa.rs, "+KP+"secp256k1.rs"),("Debug impls",KP+"ed25519.rs, "+KP+"secp256k1.rs")])
p("K05","Equality, hashing and text of a public key always agree",
"Two public keys used as map keys are equal exactly when their type and key bytes are equal; equal keys hash equally and print the same base58 text, different keys print different texts, and parsing the text gives back the same key. A hash map keyed by public keys therefore finds every stored key and never confuses two keys, and the serialised form reads back as the same key in text and binary formats.",
["inputs"],"all pairs of keys of all types, including keys whose encodings share long prefixes",
"No test exercises the hashable key wrapper at all.",
[TG+"public_key_hashable.rs",KP+"public_key.rs"],
[("Hash/Eq/Display/FromStr/serde for PublicKeyHashable",TG+"public_key_hashable.rs")])
p("K06","Every generated key pair is new",
"No two generations of a key pair, by whichever generating function and in whatever threads or processes, ever yield the same key; every bit of the secret is independent of the other bits and of the keys generated before. The generated pair is of the requested type and its public key belongs to its secret key.",
["inputs","schedules"],"every sequence of generations in every number of threads and processes",
"Tests generate a few keys each in one process and never compare them.",
[KP+"key_pair.rs",KP+"ed25519.rs",KP+"secp256k1.rs"],
[("KeyPair::generate, generate_ed25519, generate_secp256k1",KP+"key_pair.rs"),("SecretKey::generate",KP+"{ed25519,secp256k1}.rs")])
p("T01","A trust verifies only as issued, by its issuer, until it expires",
"A trust created by a key pair verifies against that issuer at every time up to and including its expiry second and at no later time. If the subject, expiry time, issue time, signature or claimed issuer is changed in any way, verification fails.",
["inputs"],"all issuers, subjects, times (including 0 and the maximum) and single-field changes; whole seconds",
"Tests flip each field once for one Ed25519 pair and never touch the expiry boundary or other key types.",
[TG+"trust.rs"],[("Trust::verify / signature_bytes / create",TG+"trust.rs")])
p("T02","A revocation verifies only as issued and never doubles as a trust",
"A revocation created by a key pair verifies; changing the revoked key, the revocation time, the revoker or the signature makes it fail. A signature over a trust is never accepted as a revocation, nor a signature over a revocation as a trust.",
["inputs"],"all revokers, subjects, times and single-field changes, all pairings of trust and revocation over the same keys",
"Tests change only the date once, for one Ed25519 pair; the two document kinds are never mixed.",
[TG+"revoke.rs",TG+"trust.rs"],[("Revocation::{create,verify,signature_bytes}",TG+"revoke.rs")])
p("T03","A certificate is accepted exactly when its whole chain is valid",
"A certificate is accepted iff it is non-empty, its first trust is self-signed by a key in the caller's list of trusted roots, every later trust is validly signed by the subject of the trust just before it, and no trust has expired at the given time. Reordering, dropping, duplicating, splicing or re-signing any link so that this no longer holds makes it rejected.",
["inputs"],"all chain lengths, mixes of key types, root lists and times, all structural mutations",
"Tests cover chains of two or three trusts with one Ed25519 key type and few mutations.",
[TG+"certificate.rs",TG+"trust.rs"],[("Certificate::verify",TG+"certificate.rs")])
p("T04","Issuing a certificate never produces one that does not verify",
"Whenever extending a certificate succeeds, the result keeps the original chain up to the issuer's last position, ends with the new trust for the requested subject, and verifies against the same root at every time from then on at which none of its trusts has expired. Extending is refused when the given certificate does not verify, the issuer is not in its chain, a ready-made trust is not validly signed by that issuer or has expired, or a trust to be made would expire before it is issued.",
["inputs"],"all certificates (valid and broken), issuers inside and outside the chain, trusts and times",
"Tests extend two hand-made certificates; a forged trust is never offered.",
[TG+"certificate.rs"],[("Certificate::{issue,issue_with_trust,issue_root,new_from_root_trust}",TG+"certificate.rs")])
p("T05","Trusts and certificates survive their binary and text formats unchanged",
"Encoding a trust or certificate to bytes or to text and decoding it again yields an equal document, and so does the text form embedded in serialised lists; a document that verified before verifies after. Two different documents never share an encoding.",
["inputs"],"all trusts and certificates over all key types, times over the whole range, chain lengths; known exception listed for keys or chains too large for the binary format",
"Tests round-trip one Ed25519 certificate in each format.",
[TG+"certificate.rs",TG+"trust.rs",TG+"certificate_serde.rs"],
[("Trust::{encode,decode,to_string,convert_from_strings}",TG+"trust.rs"),("Certificate::{encode,decode,Display,FromStr}",TG+"certificate.rs"),("certificate_serde::vec",TG+"certificate_serde.rs")])
p("T06","Malformed input is refused with an error, never a crash",
"Every operation that accepts bytes or text from outside (keys, signatures, trusts, revocations, certificates, peer ids and every service call) returns an error for malformed input and never panics, whatever its length or content. Whatever it does accept, it can encode, verify and print again without panicking.",
["inputs"],"arbitrary byte strings and texts: random, truncated, extended, bit-flipped and grammar-aware mutations of valid ones",
"Tests feed only well-formed input, plus one truncated signature.",
[KP+"public_key.rs",KP+"signature.rs",KP+"key_pair.rs",TG+"trust.rs",TG+"certificate.rs",TG+"public_key_hashable.rs",SV+"dto.rs",SV+"misc.rs",SV+"service_api.rs"],
[("length checks and error mapping in the decoders",TG+"trust.rs, "+TG+"certificate.rs, "+KP+"public_key.rs"),("DTO conversions",SV+"dto.rs")],hook=HOOK)
p("G01","The graph only returns genuine, rooted, unexpired, in-limit certificates",
"Every certificate returned for a key ends with that key, starts with a trust self-signed by a currently configured root, verifies link by link at the queried time, consists only of trusts that were submitted and are still in force, and has no more trusts after the root than that root's configured maximum chain length (at most 16). This holds after any history of root changes, trusts, revocations and passing time.",
["histories","inputs"],"all histories of operations over all graph shapes (cycles, diamonds, several roots, self-signed intermediates), both over the library and over the service",
"Existing graph tests live in the service and need a WebAssembly runtime; they check a dozen fixed small graphs and do not run in the stable suite.",
[TG+"trust_graph.rs",TG+"chain.rs",SV+"storage_impl.rs"],
[("bf_search_paths / get_all_certs",TG+"trust_graph.rs"),("SQLiteStorage queries",SV+"storage_impl.rs")],hook=HOOK)
p("G02","A revocation cuts every chain in which the revoker precedes the revoked",
"While a revocation of a key by another key is in force, no returned certificate and no weight relies on a chain in which the revoker appears nearer the root than the revoked key, however far apart they are. Chains in which the revoker does not precede the revoked key are unaffected, and a later trust from the revoker to the same key lifts the revocation.",
["histories"],"all graphs, all pairs (revoker, revoked), all positions in the chain, all interleavings of trusts and revocations",
"Tests revoke one direct and one indirect neighbour in a single line; the position next to the queried key in longer chains is not covered.",
[TG+"trust_graph.rs",TG+"chain.rs",SV+"storage_impl.rs"],
[("Chain::{can_be_extended_by,add_revocations}",TG+"chain.rs"),("bf_search_paths",TG+"trust_graph.rs")],hook=HOOK)
p("G03","The graph finds every valid chain to a key",
"For every chain of distinct keys that leads from a configured root (with its self-signed trust) to the queried key through trusts in force, is within the root's maximum length and is not cut by a revocation, the query returns a certificate made of exactly those trusts. No such chain is missed because of cycles, other roots, other revocations, duplicates or the order in which trusts arrived.",
["histories"],"all graphs and arrival orders, both over the library and over the service",
"Tests look for one or two certificates in fixed graphs.",
[TG+"trust_graph.rs",TG+"chain.rs",SV+"storage_impl.rs"],
[("bf_search_paths / get_all_certs",TG+"trust_graph.rs")],hook=HOOK)
p("G04","A key's weight is that of its best chain, halving with every hop",
"The weight of a key is the maximum over its own root entry, worth two to the power of the root's maximum chain length (capped at 16), and over its certificates, each worth the root's value halved once per trust after the root trust; it is zero exactly when the key is no root and has no certificate. Adding a trust reports half the issuer's weight (the issuer's own weight for a self-signed trust), and a trust that would get no weight is not recorded.",
["histories","inputs"],"all histories, graphs, root configurations including 0 and values above 16",
"Tests compare a few weights on fixed lines of length up to five.",
[TG+"trust_graph.rs",SV+"service_api.rs"],
[("weight / certificates_weight_factor / get_next_weight",TG+"trust_graph.rs")],hook=HOOK)
p("G05","Queries restricted to an issuer consider only chains through that issuer",
"The certificates returned for a key and an issuer are exactly those of the key's certificates in which the issuer's key occurs, and the weight for a key and an issuer is the weight of the best of these, or zero if there is none. The host variants answer exactly as the general ones asked about the host's own key.",
["histories"],"all graphs, all pairs (key, issuer), issuers that are roots, intermediates, the key itself or strangers",
"Two fixed scenarios exist in the service tests, which do not run in the stable suite; the weight query has none.",
[TG+"trust_graph.rs",SV+"service_api.rs"],
[("get_all_certs_from / weight_from",TG+"trust_graph.rs"),("get_host_certs(_from), get_weight_from",SV+"service_api.rs")],hook=HOOK)
p("G06","The newest statement between two keys wins, whatever the arrival order",
"For each ordered pair of keys at most one statement, trust or revocation, is in force: the one with the latest issue time among those accepted so far, for as long as it has not expired, independent of the order in which they arrive. A statement that is not newer than the one in force changes nothing (of two with the same time the first stays), and a statement for one pair never affects another pair.",
["histories"],"all permutations of trusts and revocations with arbitrary times over many pairs of keys; statements older than one that has already expired are left open",
"One test updates one trust once.",
[SV+"storage_impl.rs",TG+"trust_graph.rs"],
[("update_relation, primary key (issued_for, issued_by)",SV+"storage_impl.rs")],hook=HOOK,
state=[("trust_relations","at most one row per ordered pair",SV+"storage_impl.rs")])
p("G07","Expired trusts stop counting and unexpired ones are never dropped",
"At any time from a trust's expiry second on, no certificate or weight relies on it, and an expired trust is refused when offered. A trust with a later expiry, however large, and every revocation of whatever age, stays in force no matter which queries are made in the meantime.",
["histories","inputs"],"all expiry times over the whole 64-bit range, all query times below 2^63 seconds, all interleavings with other operations",
"Tests expire one trust by a fixed small margin; far-future expiries such as the library's own root trusts are never stored.",
[TG+"trust_graph.rs",TG+"trust.rs",SV+"storage_impl.rs"],
[("remove_expired",SV+"storage_impl.rs"),("Trust::verify",TG+"trust.rs")],hook=HOOK)
p("G08","Only verified statements enter the graph; refused ones leave no trace",
"A trust, certificate or revocation whose signature does not verify for its claimed issuer, or that has expired, is refused with an error, and afterwards every query answers exactly as if it had never been submitted. Nothing is ever stored for a trust whose verification failed, and a certificate is taken in only up to its first refused trust.",
["histories","inputs"],"all forgeries and corruptions of all statements at every point of every history",
"No graph-level test submits a forged trust or revocation.",
[TG+"trust_graph.rs",SV+"service_api.rs",SV+"storage_impl.rs"],
[("Trust::verify in add_trust, Revocation::verify in revoke",TG+"trust_graph.rs")],hook=HOOK)
p("G09","Asking never changes the answers",
"Querying weights, certificates or revocations, in any number and order, changes neither the result of the same query repeated nor of any other query at the same or a later time. Queries never create, alter or remove a root, a revocation or an unexpired trust.",
["histories"],"all histories with extra queries inserted anywhere; statements older than one that has already expired are left open",
"Tests never compare a history with and without interleaved queries.",
[TG+"trust_graph.rs",SV+"storage_impl.rs",SV+"service_api.rs"],
[("get_all_certs garbage collection",TG+"trust_graph.rs"),("remove_expired",SV+"storage_impl.rs")],hook=HOOK)
p("G10","Queries finish on every graph, with work bounded by its simple chains",
"Every query terminates on every graph, including graphs with cycles, mutual trust, self-signed intermediates and roots trusting each other. The number of storage reads it makes is bounded by a small constant times the number of repetition-free chains leading to the queried key, and the answer lists no chain twice (a chain with a member's self-signed trust is another chain than the one without it).",
["inputs","histories"],"all graph shapes up to the sizes driven; bounded progress counted in storage reads, not wall-clock",
"One test has a chain between two roots; no test bounds the work.",
[TG+"trust_graph.rs",TG+"chain.rs"],
[("can_be_extended_by visited check",TG+"chain.rs")])
p("G11","A storage failure surfaces as an error, never as a wrong answer",
"If any storage access fails during an operation, the operation reports an error rather than success or a partial answer, and does not crash. A failed operation leaves the graph in the state before it or after it (for a certificate: after some prefix of it), and once the storage works again every query answers accordingly.",
["fault_sequences","histories"],"a failure injected at every single storage call (library) and every SQL call (service) of every operation",
"No test injects a storage error.",
[TG+"trust_graph.rs",SV+"storage_impl.rs",SV+"service_api.rs"],
[("? propagation, From<StorageError>",TG+"trust_graph.rs"),("SQLiteStorageError",SV+"storage_impl.rs")],hook=HOOK)
p("S01","Only the service owner sets roots, and the latest setting is in force",
"A root is set if and only if the caller who started the request is the service's creator; anyone else gets an error and nothing changes. After a successful setting the given key is a root with exactly that maximum chain length, replacing any earlier setting for that key and leaving all other roots alone.",
["histories","inputs"],"all callers, keys, lengths and sequences of settings",
"Two tests try one owner and one stranger and never set a root twice.",
[SV+"service_api.rs",SV+"storage_impl.rs"],
[("owner check in set_root",SV+"service_api.rs"),("roots table",SV+"storage_impl.rs")],hook=HOOK)
p("S02","Times are only believed when they come from the host's own clock",
"Every service call that acts on a caller-supplied current time, except the two calls that insert a whole certificate, is refused, without any effect, unless the request proves that this very argument was produced by the host's own timestamp function on this host. Proof attached to another argument, made by another peer, another service or another function is refused; correct proof is accepted.",
["inputs","histories"],"all time-taking calls, all placements and contents of provenance records; the two certificate-insertion calls are excepted, since hosts make them while deploying, before any request exists",
"Service tests always attach a correct proof.",
[SV+"misc.rs",SV+"service_api.rs"],
[("check_timestamp_tetraplets",SV+"misc.rs"),("argument indices",SV+"service_api.rs")],hook=HOOK)
p("S03","Statements dated later than the current time are refused",
"A trust, certificate or revocation whose issue time lies after the current time given with the call is refused with an error by the service and has no effect (a certificate as a whole, if any of its trusts is), so it can never outrank statements that are made today. One dated at or before the current time is not refused for its date.",
["inputs","histories"],"all issue times around and far from the current time, all submission calls",
"No test submits a future-dated statement.",
[SV+"service_api.rs"],[("issued_at / revoked_at comparison",SV+"service_api.rs")],hook=HOOK)
p("S04","The service says exactly what the library says",
"Bytes handed out for signing, signed by the issuer and passed back, yield a trust or revocation that verifies and that names exactly the given subject, times and signature; what is stored and read back through certificates or exported revocations is identical in every field, for every supported key type. Each result reports success with an empty error, or failure with a non-empty error and no payload, in agreement with the library's answer to the same question.",
["inputs","histories"],"all keys of types that fit a peer id, all times over the whole 64-bit range, all calls",
"Service tests use Ed25519 keys and current times only, and do not run in the stable suite.",
[SV+"service_api.rs",SV+"dto.rs",SV+"results.rs",SV+"storage_impl.rs"],
[("DTO conversions",SV+"dto.rs"),("result conversions",SV+"results.rs"),("row encoding and parsing",SV+"storage_impl.rs")],hook=HOOK)
p("S05","Acknowledged changes survive restarts and crashes, in order",
"After the service is restarted, or killed at any database access or file write, every root, trust and revocation whose submission was acknowledged is still in force with identical content, and nothing that was never submitted is there. An operation interrupted by the crash is either entirely present or entirely absent (for a certificate: a prefix of it), and starting the service again on an existing database changes nothing.",
["crash_points","histories"],"a crash at every database call, and at every file write made for it, of every operation in a history, followed by a restart",
"Tests delete the database before each case and never restart the service.",
[SV+"storage_impl.rs",SV+"misc.rs",SV+"main.rs"],
[("create_tables IF NOT EXISTS",SV+"storage_impl.rs"),("single-statement writes",SV+"storage_impl.rs")],hook=HOOK)
p("S06","The bundled certificates are valid and give their subjects weight",
"Every certificate shipped with the distribution and with the builtin package verifies against the shipped root at every time between its latest issue time and its earliest expiry. Loading the shipped root and certificates into a fresh service succeeds in file order at any such time before the first of them expires and gives every named peer a positive weight of exactly its place in the chain. The builtin package's start-up script does exactly that to the node it runs on and answers true; where the service refuses or the certificates are too old, the script answers every error it met and does not break off. The distribution crate hands out the shipped certificates, configuration and modules unchanged.",
["configurations","inputs"],"all shipped certificates at all times of their validity, sampled densely with the boundaries; start-up on nodes that accept, refuse or come too late",
"Nothing in the test suite reads the shipped certificates.",
["distro/init_certs.json","builtin-package/on_start.json","builtin-package/on_start.air","distro/src/lib.rs",SV+"service_api.rs"],
[("shipped data files","distro/init_certs.json"),("insert_cert",SV+"service_api.rs")],hook=HOOK)
p("S07","The published interface describes the service exactly",
"Every call declared in the published interface file can be made with any arguments of the declared types in the declared order, the proof of time belonging to the argument declared as the timestamp, and is answered with a record of exactly the declared fields and types, in success and in failure; every call the service exports is declared. Every declared call succeeds for suitable arguments.",
["inputs","configurations"],"all declared calls, all values of their declared argument types, successful and failing",
"No test reads the interface file; it is generated by hand-run tooling and drifts silently.",
["aqua/trust-graph.aqua",SV+"service_api.rs",SV+"dto.rs",SV+"results.rs"],
[("service TrustGraph and its data types","aqua/trust-graph.aqua"),("exported functions",SV+"service_api.rs"),("exported records",SV+"dto.rs, "+SV+"results.rs")],hook=HOOK)
p("S08","Each published Aqua function has exactly its documented effect and answer",
"For any peers, issuers, lifetimes and node states: issue_trust and issue_revocation answer a statement signed by the given issuer, issued at the relay's current time, or else an error; add_trust, add_root_trust and revoke issue it and store it on the given node and on no other, add_root_trust also making the issuer a root of the given length; import_*, insert_cert and set_root act on the node they are run on; queries and verify_trust answer what that node's service answers at that node's own time. An error is answered exactly when some step failed, and nothing later in the function happens then. isFluencePeer is true exactly when the host holds a three-trust certificate from the Fluence root through the label peer to the host, false otherwise, and an error when the host cannot say.",
["inputs","configurations","histories"],"all functions the Aqua files export, all arguments, peers, node states, clocks, refusing signers and service owners",
"No test runs the Aqua functions: they compose several calls over several peers, and their error branches are only reached by failing steps.",
["aqua/trust-graph-api.aqua","aqua/labelling.aqua","aqua/misc.aqua","aqua/trust-graph.aqua",SV+"service_api.rs"],
[("exported functions","aqua/trust-graph-api.aqua"),("isFluencePeer","aqua/labelling.aqua"),("append_error","aqua/misc.aqua")],hook=HOOK)
p("S09","The admin tool writes exactly the certificates it is for, or nothing",
"For any keys, networks and node states, a run of the admin tool that succeeds asks the first node of the chosen environment and leaves in the builtin package exactly one certificate for the example key (root, example) followed by one for every node of the krasnodar network, in its order (root, issuer, node). Every trust in them is signed by the key before it, issued at the node's time during the run and expires exactly two years of 365 days later, so that a service with that root takes every one of them until then and gives each subject its weight. If any step fails (unknown environment, missing or malformed key file, unreachable node, a call that fails or is refused, nowhere to write), the tool ends with a non-zero status and leaves the previous certificates as they were.",
["inputs","configurations","faults"],"all key files, environments, networks of any size, node clocks, and a failure at any step",
"No test runs the tool; it talks to a live network, and its failure paths are only reached when a node refuses.",
["admin/index.ts","admin/aqua/export.aqua","aqua/trust-graph.aqua",SV+"service_api.rs"],
[("main, issue_trust_helper","admin/index.ts"),("exported functions","admin/aqua/export.aqua")],hook=HOOK)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
