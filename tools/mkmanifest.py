import json
T={
"K01":("generated sign/verify workload with recorded ground truth as oracle","Explores keys of all three types with single-site mutations of message, key and signature; the primitives' security is assumed."),
"K02":("round-trip monitor over all encodings","Every supported encoding of random keys and signatures of all types; fixed RSA keys of three sizes, since none can be generated offline at speed."),
"K03":("conversion random walk under AddressSanitizer/LeakSanitizer, libp2p-identity as differential oracle","ASan/LSan watch one instrumented build; the plain build compares every conversion with keys libp2p made itself."),
"K04":("buffer inspection after use, allocator hook at release, search of debug texts","Inspects the caller's buffers and blocks at the moment they are freed; copies on the stack are not searched."),
"K05":("pairwise equality/hash/text monitor with shadow map","All pairs in generated key populations with near-collisions."),
"K06":("uniqueness and bit-statistics monitor over keys generated in many threads and processes","Some 300,000 keys a quick run: repeats of generators with up to about 32 bits of state are seen; entropy beyond that is not judged. RSA keys cannot be generated by this code."),
"T01":("generated trusts with recorded issuer as oracle, single-field mutation","Whole-second times; primitives assumed secure."),
"T02":("generated revocations with recorded revoker as oracle, single-field mutation and cross-use","Whole-second times; primitives assumed secure."),
"T03":("structural mutation of certificates judged by an independent validity rule","The rule knows who really signed what; chains up to length 9 of mixed key types."),
"T04":("issuing and extension workload judged by the independent validity rule","As T03; both fresh and ready-made trusts, valid and forged."),
"T05":("round-trip and injectivity monitor over all document formats","Four shapes of documents too large for the binary format are known findings."),
"T06":("hostile-input fuzzing with panic monitor, library and service","Mutation-based, grammar-aware, seeded; overflow checks and debug assertions on."),
"G01":("history workload against a reference model, each returned chain re-verified","Histories over up to 8 keys per graph, library with monitored storage and service with SQLite."),
"G02":("graph workload with revocations against a reference model","As G01, all positions of revoker and revoked; small graphs are drawn densely from the complete space."),
"G03":("completeness monitor: all simple chains of the reference model","As G01; exact set comparison."),
"G04":("weight monitor against a reference model","As G01; roots from 0 to above 16."),
"G05":("issuer-restricted queries against the filtered unrestricted answer and the model","As G01."),
"G06":("permutation workload with in-force monitor","Permutations of statement multisets over several pairs; service storage and the library with a storage of the same rule."),
"G07":("expiry-boundary workload against a reference model","Expiries over the whole range, including beyond 2^63; queries below 2^63."),
"G08":("forgery injection with before/after snapshots of answers and rows","Forgeries of every field at random points of random histories."),
"G09":("differential run with and without extra queries, row snapshots","Paired executions of the same history."),
"G10":("step-budget monitor on storage reads over dense and deep graphs","Budget computed from the model's count of simple chains, logical steps, no clocks."),
"G11":("fault injection at every storage and SQL access with state oracle","Every access of each operation driven is failed once, before and after it takes effect (thorough), a stride of them (quick)."),
"S01":("access-control and root-setting monitor over call histories","Native service with settable call parameters."),
"S02":("provenance-record workload with refusal monitor","Every time-taking call with right and wrong provenance records; the two certificate-inserting calls are excepted by the statement."),
"S03":("issue-time boundary workload with refusal and effect monitor","Native service."),
"S04":("field-by-field document monitor and library/service differential","Native service, SQLite as shipped by the system."),
"S05":("process kill at database accesses with restart and state oracle","The process dies, the machine does not: SQLite's own durability is assumed. Every access in thorough, a stride in quick."),
"S07":("conformance monitor of live answers against the parsed interface file","Random arguments of the declared types, valid and hostile, to the native service."),
"S08":("differential monitor of the executed Aqua functions against a twin network driven by hand","The Aqua sources are executed by a small interpreter of ours over native service processes; source it cannot read is counted, not judged."),
"S09":("the tool itself run over a network of service processes with injected faults, its output and exit status monitored","Compiled with TypeScript's transpiler; client library, network list and base58 are stand-ins, its Aqua is executed by our interpreter; what that cannot read is counted, not judged."),
"S06":("shipped certificates verified and loaded at sampled times; start-up script run by a small AIR interpreter on the real service; distribution crate run","Reads the shipped files of /repo; boundaries and random times; the script also on a service that refuses and after expiry."),
}
L={"G11":"fault_enumeration","S05":"fault_enumeration"}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"bash setup.sh",
 "checks":[{"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"runtime monitoring: "+T[i][0],"level":L.get(i,"exploration"),"level_note":T[i][1]} for i in ids],
 "not_applicable":[],
 "notes":"No hooks in /repo: the service is compiled natively from its own sources against stand-ins for its host (harness/shims)."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
