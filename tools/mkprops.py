import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="packages/Spartan-secq/src/"
W="packages/spartan_wasm/src/wasm.rs"
R="packages/circuit_reader/src/"
p("C01","Every honest proof is accepted, whatever the delivery, coins and faults",
 "For every circuit and every witness and public input that satisfy it, the proof the prover returns is accepted by every verifier holding the same circuit and public input. This holds for every prover randomness and every verifier challenge, and for every order, delay, duplication and retransmission of the messages carrying circuit, proof and inputs, including after prover or verifier restarts. Once faults stop, each pending honest request is proved and accepted within a bounded number of steps.",
 ["inputs","schedules","fault_sequences","configurations"],
 "All circuit shapes (constraint, variable, input counts incl. 0, 1, non powers of two), all satisfying assignments incl. extreme field values, all randomness, all deliveries and restarts.",
 "The runnable tests only touch a few scalar values; the end-to-end test uses one fixture and one random run, so the quantifiers over shapes, field values, coins and deliveries are not reached.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"dense_mlpoly.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"scalar/scalar.rs",S+"group.rs",W],
 [("NIZK prove/verify pair",S+"lib.rs"),("sum-check and sigma protocols",S+"sumcheck.rs, "+S+"nizk/mod.rs"),("inner product argument",S+"nizk/bullet.rs"),("scalar field arithmetic used by both sides",S+"scalar/scalar.rs"),("padding of circuit and witness",S+"lib.rs (Instance::new, Assignment::pad)")],
 ["return value of spartan_wasm prove/verify","libspartan NIZK::prove / NIZK::verify"])
p("C02","No proof of a false statement is accepted, even from a malicious prover",
 "If no witness satisfies the circuit under the public input the verifier holds, or the prover's witness does not satisfy it, then no message the prover can send makes the verifier accept. This covers a prover that runs the honest code on a bad witness and a prover that departs from the protocol at any single step and makes every other step consistent, including messages whose vectors have unexpected lengths.",
 ["inputs","histories","fault_sequences"],
 "All circuits, non-satisfying assignments (incl. near misses in one limb of one constraint) and Byzantine prover strategies that concentrate the lie in one verifier check.",
 "No test ever presents a verifier with a dishonest prover; rejecting behaviour of each individual verifier check is untested.",
 [S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"dense_mlpoly.rs",S+"group.rs",S+"lib.rs"],
 [("sum-check round checks",S+"sumcheck.rs"),("product, knowledge, equality proofs",S+"nizk/mod.rs"),("polynomial opening",S+"dense_mlpoly.rs, "+S+"nizk/bullet.rs"),("claimed evaluation point check",S+"lib.rs (NIZK::verify)")],
 ["spartan_wasm verify","libspartan NIZK::verify"])
p("C03","A proof message altered in transit is never accepted",
 "A verifier that receives anything other than the bytes the prover sent (bits flipped, bytes overwritten, truncated, spliced with another proof, vectors lengthened, shortened or swapped, elements changed) does not accept it, unless those bytes decode to exactly the proof that was sent. It never accepts because some field of the proof is left unchecked.",
 ["inputs","fault_sequences"],
 "All honest proofs and all single and combined alterations of their encoding, at byte and at element granularity.",
 "Existing tests verify only untouched proofs; none corrupts a message.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"scalar/scalar.rs",W],
 [("every proof element enters a verification equation",S+"r1csproof.rs"),("decoding of scalars and points",S+"scalar/scalar.rs, "+S+"group.rs")],
 ["spartan_wasm verify on altered bytes"])
p("C04","A proof counts only for the circuit, inputs and session it was made for",
 "A proof accepted for one circuit, public input and transcript context is not accepted for a different circuit, a different public input or a different context. This holds for replayed, reordered and cross-delivered messages, and for circuits or public inputs chosen after seeing the proof.",
 ["inputs","histories","schedules"],
 "All pairs of sessions, all replays between them, and adaptively chosen circuit or input substitutes that keep the polynomial evaluations used by the proof unchanged.",
 "Tests use one circuit, one input and one label; no replay or substitution is attempted.",
 [S+"lib.rs",S+"r1csproof.rs",S+"r1csinstance.rs",S+"transcript.rs",W],
 [("circuit digest absorbed in the transcript",S+"lib.rs"),("public input absorbed and evaluated",S+"r1csproof.rs"),("transcript label",W)],
 ["spartan_wasm verify","libspartan NIZK::verify"])
p("C05","Accepted public inputs are the ones the witness assigns to the circuit's wires",
 "For a circuit produced by the setup tool from a compiled circom circuit, a verifier accepts a proof for given public inputs only if the prover's witness assigns exactly these values to the circuit's public wires and 1 to the constant wire.",
 ["inputs","histories"],
 "All circuits with public wires, all witnesses, all public inputs differing from the witness's public wires, and witnesses with a constant wire different from 1.",
 "The only end-to-end test passes constant public inputs and never checks that different ones are refused.",
 [R+"lib.rs",W,"packages/lib/src/core/prover.ts"],
 [("translation of public wires when converting the circuit",R+"lib.rs (convert_to_spartan_r1cs)")],
 ["setup tool + spartan_wasm prove/verify"])
p("C06","Proofs hide the witness behind fresh randomness, or are not produced at all",
 "Every blinding value and nonce used in a proof is non-zero, used once, and unpredictable from other proofs: proofs of the same statement made with different entropy share no commitment, nonce or response, and every part of the entropy drawn matters. When the entropy source fails, the prover returns no proof.",
 ["inputs","fault_sequences","histories"],
 "All statements, all entropy streams (incl. streams that differ in one bit), failures of the entropy source at each draw, and any number of proofs in one process.",
 "Tests run once with OS entropy; no test compares proofs or fails the entropy source.",
 [S+"random.rs",S+"scalar/scalar.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"dense_mlpoly.rs"],
 [("random tape seeded from the entropy source",S+"random.rs"),("uniform sampling",S+"scalar/scalar.rs (Scalar::random)"),("blinds of commitments",S+"dense_mlpoly.rs, "+S+"r1csproof.rs")],
 ["proof bytes; the entropy source seam (getrandom)"])
p("C07","Results never depend on earlier or concurrent requests in the process",
 "Proving, verifying and circuit loading give the same result, byte for byte for the same entropy, whatever other requests the process served before, whatever requests run interleaved with it on other threads, and whichever of those failed or crashed. In particular a verifier's verdict on a proof does not change because of proofs, circuits or malformed messages it handled earlier.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of proving and verifying requests for different circuits at transcript and entropy operations, all histories incl. aborted requests.",
 "Tests run each operation once, in isolation.",
 [S+"lib.rs",S+"random.rs",S+"commitments.rs",S+"r1csproof.rs",W],
 [("no shared mutable state between requests","all of "+S),("per request transcript, generators and tape",S+"lib.rs, "+W)],
 ["spartan_wasm prove/verify/poseidon results under an interleaving scheduler"])
p("C08","A circuit file loads to exactly what it encodes, however storage delivers it",
 "Loading a well-formed R1CS file yields exactly the constraints, coefficients, wire counts and wire map in the file. The result does not depend on how storage splits or interrupts reads, on the order of the sections, on unknown extra sections, or on which canonical coefficient values occur.",
 ["inputs","schedules","fault_sequences","configurations"],
 "All well-formed files (any section order, extra sections, empty and large linear combinations, any canonical coefficient), all read chunkings and interruptions.",
 "No test loads an R1CS file.",
 [R+"circom_reader.rs",R+"lib.rs"],
 [("section table then seek",R+"circom_reader.rs (from_reader)"),("field decoding",R+"circom_reader.rs (read_field)")],
 ["circuit_reader from_reader / load_r1cs_from_bin"],
 "visibility of the reader module (cfg verif_sim)")
p("C09","A damaged or unreadable circuit file is refused, cheaply, never half loaded",
 "If the header, constraint or wire-map data is cut short anywhere, a read or seek fails at any point, or the magic, version, field size, section sizes, wire-0 mapping, wire indices or counts are damaged so that they contradict the file, loading fails and no circuit is returned. It never returns a circuit with missing, extra or invented constraints, and never reserves memory out of proportion to the data it has actually read.",
 ["inputs","fault_sequences","crash_points"],
 "Every truncation point, every failing I/O operation, and every corruption of the structural fields of every well-formed file.",
 "No test presents a damaged file or a failing reader.",
 [R+"circom_reader.rs"],
 [("header, section-size and wire-map validation",R+"circom_reader.rs"),("error propagation from the reader",R+"circom_reader.rs")],
 ["circuit_reader from_reader / load_r1cs_from_bin"],
 "visibility of the reader module (cfg verif_sim)")
p("C10","A witness file loads exactly or is refused",
 "Loading a well-formed witness file yields exactly its field elements in order, however the reader delivers the bytes; a file that is truncated, whose reader fails, or whose magic, version, section structure, section sizes, field size or counts are damaged is refused, with no partial witness and without reserving memory out of proportion to the data read.",
 ["inputs","fault_sequences","crash_points"],
 "All well-formed witness files incl. all canonical values, all chunkings and interruptions, every truncation point and failing read, every structural corruption.",
 "One fixture is loaded by one test from memory; no damaged or chunked input is tried.",
 [W],
 [("header and section checks",W+" (load_witness_from_bin_reader)")],
 ["spartan_wasm load_witness_from_bin_reader"])
p("C11","The proving system works on exactly the constraints in the circuit file",
 "For every circuit and assignment, the satisfaction verdict given after converting the circuit, storing it, and loading it again equals evaluating the original constraints over the integers modulo the field order; out-of-range indices, wrong assignment lengths and non-canonical values are refused rather than reinterpreted. Circuits stored on disk decode to the circuit that was stored.",
 ["inputs","configurations","histories"],
 "All constraint systems and assignments (satisfying, violating, violating in a single limb of a single constraint), all shapes and padding cases, store/load cycles between prover and verifier.",
 "The field tests check a handful of operations; no test compares the satisfaction check or conversion with independent evaluation.",
 [S+"lib.rs",S+"r1csinstance.rs",S+"sparse_mlpoly.rs",S+"scalar/scalar.rs",R+"lib.rs"],
 [("padding and column shift",S+"lib.rs (Instance::new)"),("sparse matrix-vector product",S+"sparse_mlpoly.rs"),("field arithmetic and equality",S+"scalar/scalar.rs"),("conversion",R+"lib.rs")],
 ["libspartan Instance::new / is_sat / serde"])
p("C12","A crash or disk error while writing a circuit never leaves a wrong one behind",
 "Whenever the setup tool stops at any point of producing a circuit file (crash, full disk, short or failed write, unreadable input), the file a prover or verifier later finds is either refused when loaded or is the complete circuit; it is never a different circuit. The tool reports success only if the complete file was handed to storage, and running it again after the fault yields the complete circuit.",
 ["crash_points","fault_sequences"],
 "Every write boundary and every byte position of the output, each kind of write and read failure, with and without an older circuit at the same path.",
 "No test runs the setup tool.",
 [R+"bin/gen_spartan_inst.rs",R+"lib.rs",S+"lib.rs"],
 [("single serialisation then write of the whole buffer",R+"bin/gen_spartan_inst.rs"),("length-prefixed encoding refuses prefixes",S+"r1csinstance.rs, "+S+"sparse_mlpoly.rs")],
 ["bytes on the simulated disk after the tool stopped; spartan_wasm prove/verify on them"],
 "file and argument access of the setup tool (cfg verif_sim)")
p("C13","Proofs and circuits survive encoding; only canonical fields decode",
 "Decoding what was encoded gives the same proof or circuit, and encoding that again gives the same bytes. A proof or circuit whose field elements are not canonical, are cut short, or carry a wrong length is refused with an error, so no two different byte strings of the same length stand for the same field elements.",
 ["inputs","fault_sequences"],
 "All proofs and circuits produced in a run and every re-encoding of one of their field elements (value plus field order, wrong length prefix, cut at any byte).",
 "No test decodes a malformed scalar; round trips are tested for single fixed values only.",
 [S+"scalar/scalar.rs",S+"lib.rs",S+"sparse_mlpoly.rs"],
 [("scalar serde",S+"scalar/scalar.rs (Serialize/Deserialize)"),("canonical byte parsing",S+"scalar/scalar.rs (from_bytes)")],
 ["bincode encoding of NIZK, SNARK, Instance"])
p("C14","Deployments interoperate: transcript, generators and wire format are stable",
 "A proof made by one deployment of this version is accepted by any other deployment of it, and proofs and circuit files recorded earlier keep being accepted and decoded; both sides follow the published Spartan NIZK protocol over secq256k1, so an independent implementation of the protocol accepts exactly the same proofs. This holds for mixed fleets where provers and verifiers are upgraded and rolled back at arbitrary moments.",
 ["inputs","histories","configurations"],
 "All statements and random tapes, with the prover, verifier, circuit file or proof taken from either side of an upgrade, in both directions.",
 "No recorded proof or second implementation exists in the test suite.",
 [S+"transcript.rs",S+"commitments.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs","packages/secq256k1/src/hashtocurve.rs","packages/secq256k1/src/affine.rs"],
 [("Fiat-Shamir transcript contents and labels",S+"r1csproof.rs, "+S+"transcript.rs"),("generator derivation",S+"commitments.rs, packages/secq256k1/src/hashtocurve.rs"),("wire format",S+"lib.rs")],
 ["spartan_wasm prove/verify against an independent model"])
p("C15","SNARK mode accepts every honest proof",
 "With a preprocessed circuit commitment, every proof the SNARK prover returns for a satisfying assignment is accepted by every verifier holding the same commitment, parameters and public input, for every circuit shape, randomness and challenge, and after the proof was encoded, sent and decoded.",
 ["inputs","schedules","configurations"],
 "All shapes and sparsity patterns (unequal numbers of non-zero entries, empty matrices), assignments, coins and deliveries.",
 "One synthetic size is tested, and not in the buildable test set.",
 [S+"lib.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"r1csinstance.rs",S+"unipoly.rs",S+"sumcheck.rs"],
 [("sparse polynomial evaluation proof",S+"sparse_mlpoly.rs"),("product tree proofs",S+"product_tree.rs")],
 ["libspartan SNARK::prove / SNARK::verify"])
p("C16","SNARK mode rejects altered, replayed and false proofs",
 "The SNARK verifier accepts no proof that was altered after the prover produced it, that was made from a non-satisfying assignment, or that was made for a different circuit commitment, public input or transcript context.",
 ["inputs","fault_sequences","histories"],
 "All single-element and byte alterations of SNARK proofs, including with verifier coins held fixed so that each check stands alone, all bad assignments and replays.",
 "No negative test exists.",
 [S+"lib.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"r1csinstance.rs",S+"sumcheck.rs",S+"unipoly.rs"],
 [("hash-layer, product-layer and derefs proofs",S+"sparse_mlpoly.rs"),("batched sum-check verification",S+"product_tree.rs, "+S+"sumcheck.rs"),("commitment absorbed in the transcript",S+"lib.rs, "+S+"r1csinstance.rs")],
 ["libspartan SNARK::verify"])
p("C17","Hashing is the same for every call, caller and history",
 "Poseidon hashing returns the value of the published permutation for its inputs on every call: a hasher may be used any number of times and in any interleaving with other hashers, and the byte interface returns the same value as the field interface, refusing non-canonical inputs.",
 ["histories","schedules","inputs"],
 "All sequences of hash calls on shared and separate hashers, all interleavings, all canonical inputs incl. extreme ones.",
 "Each test hashes once with a fresh hasher.",
 ["packages/poseidon/src/lib.rs","packages/poseidon/src/poseidon_k256.rs","packages/poseidon/src/k256_consts.rs","packages/secq256k1/src/field/field_secp.rs",W],
 [("round-constant position and state of a hasher","packages/poseidon/src/lib.rs"),("byte interface",W+" (poseidon)")],
 ["poseidon::Poseidon::hash, poseidon_k256::hash, spartan_wasm poseidon"])
p("C18","Hostile messages cost bounded resources and leave the service working",
 "Whatever bytes a verifier or prover receives as proof, circuit, witness or public input, handling them ends within bounded time and memory relative to their size and to the circuit, never with acceptance of a proof that was not validly made; afterwards the same process serves honest requests normally.",
 ["inputs","fault_sequences","histories"],
 "All byte strings derived from honest messages by corruption of lengths, counts and contents, random bytes, and any sequence of them mixed with honest requests.",
 "No test sends malformed messages.",
 [W,S+"lib.rs",S+"nizk/bullet.rs",S+"sumcheck.rs",S+"scalar/scalar.rs"],
 [("size checks before work",S+"nizk/bullet.rs, "+S+"sumcheck.rs"),("decoding with bounded allocation",W)],
 ["spartan_wasm prove/verify on arbitrary bytes, allocator seam"])
p("C19","The client verifier says yes only to a valid proof with matching inputs",
 "The TypeScript verifier resolves to true exactly when the proof is valid for the circuit it loaded and the signature-derived public values match the message hash and nonce point, for every interleaving of concurrent verifications and every storage or network failure; failures lead to rejection or an error, never to true. Concurrent and repeated calls do not influence each other and do not modify the caller's buffers.",
 ["schedules","fault_sequences","inputs"],
 "All interleavings of concurrent verify and prove calls, failing or truncated circuit fetches, failing wasm calls, altered public inputs.",
 "The library tests need network-hosted circuits and cover single honest runs.",
 ["packages/lib/src/core/verifier.ts","packages/lib/src/core/prover.ts","packages/lib/src/helpers/publicInputs.ts","packages/lib/src/helpers/utils.ts"],
 [("conjunction of proof and public-input check","packages/lib/src/core/verifier.ts"),("public input recomputation","packages/lib/src/helpers/publicInputs.ts")],
 ["MembershipVerifier.verify, MembershipProver.prove"])
p("C20","The membership circuits accept exactly valid signatures by set members",
 "The circom membership circuits are satisfiable for given public inputs exactly when the prover knows an ECDSA signature value for the committed message whose recovered public key or address is in the Merkle tree with the given root.",
 ["inputs","programs"],
 "All signatures, trees, paths and public inputs.",
 "The circuit tests need the circom compiler and use a few fixed keys.",
 ["packages/circuits/eff_ecdsa_membership/eff_ecdsa.circom","packages/circuits/eff_ecdsa_membership/pubkey_membership.circom","packages/circuits/eff_ecdsa_membership/addr_membership.circom","packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom","packages/circuits/poseidon/poseidon.circom"],
 [("complete point addition and scalar multiplication constraints","packages/circuits/eff_ecdsa_membership/secp256k1"),("Merkle inclusion","packages/circuits/eff_ecdsa_membership/tree.circom")],
 ["satisfiability of the compiled circuits"])
p("C21","Field, curve and hash-to-curve operations are mathematically exact",
 "Field arithmetic, group operations, point compression and hashing to the curve return the exact mathematical result for every operand.",
 ["inputs"],
 "All operands of every arithmetic operation.",
 "Tests check sample values only.",
 [S+"scalar/scalar.rs","packages/secq256k1/src/field/field_secp.rs","packages/secq256k1/src/field/field_secq.rs","packages/secq256k1/src/affine.rs","packages/secq256k1/src/hashtocurve.rs"],
 [("Montgomery arithmetic",S+"scalar/scalar.rs, packages/secq256k1/src/field"),("isogeny map","packages/secq256k1/src/hashtocurve.rs")],
 ["public arithmetic API of the crates"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80
    for f in x['anchors']['files']:
        import os; assert os.path.exists('/repo/'+f),f
print(len(P))
