#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":("differential property testing: generated bytecode against an independent reference EVM; the kernel must reach the same status, gas, logs and roots","reference EVM written for this task (Cancun); feature eth_mainnet; gas limits below 2^32"),
"C02":("differential property testing: generated multi-contract call/create/revert/selfdestruct scenarios against the reference EVM, full and pruned witnesses","as C01; call depth 1024 is out of reach"),
"C03":("differential and metamorphic property testing: every transaction is rerun with gas limits at, just below and around each step of its reference trace","as C01"),
"C04":("differential property testing: structured and damaged precompile inputs against independent implementations, by call and by transaction","pairing oracle by known discrete logarithms; point evaluation with commitments to 0, 1, x, -x and points of wrong order"),
"C05":("property-based testing on validity bounds: valid transactions must reach the reference outcome; for invalid ones every claimed effect must be refused","as C01; well-formed RLP; the blob budget per block is not varied"),
"C06":("differential property testing of whole blocks and batches against the reference EVM and tries, plus wrong claims and forged witnesses that must be refused","as C01; the bloom filter of the whole block is not checked by the kernel"),
"C19":("differential property testing: every operation of the towers, curves and pairings against big-integer arithmetic and the laws; encodings against a decoder of our own","elements reduced, points of the prime-order groups"),
"C20":("differential property testing: generated code dense in JUMPDEST bytes and jumps against a reference jump-destination analysis","as C01; kernel asm of the analysis itself is skipped by the interpreter and exercised by C07/C08"),
"C12":("model-based property testing: operation sequences vs. ordered map and from-scratch trie","generated histories over prefix-free keys; trusts the reference trie (own RLP/MPT) and tiny-keccak"),
"C13":("model-based property testing: subsets/proofs vs. the full reference trie","generated maps, key sets, proofs and updates; trusts the reference trie"),
"C14":("model-based property testing vs. Vec<u8>, round-trips, malformed-input fuzzing","generated sequences up to 64 nibbles"),
"C15":("model-based property testing vs. map and recursive reference root","generated related keys; trusts plonky2's Poseidon"),
"C07":("property-based testing of segmentation: generated blocks cut at many segment lengths; registers, memory images and outcome must be those of the uncut run","as C01; segments of at least 2^8 rows"),
"C16":("differential property testing: generated blocks turned into traces of every wire form, decoded, and compared with reference batches, tries and roots; damaged traces must be refused","as C01; type 1 (MPT) traces; batch sizes 1 to the block"),
"C17":("round-trip and differential fuzzing of witness parsing: encoder and reader of our own, damaged and random input","CBOR fields as read by ciborium"),
"C18":("differential property testing: generated assembly against an expansion of our own; rearrangements followed symbolically; optimized and unoptimized programs run on a stack machine","%stack code may be any push/dup/swap/pop sequence with the declared effect"),
"C08":("property-based testing of generated traces: random segments of random blocks, and tables of random operations; every constraint on every row, every lookup and cross-table lookup is evaluated","constraints evaluated in the base field over the generated tables rather than by proving; feature eth_mainnet; segments of 2^10 to 2^14 cycles"),
"C09":("fault-injection property testing: random changes of result-carrying cells of generated traces, with everything that depends on them repaired; constraints or lookups must refuse each","one corruption at a time, with the repairs the check knows; prover inputs and first reads of preinitialized memory are free by design; the Keccak permutation and the shift table by table"),
"C10":("fault-injection property testing: random alterations of statements and proofs; the aggregation circuits (over stub proofs) and the native verifier must accept exactly the honest ones","aggregation circuits are tested with their recursive verification stubbed, relations and verifier data one by one; native proofs of small segments with a fast configuration"),
"C21":("round-trip property testing of random public values: field elements, JSON, in-circuit targets, transcript; and metamorphic testing that different values differ","in-circuit forms are evaluated as witnesses of small circuits"),
}
import subprocess
HOOKS=["c9687a6","8ceead4","04555ee","f4664be","3e95ceb","0a70241"]
checks=[]
for x in props:
    i=x['id']
    if i in T:
        t,n=T[i][:2]
        checks.append({"property":i,"quick_cmd":f"./run.sh check {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh check {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":T[i][2] if len(T[i])>2 else "exploration","level_note":n})
m={"version":1,"setup_cmd":"./run.sh build","checks":checks,
"not_applicable":[{"property":x['id'],"reason":"not claimed: no check was built. Perturbing the advice the kernel asks for is within reach of property-based testing, but needs a hook at every prover input call site and a model of which answers are free; time did not allow it. C07, C08 and C15-C20 exercise the honest advice only"} for x in props if x['id'] not in T],
"hooks":{"guard":"cfg(verif_hooks), set by RUSTFLAGS=--cfg verif_hooks","enable":"/verif/env.sh sets RUSTFLAGS with --cfg verif_hooks for the harness build","source_commits":HOOKS},
"notes":"One Rust harness (/verif/harness) with path dependencies on /repo's crates; run.sh rebuilds it against /repo's working tree and runs one check."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
