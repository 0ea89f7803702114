#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
K="evm_arithmetization/src/cpu/kernel/asm/"
p("C01","EVM opcode value semantics",
  "For every stack, memory, calldata and code content, executing any Cancun opcode inside a transaction leaves exactly the values the Ethereum specification prescribes on the stack, in memory, in return data and in storage: arithmetic and comparison (signed and unsigned, boundary words, zero divisors), bit operations and shifts, byte and memory access (any offset, overlap or out-of-range source), hashing, environment and block information, code and calldata copying, PUSH/DUP/SWAP and jumps to valid destinations.",
  ["inputs","programs"],"all operand words, memory offsets and lengths, calldata and bytecode contents",
  "Existing kernel tests run single routines on a few hand-picked operands; a full transaction with boundary operands through each opcode is only sampled by a handful of fixed blocks.",
  [K+"core",K+"memory",K+"signed.asm",K+"exp.asm",K+"shift.asm","evm_arithmetization/src/witness/operation.rs","evm_arithmetization/src/witness/transition.rs","evm_arithmetization/src/cpu/kernel/interpreter.rs"],
  [("native operations","evm_arithmetization/src/witness/operation.rs"),("syscall routines",K+"core/syscall.asm")],
  ["final state root, receipts root and gas used of a simulated block"])
p("C02","Call, create and revert semantics of the world state",
  "For every transaction program, message calls of all four kinds, CREATE and CREATE2, REVERT, exceptional halts, STATICCALL write protection, value transfer, SELFDESTRUCT (EIP-6780), transient storage and nonce/code/balance/storage updates have exactly the effect on the world state that the Ethereum specification prescribes. In particular everything a reverted or failed frame did (balances, nonces, code, storage, transient storage, logs, created accounts, warm sets, refunds) is undone, whatever the nesting, and everything a successful frame did is kept.",
  ["programs","histories"],"all call trees, interleavings of effects and points of failure within a transaction and across the transactions of a block",
  "The tests replay a few fixed scenarios (one self-destruct, one token transfer, one create); the space of call trees with failures at arbitrary points is never sampled.",
  [K+"core/call.asm",K+"core/create.asm",K+"core/terminate.asm",K+"journal",K+"core/transient_storage.asm",K+"core/transfer.asm"],
  [("journal and checkpoints",K+"journal"),("context switching",K+"core/call.asm")],
  ["final state root and receipts of a simulated block"])
p("C03","Exact gas accounting",
  "For every transaction, the gas charged equals the Ethereum (Cancun) gas schedule to the unit: intrinsic gas, each opcode's static and dynamic cost, memory expansion, warm/cold access, SSTORE costs and refunds (capped at a fifth), call stipends and the 63/64 rule, create/code-deposit and init-code costs, copy/log/exp/hash costs. An operation one unit short of gas fails as out of gas and consumes the frame's gas; with exactly enough it succeeds.",
  ["inputs","programs"],"all programs, gas limits (including limits cut at any intermediate point of an execution) and access patterns",
  "Tests compare total gas of a handful of fixed transactions, never at the exact out-of-gas boundary.",
  [K+"core/gas.asm",K+"core/call_gas.asm",K+"core/access_lists.asm",K+"core/intrinsic_gas.asm",K+"memory/syscalls.asm",K+"mpt/storage/storage_write.asm","evm_arithmetization/src/cpu/gas.rs"],
  [("gas metering of native opcodes","evm_arithmetization/src/witness/gas.rs"),("dynamic costs",K+"core/gas.asm")],
  ["sender and fee-recipient balances, gas used in receipts and public values"])
p("C04","Precompiled contracts compute the specified functions",
  "For every input of any length, calling a precompiled contract (ECRECOVER, SHA256, RIPEMD160, IDENTITY, MODEXP, BN254 add/mul/pairing, BLAKE2F, KZG point evaluation) returns exactly the output, success flag and gas cost that Ethereum specifies, including short, over-long and malformed inputs (points off the curve, out-of-range scalars or field elements, bad recovery ids, zero moduli) and calls with too little gas.",
  ["inputs"],"all call data, gas amounts and call kinds",
  "Unit tests cover isolated routines with a few vectors; input padding, malformed input, gas and return-data plumbing through a real CALL are not exercised over the input space.",
  [K+"core/precompiles",K+"curve",K+"hash",K+"bignum","evm_arithmetization/src/generation/prover_input.rs","evm_arithmetization/src/extension_tower.rs"],
  [("precompile dispatch",K+"core/precompiles/main.asm")],
  ["return data and success flag stored by the calling contract"])
p("C05","Transaction validity and fee rules for all types",
  "A signed, well-formed transaction of any supported type (legacy with or without EIP-155, access list, dynamic fee, blob) is executed exactly when Ethereum deems it valid in the current state: sender recovery, chain id, nonce, balance for gas limit times fee cap plus value (plus blob fee), intrinsic gas, fee caps versus base fee, init-code size. An invalid transaction is never given effect: a block claiming that it changed a balance, nonce, code or storage slot, or used gas, is refused (the kernel may at most record it as failed, free and without effect). For a valid one the sender, fee recipient, nonce, access-list warmth and refunds change exactly as specified.",
  ["inputs"],"all transaction fields, types, signatures and sender states, including values one unit off each validity bound",
  "Tests decode one transaction per type and never sit on the validity bounds.",
  [K+"transactions",K+"core/process_txn.asm",K+"rlp"],
  [("type routing and field decoding",K+"transactions"),("validation and fee charging",K+"core/process_txn.asm")],
  ["acceptance of the block and final roots"])
p("C06","Block outputs: roots, receipts, blooms, withdrawals, system state",
  "After executing any block's transactions the state, transaction and receipt tries, cumulative gas, log entries and bloom filters, withdrawals, beacon-root contract update and historical block hashes are exactly those of the Ethereum specification, for any number of transactions and any content of the pre-state tries (including emptied storage, deleted accounts and hashed-out untouched subtrees). A witness claiming any other final state, transaction or receipt root, or gas used, is rejected.",
  ["inputs","histories"],"all pre-states, transaction lists, withdrawals, and all wrong claimed roots",
  "Existing block tests are a few fixed blocks; wrong claims are not tested at all.",
  [K+"main.asm",K+"core/log.asm",K+"bloom_filter.asm",K+"mpt",K+"linked_list",K+"core/withdrawals.asm",K+"beacon_roots.asm","evm_arithmetization/src/generation/mod.rs"],
  [("final root assertions",K+"main.asm"),("linked lists to tries",K+"mpt/linked_list")],
  ["SimulationResult / error of a simulated block, public values"])
p("C07","Segmentation does not change the computation",
  "Splitting the execution of a batch into continuation segments of any maximum length yields the same final roots and gas as the unsegmented run; consecutive segments agree exactly on registers and memory (the after-state of one is the before-state of the next), the first starts from the initial state and the last halts.",
  ["configurations","programs"],"all segment lengths and programs",
  "Tests use one segment length on one fixed block.",
  ["evm_arithmetization/src/generation/segments.rs","evm_arithmetization/src/generation/mod.rs","evm_arithmetization/src/prover.rs","evm_arithmetization/src/cpu/kernel/interpreter.rs"],
  [("segment iterator","evm_arithmetization/src/generation/segments.rs"),("boundary handling",K+"main.asm")],
  ["public values and registers of every segment"])
p("C08","Completeness: honest executions satisfy every constraint",
  "For every valid batch and segmentation, the generated trace tables satisfy all constraints of all tables on every row, every lookup argument, and every cross-table lookup including the public-value terms, so that an honest prover can always produce a proof.",
  ["programs","inputs"],"all executions, in particular all operand values of every operation",
  "Proving is tested on a few fixed blocks; the STARK unit tests sample random operands of some operations.",
  ["evm_arithmetization/src/cpu","evm_arithmetization/src/arithmetic","evm_arithmetization/src/keccak","evm_arithmetization/src/keccak_sponge","evm_arithmetization/src/byte_packing","evm_arithmetization/src/logic.rs","evm_arithmetization/src/memory","evm_arithmetization/src/memory_continuation","evm_arithmetization/src/witness","evm_arithmetization/src/all_stark.rs"],
  [("trace generation","evm_arithmetization/src/witness/traces.rs"),("constraints","evm_arithmetization/src/cpu/cpu_stark.rs"),("cross-table lookups","evm_arithmetization/src/all_stark.rs")],
  ["constraint evaluations on generated traces"],hook="access to the AllStark table fields and cross-table lookups")
p("C09","Soundness: corrupted traces are rejected",
  "Changing the result of any operation in a trace - an arithmetic, logic, byte-packing, Keccak or sponge output, a value read from or written to memory or the stack, a jump target, program counter, gas, context or kernel-mode flag, or a memory log entry's value, address or timestamp - makes some constraint, lookup or cross-table lookup fail.",
  ["fault_sequences","inputs"],"all operations, operand values and single corruptions of result-carrying cells",
  "No existing test corrupts a trace; they only show that honest traces pass.",
  ["evm_arithmetization/src/cpu","evm_arithmetization/src/arithmetic","evm_arithmetization/src/keccak","evm_arithmetization/src/keccak_sponge","evm_arithmetization/src/byte_packing","evm_arithmetization/src/logic.rs","evm_arithmetization/src/memory","evm_arithmetization/src/memory_continuation","evm_arithmetization/src/all_stark.rs"],
  [("constraints","evm_arithmetization/src/cpu/cpu_stark.rs"),("cross-table lookups","evm_arithmetization/src/all_stark.rs")],
  ["constraint evaluations on corrupted traces"],hook="access to the AllStark table fields and cross-table lookups")
p("C10","Proofs verify exactly for the statement they prove",
  "A proof generated for a segment is accepted by the verifier, and the pair is rejected when any public value (roots, block metadata, block hashes, gas, transaction numbers, registers, memory caps, checkpoint data) or any part of the proof is altered, or when the segments of a batch are reordered, dropped or mixed.",
  ["inputs","fault_sequences"],"all public values and all alterations of proof and statement",
  "Tests only verify honest proofs.",
  ["evm_arithmetization/src/verifier.rs","evm_arithmetization/src/proof.rs","evm_arithmetization/src/get_challenges.rs","evm_arithmetization/src/prover.rs"],
  [("public-value binding","evm_arithmetization/src/verifier.rs"),("challenger transcript","evm_arithmetization/src/get_challenges.rs")],
  ["verifier verdict"],hook="access to the public-value contribution of the memory lookup")
p("C11","Nondeterministic prover advice cannot change the result",
  "Whatever values a malicious prover supplies for the kernel's nondeterministic inputs (linked-list pointers, division and inverse witnesses, jump-destination proofs, pairing witnesses, sizes and hash preimage hints), the kernel either rejects or accepts exactly the honest outcome: same roots, same gas, same receipts.",
  ["fault_sequences","inputs"],"all advice call sites and all replacement values, one or more per run",
  "Tests always run with honest advice, so a missing check in the kernel is invisible to them.",
  [K+"linked_list",K+"core/jumpdest_analysis.asm",K+"mpt",K+"bignum",K+"curve","evm_arithmetization/src/generation/prover_input.rs"],
  [("advice provider","evm_arithmetization/src/generation/prover_input.rs"),("kernel checks of advice",K+"linked_list")],
  ["outcome of a simulated block under perturbed advice"],hook="interception of prover inputs")
p("C12","Merkle-Patricia tries are exact maps with Ethereum roots",
  "Any sequence of inserts, overwrites and deletes on a trie keeps it equal to an ordered map (lookups, membership, iteration), and its root hash and node structure depend only on that map and equal the Ethereum trie of it. Copies are independent, failed operations change nothing, and path queries and trie diffs report exactly the nodes that exist and differ.",
  ["histories","inputs"],"all operation sequences over prefix-free keys (fixed-length keys, RLP indices) and non-empty values",
  "Tests insert or delete random batches; interleavings with node collapses, inlined nodes, cached hashes and copies are not compared with a model.",
  ["mpt_trie/src/trie_ops.rs","mpt_trie/src/partial_trie.rs","mpt_trie/src/trie_hashing.rs","mpt_trie/src/special_query.rs","mpt_trie/src/debug_tools"],
  [("insert/delete/get","mpt_trie/src/trie_ops.rs"),("hashing","mpt_trie/src/trie_hashing.rs")])
p("C13","Partial tries behave as the full trie they stand for",
  "A partial trie made from a full one by keeping some keys, or built from Merkle proofs, has the full trie's root, answers lookups of kept keys as the full trie does, hides exactly what no kept key traverses, and can be narrowed again. Any later update either gives the full trie's result and root or is refused with an error leaving the trie unchanged; updates of kept keys are refused only when a deletion would orphan a hashed-out sibling.",
  ["histories","inputs"],"all maps, kept key sets, proofs and update sequences",
  "Tests check hashes of subsets of random tries, not updates on them nor proofs with inlined nodes.",
  ["mpt_trie/src/trie_subsets.rs","mpt_trie/src/builder.rs","mpt_trie/src/trie_ops.rs"],
  [("subset creation","mpt_trie/src/trie_subsets.rs"),("proof builder","mpt_trie/src/builder.rs"),("collapse rules","mpt_trie/src/trie_ops.rs")])
p("C14","Nibble sequences obey sequence algebra and encodings",
  "A nibble sequence of up to 64 nibbles behaves as a plain sequence under pushing, popping, slicing, truncating, splitting, merging, reversing and comparing, including leading zeros and the empty sequence. Conversions to and from bytes, integers, hashes, hex strings, serialized form and hex-prefix encoding are exact inverses, and malformed encodings are refused with an error.",
  ["inputs","histories"],"all nibble sequences and operation sequences",
  "Unit tests use a few literals per method.",
  ["mpt_trie/src/nibbles.rs"],[("packed representation","mpt_trie/src/nibbles.rs")])
p("C15","Sparse Merkle tree is an exact map with a canonical root",
  "Any sequence of sets, deletes and reads on the sparse Merkle tree keeps it equal to a map (absent or zeroed keys read as zero), and the root depends only on that map and equals the reference construction. Serializing, with any keys pruned away, preserves the root and the values of kept keys, and trees rebuilt with hashed-out subtrees give the same roots under the same updates.",
  ["histories","inputs"],"all operation sequences, related keys, and pruned key sets",
  "Tests check a few fixed roots and random batches without a reference model.",
  ["smt_trie/src/smt.rs","smt_trie/src/bits.rs","smt_trie/src/utils.rs"],[("set/delete/get","smt_trie/src/smt.rs"),("serialization","smt_trie/src/smt.rs")])
p("C16","Block traces decode to correctly chained prover inputs",
  "For every executed block trace and any requested batch size, decoding yields prover inputs that together contain every transaction once and in order, chain exactly (tries, transaction and receipt roots, gas and transaction counts of each batch start where the previous ended), start at the block's pre-state root, end at its post-state with withdrawals applied, and contain all state and code each batch needs so that the kernel accepts every batch.",
  ["inputs","configurations"],"all blocks, state changes and batch sizes",
  "The decoder tests replay a few recorded blocks at one batch size.",
  ["trace_decoder/src/core.rs","trace_decoder/src/interface.rs","evm_arithmetization/src/world.rs","evm_arithmetization/src/tries.rs"],
  [("batching and trie updates","trace_decoder/src/core.rs")],["list of generation inputs; kernel acceptance of each"])
p("C17","Witness parsing is exact or fails cleanly",
  "Decoding the compact wire form of a state witness reconstructs exactly the tries, codes and root that were encoded, for the MPT and the SMT form. Truncated, corrupted or trailing input is reported as an error or decodes to a well-formed witness; it never panics, hangs or is accepted as the original.",
  ["inputs"],"all encodable witnesses and all byte strings",
  "Tests parse a few recorded witnesses and CBOR values.",
  ["trace_decoder/src/wire.rs","trace_decoder/src/type1.rs","trace_decoder/src/type2.rs"],
  [("instruction parser","trace_decoder/src/wire.rs"),("stack machine to tries","trace_decoder/src/type1.rs")],hook="access to the wire, type1 and type2 frontends")
p("C18","The kernel assembler and its optimizer preserve meaning",
  "Assembling any kernel program yields the byte code its source denotes - labels, macros, repetitions, constants, push widths and stack rearrangements included - and the optimizer never changes what a program computes. A stack rearrangement has exactly the declared effect on the declared items and leaves everything below untouched.",
  ["programs","inputs"],"all programs of the assembly language and all stack rearrangements",
  "Tests assemble a few snippets and rearrangements.",
  ["evm_arithmetization/src/cpu/kernel/assembler.rs","evm_arithmetization/src/cpu/kernel/optimizer.rs","evm_arithmetization/src/cpu/kernel/stack","evm_arithmetization/src/cpu/kernel/parser.rs","evm_arithmetization/src/cpu/kernel/utils.rs"],
  [("assembler","evm_arithmetization/src/cpu/kernel/assembler.rs"),("peephole optimizer","evm_arithmetization/src/cpu/kernel/optimizer.rs")],hook="access to the optimizer")
p("C19","Field tower and pairing arithmetic laws",
  "The extension-field towers over the BN254 and BLS12-381 base fields are fields (ring laws, inverses, Frobenius as p-th power, conversion to and from stack words), their curve groups satisfy the group laws, and the pairings are bilinear and non-degenerate.",
  ["inputs"],"all field elements and curve points",
  "Tests check a few identities on a few random elements.",
  ["evm_arithmetization/src/extension_tower.rs","evm_arithmetization/src/curve_pairings.rs"],
  [("tower arithmetic","evm_arithmetization/src/extension_tower.rs"),("pairings","evm_arithmetization/src/curve_pairings.rs")])
p("C20","Jump destinations are exactly the valid ones",
  "For every bytecode, jumping (unconditionally, or conditionally with a non-zero condition) succeeds exactly when the target is a JUMPDEST byte that is not inside push data, for any code shape including push data at the end of code and targets beyond the code or beyond 64 bits; otherwise the frame halts exceptionally.",
  ["programs","inputs"],"all bytecodes and jump targets",
  "The analysis is tested on a few hand-written codes.",
  [K+"core/jumpdest_analysis.asm","evm_arithmetization/src/generation/prover_input.rs","evm_arithmetization/src/generation/state.rs","evm_arithmetization/src/cpu/kernel/interpreter.rs"],
  [("jump destination proofs",K+"core/jumpdest_analysis.asm")],["success of the jumping frame"])
p("C21","Public values survive every representation",
  "Public values, and the roots, metadata, block hashes, extra data, registers and memory caps inside them, are recovered exactly from their flat field-element form, from their JSON form and from the in-circuit form; two different public values never share a representation, and the prover, the verifier and the recursive verifier absorb the same sequence.",
  ["inputs"],"all public values",
  "Only fixed public values of the test blocks pass through these conversions.",
  ["evm_arithmetization/src/proof.rs","evm_arithmetization/src/get_challenges.rs","evm_arithmetization/src/recursive_verifier.rs","evm_arithmetization/src/util.rs"],
  [("from_public_inputs","evm_arithmetization/src/proof.rs"),("challenge observation","evm_arithmetization/src/get_challenges.rs")],hook="access to the challenger observation and in-circuit setters")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
