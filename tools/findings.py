#!/usr/bin/env python3
"""Writes known_findings.json."""
import json
F=[
("C12","fixed","6dac6bd","MPT get returned a leaf's value for a key that only shares its prefix, and panicked on keys ending inside an extension"),
("C13","fixed","288b530","an unsafe collapse (a hashed-out sibling that would have to be merged with another extension) panicked with a key overflow instead of being refused with an error"),
("C13","fixed","7c61db4","a second subset of the same trie reused the first one's tracked root and lost nodes"),
("C15","fixed","c28e451","reading an absent SMT key whose path ends in an empty node hit unreachable!()"),
("C15","fixed","036f41a","SMT keys that differ only in their last bit overflowed a shift when inserted"),
("C13","fixed","a187822","building a partial trie from Merkle proofs failed when a proof contains nodes inlined in their parent (shorter than 32 bytes)"),
("C01","fixed","ce51c9b","reading a segment position that was never written grew the interpreter's memory, so simulated and traced execution could differ or exhaust memory"),
("C02","fixed","b92529c",'TLOAD/TSTORE searched transient storage by words instead of entries and could match an address with a key or value'),
("C02","fixed","5362ee2",'a CREATE/CREATE2 colliding with an existing contract marked that contract as created in this transaction, so a later SELFDESTRUCT deleted it'),
("C02","fixed","173571a",'a CREATE deploying empty code was rejected if a stale byte of return data was 0xEF'),
("C02","fixed","60d3f5a","a CREATE rejected for its code (0xEF, too large, code deposit gas) left the child's return data readable"),
("C02","fixed","f6e6f0f",'a reverted SELFDESTRUCT of a zero-balance contract with a nonexistent recipient was not undone'),
("C02","fixed","b186c99",'slots of a deleted account stayed in the storage list pointers, panicking or resurrecting storage'),
("C20","fixed","e745460",'a jump into push data more than 32 bytes into the code made honest proving panic (invalid non-jumpdest proof)'),
("C20","fixed","a4c8d7e",'init code longer than MAX_CODE_SIZE (up to twice that is valid) could not jump beyond the deployed-size limit'),
("C03","fixed","051dfff",'a CALL with too little gas for its own cost and a huge requested gas overflowed the charged gas and went on'),
("C04","fixed","1ff4158",'point evaluation accepted z or y equal to the modulus'),
("C04","fixed","5890061",'point evaluation accepted inputs that are not 192 bytes long'),
("C04","fixed","3bf4020",'MODEXP with a huge base length read the exponent head out of another segment'),
("C04","fixed","e0d82ff",'a transaction sent straight to a precompile that fails reverted to checkpoint -1 and aborted the prover'),
("C04","fixed","ba4247d",'MODEXP gas of 2^64 and more wrapped around in charge_gas, so an operand of 2^92 bytes cost almost nothing (and execution did not end)'),
("C19","fixed","4c670b2","a serialized G1 point with x equal to the modulus was decoded as x = 0"),
("C04","fixed","38384c4","point evaluation accepted commitments and proofs outside of the prime order subgroup (a valid one plus a point of order 3)"),
("C19","fixed","702b532","of the two elements next to p / 2, neither was the lexicographically larger one"),
("C05","fixed","455dbba","a transaction whose gas limit exceeds the gas left in the block was executed (only the block gas limit itself was compared)"),
("C05","fixed","d3085e5","the balance check used the effective gas price instead of the fee cap, and gas * fee + value wrapped modulo 2^256"),
("C05","fixed","4ee42af","a blob transaction without recipient was executed as a contract creation"),
("C05","fixed","d554196","max_fee_per_blob_gas was never compared nor counted in the upfront cost, and the blob fee was burned before the validity checks, so an invalid blob transaction still cost its sender"),
("C16","fixed","94d997b","a witness without storage tries for accounts that have no storage panicked (Found a Hash node during insert) when such an account's storage was written"),
("C16","fixed","ed08dc6","the fee of a block beneficiary first touched by a failed transaction was dropped, giving a wrong state root"),
("C16","fixed","cf33b6d","a withdrawal of 0 created an empty account"),
("C13","fixed","5988928","making a subset for a key that ends inside an extension overflowed a subtraction"),
("C17","fixed","d58d3f8","a balance of more than 32 bytes in a witness panicked"),
("C17","fixed","edb54d3","a deeply nested witness overflowed the stack and aborted the process"),
("C18","fixed","cdad77b","a comment between two tokens glued them together (ADD// x NEWLINE MOD assembled as ADDMOD)"),
("C18","fixed","1c6dd4f","the optimizer folded BYTE counting from the wrong end, and panicked folding a shift by 2^64 or more"),
("C18","fixed","5c45902","the code of some stack rearrangements differed from run to run"),
("C18","known","optimizer:de-morgan-dup1","the optimizer rewrites [x NOT DUP1 NOT AND|OR] as [x DUP1 OR|AND NOT], though DUP1 duplicates the negated x there: the result is NOT x instead of 0 or 2^256-1 (a stable test, test_demorgan1, asserts the rewrite)"),
("C10","fixed","146f4e3","aggregation circuits did not check the verifier data claimed by the base proofs they verify (a proof of another circuit could stand in)"),
("C10","fixed","1f5d939","segments of a batch need not agree on blob gas used, excess blob gas and beacon root (a conditional assertion was missing)"),
("C10","fixed","a041000","the checkpoint's consolidated hash was not connected between aggregated proofs"),
("C10","fixed","62b0092","a block proof without a parent could claim any roots before"),
("C10","fixed","f96cf4d","consecutive blocks could have different chain ids"),
("C10","fixed","4312656","the native verifier did not compare the claimed memory caps with those of the proofs of memory before and after"),
("C10","fixed","d523531","the native verifier accepted proofs that list tables not in use"),
("C21","fixed","2292482","public values read back from field elements took non-canonical numbers, or truncated them"),
("C21","fixed","cbda37d","final public values in circuit: some were not set, others truncated"),
("C21","fixed","f7c4f78","PublicValuesTarget::SIZE left out some of the targets"),
("C09","fixed","5a9646f","a range check row of the arithmetic table could stand in for an arithmetic operation, so any result was accepted"),
("C09","fixed","344b68b","memory channels an operation does not use could read or write anything"),
("C09","fixed","50dfe8f","the program counter and the mode after PUSH, jumps and packed memory operations were free"),
("C09","fixed","5a1619e","the condition of JUMPI was not bound to the stack"),
("C09","fixed","4685056","the last word of a segment of memory was not passed on to the next continuation (or could be dropped)"),
("C09","fixed","533d966","GET_CONTEXT need not write the previous top of the stack to memory"),
("C08","fixed","54cb455","MODEXP over a segment boundary panicked when the highest limbs of an operand are zero"),
("C09","known","cpu:kernel-push:operand","the operand of a PUSH in kernel mode is not bound to the code: its byte packing lookup is skipped (documented as skipping range checks, since kernel code is trusted), so a prover can push any value there; a repair needs lookups for every kernel push or a table of the kernel code, which is not small"),
]
out=[]
for x in F:
    if x[1]=="fixed":
        out.append({"property":x[0],"status":"fixed","commit":x[2],"what":f"fixed: property={x[0]} {x[2]} {x[3]}"})
    else:
        out.append({"property":x[0],"status":"known","signature":x[2],"what":x[3]})
json.dump({"findings":out},open('/verif/known_findings.json','w'),indent=1)
