
use evm_arithmetization::cpu::kernel::assemble_to_bytes;
#[test]
fn demo() {
    let a = assemble_to_bytes(&["PUSH 7 PUSH 1 %%l JUMPI STOP".replace("%%l", "PUSH l") + " l: JUMPDEST"]);
    let b = assemble_to_bytes(&["PUSH 7 PUSH 1 PUSH l JUMPI l: JUMPDEST".into()]);
    assert!(a.contains(&0x57));
    // the condition has to be consumed: by the jump, or by a POP
    assert!(b.contains(&0x57) || b.contains(&0x50), "{b:?}");
}
