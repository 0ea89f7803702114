
use evm_arithmetization::generation::mpt::{decode_receipt, LegacyReceiptRlp};
#[test]
fn demo() {
    let r = LegacyReceiptRlp { status: true, cum_gas_used: 21000.into(), bloom: vec![0u8; 256].into(), logs: vec![] };
    for ty in 0..4u8 {
        let (_, t, d) = decode_receipt(&r.encode(ty)).unwrap();
        assert_eq!(t, ty as usize);
        assert!(d.status);
    }
}
