
#![cfg(feature = "eth_mainnet")]
use evm_arithmetization::generation::{generate_traces, GenerationInputs, SegmentDataIterator, TrimmedGenerationInputs};
use evm_arithmetization::testing_utils::TEST_STARK_CONFIG;
use evm_arithmetization::AllStark;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::util::timing::TimingTree;

#[test]
fn segments() {
    let p = std::path::Path::new(&std::env::var("DEMO_DIR").unwrap()).join("seg.json");
    let inp: GenerationInputs<F> = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    let all = AllStark::<F, 2>::default();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for log in [12usize] {
            let trimmed: TrimmedGenerationInputs<F> = inp.trim();
            let mut n = 0;
            for s in SegmentDataIterator::<F>::new(&inp, Some(log)) {
                let (_, mut data) = s.unwrap();
                generate_traces(&all, &trimmed, &TEST_STARK_CONFIG, &mut data, &mut TimingTree::default())
                    .unwrap_or_else(|e| panic!("segment {n}: {e:#}"));
                n += 1;
            }
            println!("{n} segments");
        }
    }).unwrap().join().unwrap();
}
