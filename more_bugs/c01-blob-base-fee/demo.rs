#![cfg(feature = "eth_mainnet")]
use evm_arithmetization::generation::GenerationInputs;
use evm_arithmetization::prover::testing::simulate_execution;
use plonky2::field::goldilocks_field::GoldilocksField as F;

#[test]
fn blocks() {
    let mut n = 0;
    for e in std::fs::read_dir(std::env::var("DEMO_DIR").unwrap()).unwrap() {
        let p = e.unwrap().path();
        let name = p.file_name().unwrap().to_str().unwrap().to_string();
        if !name.ends_with(".json") || !(name.starts_with("ok") || name.starts_with("bad")) {
            continue;
        }
        let inp: GenerationInputs<F> = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || simulate_execution::<F>(inp).map_err(|e| format!("{e:#}").chars().take(300).collect::<String>()))
            .unwrap()
            .join();
        let accepted = matches!(r, Ok(Ok(())));
        println!("{name}: accepted {accepted} {r:?}");
        assert_eq!(accepted, name.starts_with("ok"), "{name}");
        n += 1;
    }
    assert!(n > 0);
}
