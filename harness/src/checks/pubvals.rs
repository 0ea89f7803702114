//! Public values: generation and their flat form, used by C10 and C21.
use ethereum_types::{Address, H256, U256};
use evm_arithmetization::proof::*;
use plonky2::field::types::{Field, PrimeField64};

use crate::fw::*;

pub type F = plonky2::field::goldilocks_field::GoldilocksField;
pub type Pv = PublicValues<F>;

/// The order of the field.
pub const P: u64 = 0xffff_ffff_0000_0001;

fn small(s: &mut Src) -> U256 {
    match s.below(6) {
        0 => 0u64.into(),
        1 => (u32::MAX as u64).into(),
        2 => s.below(300).into(),
        _ => (s.u64() & 0xffff_ffff).into(),
    }
}
fn long(s: &mut Src) -> U256 {
    match s.below(6) {
        0 => 0u64.into(),
        1 => u64::MAX.into(),
        2 => (s.u64() & 0xffff_ffff).into(),
        3 => (s.u64() << 32).into(),
        _ => s.u64().into(),
    }
}
fn word(s: &mut Src) -> U256 {
    match s.below(8) {
        0 => U256::zero(),
        1 => U256::MAX,
        _ => s.rand_u256(),
    }
}
fn hash(s: &mut Src) -> H256 {
    let mut b = [0; 32];
    word(s).to_big_endian(&mut b);
    H256(b)
}
/// A field element, as a canonical number.
pub fn element(s: &mut Src) -> u64 {
    match s.below(8) {
        0 => 0,
        1 => P - 1,
        2 => s.below(1 << 20) as u64,
        _ => s.u64() % P,
    }
}

pub fn roots(s: &mut Src) -> TrieRoots {
    TrieRoots {
        state_root: hash(s),
        transactions_root: hash(s),
        receipts_root: hash(s),
    }
}
pub fn metadata(s: &mut Src) -> BlockMetadata {
    let b: Vec<u8> = hash(s).0[..20].to_vec();
    BlockMetadata {
        block_beneficiary: Address::from_slice(&b),
        block_timestamp: small(s),
        block_number: small(s),
        block_difficulty: small(s),
        block_random: hash(s),
        block_gaslimit: small(s),
        block_chain_id: small(s),
        block_base_fee: long(s),
        block_gas_used: small(s),
        block_blob_gas_used: long(s),
        block_excess_blob_gas: long(s),
        parent_beacon_block_root: hash(s),
        block_bloom: core::array::from_fn(|_| word(s)),
    }
}
pub fn hashes(s: &mut Src) -> BlockHashes {
    // one choice decides all of the hashes, so that a case stays small
    let mut x = s.rand_u256();
    let mut next = || {
        x = x
            .overflowing_mul(U256::from(6364136223846793005u64))
            .0
            .overflowing_add(U256::MAX >> 3)
            .0;
        let mut b = [0; 32];
        x.to_big_endian(&mut b);
        H256(b)
    };
    BlockHashes {
        prev_hashes: (0..256).map(|_| next()).collect(),
        cur_hash: next(),
    }
}
pub fn extra(s: &mut Src) -> ExtraBlockData<F> {
    ExtraBlockData {
        checkpoint_state_trie_root: hash(s),
        checkpoint_consolidated_hash: core::array::from_fn(|_| F::from_canonical_u64(element(s))),
        txn_number_before: small(s),
        txn_number_after: small(s),
        gas_used_before: small(s),
        gas_used_after: small(s),
    }
}
pub fn registers(s: &mut Src) -> RegistersData {
    RegistersData {
        program_counter: small(s),
        is_kernel: small(s),
        stack_len: small(s),
        stack_top: word(s),
        context: small(s),
        gas_used: small(s),
    }
}
pub fn cap(s: &mut Src) -> MemCap {
    let mut x = s.u64();
    let first = element(s);
    let mut m: Vec<[U256; 4]> = (0..16)
        .map(|_| {
            core::array::from_fn(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x % P).into()
            })
        })
        .collect();
    m[s.below(16) as usize][s.below(4) as usize] = first.into();
    MemCap { mem_cap: m }
}
pub fn any(s: &mut Src) -> Pv {
    PublicValues {
        trie_roots_before: roots(s),
        trie_roots_after: roots(s),
        burn_addr: None,
        block_metadata: metadata(s),
        block_hashes: hashes(s),
        extra_block_data: extra(s),
        registers_before: registers(s),
        registers_after: registers(s),
        mem_before: cap(s),
        mem_after: cap(s),
    }
}

// ---- flat form: 32-bit limbs, least significant first ----

fn f(x: u64) -> F {
    F::from_canonical_u64(x)
}
fn limbs(x: U256, n: usize) -> Vec<F> {
    (0..n)
        .map(|i| f(((x >> (32 * i)) & 0xffff_ffffu64.into()).as_u64()))
        .collect()
}
fn h(x: &H256) -> Vec<F> {
    limbs(U256::from_big_endian(&x.0), 8)
}

pub fn flat_roots(x: &TrieRoots) -> Vec<F> {
    [h(&x.state_root), h(&x.transactions_root), h(&x.receipts_root)].concat()
}
pub fn flat_metadata(x: &BlockMetadata) -> Vec<F> {
    let mut v = limbs(U256::from_big_endian(&x.block_beneficiary.0), 5);
    v.extend(limbs(x.block_timestamp, 1));
    v.extend(limbs(x.block_number, 1));
    v.extend(limbs(x.block_difficulty, 1));
    v.extend(h(&x.block_random));
    v.extend(limbs(x.block_gaslimit, 1));
    v.extend(limbs(x.block_chain_id, 1));
    v.extend(limbs(x.block_base_fee, 2));
    v.extend(limbs(x.block_gas_used, 1));
    v.extend(limbs(x.block_blob_gas_used, 2));
    v.extend(limbs(x.block_excess_blob_gas, 2));
    v.extend(h(&x.parent_beacon_block_root));
    for b in x.block_bloom {
        v.extend(limbs(b, 8));
    }
    v
}
pub fn flat_hashes(x: &BlockHashes) -> Vec<F> {
    let mut v = vec![];
    for p in &x.prev_hashes {
        v.extend(h(p));
    }
    v.extend(h(&x.cur_hash));
    v
}
pub fn flat_extra(x: &ExtraBlockData<F>) -> Vec<F> {
    let mut v = h(&x.checkpoint_state_trie_root);
    v.extend(x.checkpoint_consolidated_hash);
    for y in [
        x.txn_number_before,
        x.txn_number_after,
        x.gas_used_before,
        x.gas_used_after,
    ] {
        v.extend(limbs(y, 1));
    }
    v
}
pub fn flat_registers(x: &RegistersData) -> Vec<F> {
    let mut v = limbs(x.program_counter, 1);
    v.extend(limbs(x.is_kernel, 1));
    v.extend(limbs(x.stack_len, 1));
    v.extend(limbs(x.stack_top, 8));
    v.extend(limbs(x.context, 1));
    v.extend(limbs(x.gas_used, 1));
    v
}
pub fn flat_cap(x: &MemCap) -> Vec<F> {
    x.mem_cap
        .iter()
        .flat_map(|y| y.map(|z| f(z.as_u64())))
        .collect()
}
pub fn flat(x: &Pv) -> Vec<F> {
    [
        flat_roots(&x.trie_roots_before),
        flat_roots(&x.trie_roots_after),
        flat_metadata(&x.block_metadata),
        flat_hashes(&x.block_hashes),
        flat_extra(&x.extra_block_data),
        flat_registers(&x.registers_before),
        flat_registers(&x.registers_after),
        flat_cap(&x.mem_before),
        flat_cap(&x.mem_after),
    ]
    .concat()
}

/// The parts of the flat form: name, number of elements.
pub const PARTS: [(&str, usize); 41] = [
    ("roots before: state", 8),
    ("roots before: transactions", 8),
    ("roots before: receipts", 8),
    ("roots after: state", 8),
    ("roots after: transactions", 8),
    ("roots after: receipts", 8),
    ("beneficiary", 5),
    ("timestamp", 1),
    ("number", 1),
    ("difficulty", 1),
    ("random", 8),
    ("gas limit", 1),
    ("chain id", 1),
    ("base fee", 2),
    ("gas used", 1),
    ("blob gas used", 2),
    ("excess blob gas", 2),
    ("beacon root", 8),
    ("bloom", 64),
    ("previous hashes", 2048),
    ("current hash", 8),
    ("checkpoint root", 8),
    ("checkpoint hash", 4),
    ("transactions before", 1),
    ("transactions after", 1),
    ("gas before", 1),
    ("gas after", 1),
    ("before: pc", 1),
    ("before: kernel", 1),
    ("before: stack length", 1),
    ("before: stack top", 8),
    ("before: context", 1),
    ("before: gas", 1),
    ("after: pc", 1),
    ("after: kernel", 1),
    ("after: stack length", 1),
    ("after: stack top", 8),
    ("after: context", 1),
    ("after: gas", 1),
    ("memory before", 64),
    ("memory after", 64),
];

/// Where a part is.
pub fn part(name: &str) -> std::ops::Range<usize> {
    let mut at = 0;
    for (n, k) in PARTS {
        if n == name {
            return at..at + k;
        }
        at += k;
    }
    panic!("no part {name}")
}

/// The name of the part with an index.
pub fn part_of(i: usize) -> &'static str {
    let mut at = 0;
    for (n, k) in PARTS {
        at += k;
        if i < at {
            return n;
        }
    }
    "beyond"
}

pub fn nums(x: &[F]) -> Vec<u64> {
    x.iter().map(|y| y.to_canonical_u64()).collect()
}
