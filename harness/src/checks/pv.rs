//! C21: public values survive every representation.
use std::sync::OnceLock;

use ethereum_types::{H256, U256};
use evm_arithmetization::fixed_recursive_verifier::RecursionConfig;
use evm_arithmetization::proof::*;
use evm_arithmetization::recursive_verifier::{
    set_final_public_value_targets, set_public_value_targets,
};
use evm_arithmetization::verif_hooks::*;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::PoseidonHash;
use plonky2::iop::challenger::{Challenger, RecursiveChallenger};
use plonky2::iop::generator::generate_partial_witness;
use plonky2::iop::target::Target;
use plonky2::iop::witness::{PartialWitness, Witness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitData;
use plonky2::plonk::config::{Hasher, PoseidonGoldilocksConfig};
use plonky2::util::serialization::{Buffer, Read};
use starky::lookup::GrandProductChallenge;

use super::pubvals::*;
use crate::fw::*;
use crate::{ensure_eq_prop, ensure_prop};

type C = PoseidonGoldilocksConfig;
type Final = FinalPublicValues<F, PoseidonHash>;
type Builder = CircuitBuilder<F, 2>;

/// The same element, if possible not as its canonical number.
fn other_number(x: F) -> F {
    let n = x.to_canonical_u64();
    match n < u64::MAX - P {
        true => F::from_noncanonical_u64(n + P),
        false => x,
    }
}

fn flat_final(x: &Final) -> Vec<F> {
    let h = |x: &H256| -> Vec<F> {
        (0..8)
            .map(|i| {
                let k = 28 - 4 * i;
                F::from_canonical_u32(u32::from_be_bytes(x.0[k..k + 4].try_into().unwrap()))
            })
            .collect()
    };
    [
        vec![F::from_canonical_u64(x.chain_id.as_u64())],
        h(&x.checkpoint_state_trie_root),
        h(&x.new_state_trie_root),
        x.checkpoint_consolidated_hash.to_vec(),
        x.new_consolidated_hash.to_vec(),
    ]
    .concat()
}

/// What the final public values of a block are.
fn final_of(x: &Pv) -> Final {
    let hashes = flat_hashes(&x.block_hashes);
    let mut y = Final::from(x.clone());
    y.chain_id = x.block_metadata.block_chain_id;
    y.checkpoint_state_trie_root = x.trie_roots_before.state_root;
    y.new_state_trie_root = x.trie_roots_after.state_root;
    y.checkpoint_consolidated_hash = x.extra_block_data.checkpoint_consolidated_hash;
    y.new_consolidated_hash = PoseidonHash::hash_no_pad(&hashes[8..]).elements;
    y
}

fn at(v: &[F], from: &str, to: &str) -> Vec<F> {
    v[part(from).start..part(to).end].to_vec()
}

fn recovered(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let x = any(s);
    let v = flat(&x);
    rec.nontrivial(&nums(&v));
    rec.sample(format!("{} elements from {:?}", v.len(), &nums(&v)[..4]));
    let mut tail = v.clone();
    for _ in 0..s.below(100) {
        tail.push(F::from_canonical_u64(element(s)));
    }
    let odd: Vec<F> = v.iter().map(|&y| if s.chance(1, 3) { other_number(y) } else { y }).collect();
    let all_odd: Vec<F> = v.iter().map(|&y| other_number(y)).collect();
    for (how, v) in [("flat", &v), ("followed by others", &tail), ("as other numbers", &odd), ("all as other numbers", &all_odd)] {
        rec.evals += 1;
        let y = guarded(|| Pv::from_public_inputs(v)).or_else(|e| fail("flat: panic", e))?;
        ensure_eq_prop!(y.trie_roots_before, x.trie_roots_before, "flat: roots before", "{how}");
        ensure_eq_prop!(y.trie_roots_after, x.trie_roots_after, "flat: roots after", "{how}");
        ensure_eq_prop!(y.block_metadata, x.block_metadata, "flat: metadata", "{how}");
        ensure_eq_prop!(y.block_hashes, x.block_hashes, "flat: hashes", "{how}");
        ensure_eq_prop!(y.extra_block_data, x.extra_block_data, "flat: extra data", "{how}");
        ensure_eq_prop!(y.registers_before, x.registers_before, "flat: registers before", "{how}");
        ensure_eq_prop!(y.registers_after, x.registers_after, "flat: registers after", "{how}");
        ensure_eq_prop!(y.mem_before, x.mem_before, "flat: memory before", "{how}");
        ensure_eq_prop!(y.mem_after, x.mem_after, "flat: memory after", "{how}");
        ensure_eq_prop!(y, x, "flat: all", "{how}");
        // on their own
        let get = |a, b| at(v, a, b);
        let roots = TrieRoots::from_public_inputs(&get("roots after: state", "roots after: receipts"));
        ensure_eq_prop!(roots, x.trie_roots_after, "part: roots", "{how}");
        let b = BlockMetadata::from_public_inputs(&get("beneficiary", "bloom"));
        ensure_eq_prop!(b, x.block_metadata, "part: metadata", "{how}");
        let b = BlockHashes::from_public_inputs(&get("previous hashes", "current hash"));
        ensure_eq_prop!(b, x.block_hashes, "part: hashes", "{how}");
        let b = ExtraBlockData::from_public_inputs(&get("checkpoint root", "gas after"));
        ensure_eq_prop!(b, x.extra_block_data, "part: extra data", "{how}");
        let b = RegistersData::from_public_inputs(&get("after: pc", "after: gas"));
        ensure_eq_prop!(b, x.registers_after, "part: registers", "{how}");
        let b = MemCap::from_public_inputs(&get("memory before", "memory before"));
        ensure_eq_prop!(b, x.mem_before, "part: memory", "{how}");
    }

    // final public values
    let y = final_of(&x);
    ensure_eq_prop!(Final::from(x.clone()), y, "final: of a block", "");
    let v = flat_final(&y);
    for (how, v) in [
        ("flat", v.clone()),
        ("as other numbers", v.iter().map(|&y| other_number(y)).collect()),
        ("followed by others", [v.clone(), v.clone()].concat()),
    ] {
        rec.evals += 1;
        ensure_eq_prop!(Final::from_public_inputs(&v), y, "final: flat", "{how}");
    }

    // too short
    let n = s.below(v.len());
    rec.evals += 1;
    ensure_prop!(
        guarded(|| Final::from_public_inputs(&v[..n])).is_err(),
        "final: short",
        "accepted {n} elements"
    );
    Ok(())
}

fn json(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let x = any(s);
    let text = serde_json::to_string(&x).expect("JSON");
    rec.nontrivial(&text);
    rec.sample(text[..200].to_string());
    macro_rules! same {
        ($x:expr, $t:ty, $what:literal) => {{
            rec.evals += 1;
            let t = serde_json::to_string(&$x).expect("JSON");
            let y: $t = serde_json::from_str(&t).or_else(|e| fail($what, format!("{e}: {t:.300}")))?;
            ensure_eq_prop!(y, $x, $what, "from text");
            let v = serde_json::to_value(&$x).expect("JSON");
            let y: $t = serde_json::from_value(v).or_else(|e| fail($what, format!("{e}: {t:.300}")))?;
            ensure_eq_prop!(y, $x, $what, "from a value");
        }};
    }
    same!(x, Pv, "JSON: public values");
    same!(x.trie_roots_before, TrieRoots, "JSON: roots");
    same!(x.block_metadata, BlockMetadata, "JSON: metadata");
    same!(x.block_hashes, BlockHashes, "JSON: hashes");
    same!(x.extra_block_data, ExtraBlockData<F>, "JSON: extra data");
    same!(x.registers_after, RegistersData, "JSON: registers");
    same!(x.mem_before, MemCap, "JSON: memory");
    same!(final_of(&x), Final, "JSON: final");
    // another value has another text
    let mut y = x.clone();
    let what = one_change(s, &mut y);
    if y != x {
        rec.evals += 1;
        ensure_prop!(
            serde_json::to_string(&y).unwrap() != text,
            "JSON: shared",
            "a change of {what} is not in the text"
        );
    }
    Ok(())
}

/// Changes one field; returns its name.
fn one_change(s: &mut Src, x: &mut Pv) -> &'static str {
    let mut v = flat(x);
    let p = s.below(PARTS.len());
    let r = part(PARTS[p].0);
    let i = r.start + s.below(r.len());
    v[i] = match PARTS[p].0 {
        "checkpoint hash" | "memory before" | "memory after" => F::from_canonical_u64(element(s)),
        _ => F::from_canonical_u64(v[i].to_canonical_u64() ^ (1 << s.below(32))),
    };
    *x = unflat(&v);
    PARTS[p].0
}
/// The public values of a flat form.
fn unflat(v: &[F]) -> Pv {
    let num = |r: std::ops::Range<usize>| {
        let mut x = U256::zero();
        for &l in v[r].iter().rev() {
            x = (x << 32) + U256::from(l.to_canonical_u64());
        }
        x
    };
    let word = |n: &str| num(part(n));
    let hash = |n: &str| {
        let mut b = [0; 32];
        word(n).to_big_endian(&mut b);
        H256(b)
    };
    let hash_at = |i: usize| {
        let mut b = [0; 32];
        num(i..i + 8).to_big_endian(&mut b);
        H256(b)
    };
    let roots = |w: &str| TrieRoots {
        state_root: hash(&format!("roots {w}: state")),
        transactions_root: hash(&format!("roots {w}: transactions")),
        receipts_root: hash(&format!("roots {w}: receipts")),
    };
    let registers = |w: &str| {
        let get = |n: &str| word(&format!("{w}: {n}"));
        RegistersData {
            program_counter: get("pc"),
            is_kernel: get("kernel"),
            stack_len: get("stack length"),
            stack_top: get("stack top"),
            context: get("context"),
            gas_used: get("gas"),
        }
    };
    let cap = |n: &str| MemCap {
        mem_cap: v[part(n)]
            .chunks(4)
            .map(|c| core::array::from_fn(|i| c[i].to_canonical_u64().into()))
            .collect(),
    };
    let mut address = [0; 32];
    word("beneficiary").to_big_endian(&mut address);
    let bloom = part("bloom").start;
    let before = part("previous hashes").start;
    Pv {
        trie_roots_before: roots("before"),
        trie_roots_after: roots("after"),
        burn_addr: None,
        block_metadata: BlockMetadata {
            block_beneficiary: ethereum_types::Address::from_slice(&address[12..]),
            block_timestamp: word("timestamp"),
            block_number: word("number"),
            block_difficulty: word("difficulty"),
            block_random: hash("random"),
            block_gaslimit: word("gas limit"),
            block_chain_id: word("chain id"),
            block_base_fee: word("base fee"),
            block_gas_used: word("gas used"),
            block_blob_gas_used: word("blob gas used"),
            block_excess_blob_gas: word("excess blob gas"),
            parent_beacon_block_root: hash("beacon root"),
            block_bloom: core::array::from_fn(|i| num(bloom + 8 * i..bloom + 8 * i + 8)),
        },
        block_hashes: BlockHashes {
            prev_hashes: (0..256).map(|i| hash_at(before + 8 * i)).collect(),
            cur_hash: hash("current hash"),
        },
        extra_block_data: ExtraBlockData {
            checkpoint_state_trie_root: hash("checkpoint root"),
            checkpoint_consolidated_hash: core::array::from_fn(|i| v[part("checkpoint hash").start + i]),
            txn_number_before: word("transactions before"),
            txn_number_after: word("transactions after"),
            gas_used_before: word("gas before"),
            gas_used_after: word("gas after"),
        },
        registers_before: registers("before"),
        registers_after: registers("after"),
        mem_before: cap("memory before"),
        mem_after: cap("memory after"),
    }
}

/// A circuit over two public values `a` and `b`, whose targets are its public
/// inputs.
struct Circuit {
    data: CircuitData<F, C, 2>,
    a: PublicValuesTarget,
    b: PublicValuesTarget,
    condition: plonky2::iop::target::BoolTarget,
    selected: Vec<Target>,
    beta: Target,
    gamma: Target,
    sum: Target,
    challenges: Vec<Target>,
    last: FinalPublicValuesTarget,
    last_inputs: Vec<Target>,
}
/// The targets of a public value, in the order they are written in.
fn targets(x: &PublicValuesTarget) -> Vec<Target> {
    let mut bytes = vec![];
    public_values_target_to_buffer(x, &mut bytes).expect("written");
    let mut b = Buffer::new(&bytes);
    let n = part("memory after").end;
    // the caps are preceded by their lengths
    let caps = part("memory before").start;
    let mut v: Vec<Target> = (0..caps).map(|_| b.read_target().expect("a target")).collect();
    for _ in 0..2 {
        let c = b.read_target_merkle_cap().expect("a cap");
        v.extend(c.0.iter().flat_map(|h| h.elements));
    }
    assert_eq!(v.len(), n);
    v
}
fn circuit() -> &'static Circuit {
    static X: OnceLock<Circuit> = OnceLock::new();
    X.get_or_init(|| {
        let config = RecursionConfig::test_config().recursion_circuit_config;
        let mut builder = Builder::new(config);
        let a = add_public_values(&mut builder);
        let b = add_public_values(&mut builder);
        let condition = builder.add_virtual_bool_target_safe();
        let n = part("memory after").end;
        let beta = builder.add_virtual_target();
        let gamma = builder.add_virtual_target();
        let sum = memory_extra_looking_sum_circuit(
            &mut builder,
            &a,
            GrandProductChallenge { beta, gamma },
        );
        let mut challenger = RecursiveChallenger::<F, PoseidonHash, 2>::new(&mut builder);
        observe_public_values_target::<F, C, 2>(&mut challenger, &a);
        let challenges = challenger.get_n_challenges(&mut builder, 6);
        let all_a = targets(&a);
        let all_b = targets(&b);
        let copy = |x: &[Target]| public_values_target_from(x);
        let selected =
            select_public_values(&mut builder, condition, copy(&all_a), copy(&all_b));
        let selected = targets(&selected);
        assert_eq!(selected.len(), n);
        let last_inputs = builder.add_virtual_targets(25);
        let part = |a: usize, n: usize| last_inputs[a..a + n].to_vec();
        let last = FinalPublicValuesTarget {
            chain_id: last_inputs[0],
            checkpoint_state_trie_root: part(1, 8).try_into().unwrap(),
            new_state_trie_root: part(9, 8).try_into().unwrap(),
            checkpoint_consolidated_hash: part(17, 4).try_into().unwrap(),
            new_consolidated_hash: part(21, 4).try_into().unwrap(),
        };
        // so that a value is needed
        for &t in &last_inputs {
            let t = builder.add_const(t, F::ONE);
            builder.register_public_input(t);
        }
        Circuit {
            data: builder.build::<C>(),
            a,
            b,
            condition,
            selected,
            beta,
            gamma,
            sum,
            challenges,
            last,
            last_inputs,
        }
    })
}

fn in_circuit(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let c = circuit();
    let x = any(s);
    let y = match s.below(3) {
        0 => any(s),
        _ => {
            let mut y = x.clone();
            one_change(s, &mut y);
            y
        }
    };
    let condition = s.bool();
    let [beta, gamma] = core::array::from_fn(|_| F::from_canonical_u64((s.u64() % P) | 1 << 40));
    let last = final_of(&y);
    let (fx, fy) = (flat(&x), flat(&y));
    rec.nontrivial(&(nums(&fx), nums(&fy)));
    rec.sample(format!("condition {condition}, from {:?}", &nums(&fx)[..4]));
    rec.label(format!("select {condition}"));
    rec.evals += 1;

    let w = guarded(|| -> Result<_, String> {
        let mut w = PartialWitness::new();
        set_public_value_targets::<F, _, 2>(&mut w, &c.a, &x).map_err(|e| format!("{e:?}"))?;
        set_public_value_targets::<F, _, 2>(&mut w, &c.b, &y).map_err(|e| format!("{e:?}"))?;
        set_final_public_value_targets::<F, PoseidonHash, _, 2>(&mut w, &c.last, &last)
            .map_err(|e| format!("{e:?}"))?;
        w.set_bool_target(c.condition, condition).map_err(|e| e.to_string())?;
        w.set_target(c.beta, beta).map_err(|e| e.to_string())?;
        w.set_target(c.gamma, gamma).map_err(|e| e.to_string())?;
        generate_partial_witness(w, &c.data.prover_only, &c.data.common).map_err(|e| e.to_string())
    });
    let w = match w {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return fail("circuit: refused", e),
        Err(p) => return fail("circuit: panic", p),
    };
    let get = |t: &[Target]| -> Vec<F> { t.iter().map(|&t| w.get_target(t)).collect() };
    let n = fx.len();
    let same = |got: &[F], want: &[F], what: &str| -> Result<(), Fail> {
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            if g != w {
                return fail(
                    format!("circuit: {what}: {}", part_of(i)),
                    format!("element {i} is {g}, not {w}"),
                );
            }
        }
        ensure_eq_prop!(got.len(), want.len(), format!("circuit: {what}"), "length");
        Ok(())
    };
    let inputs = &c.data.prover_only.public_inputs;
    same(&get(&inputs[..n]), &fx, "public inputs")?;
    same(&get(&inputs[n..2 * n]), &fy, "public inputs")?;
    same(&get(&targets(&c.a)), &fx, "written targets")?;
    let chosen = if condition { &fx } else { &fy };
    same(&get(&c.selected), chosen, "selected")?;
    let got = get(&c.last_inputs);
    for (i, (g, w)) in got.iter().zip(flat_final(&last)).enumerate() {
        ensure_eq_prop!(*g, w, "circuit: final", "element {i}");
    }
    // and back
    let values: Vec<F> = get(&inputs[..2 * n]);
    ensure_eq_prop!(Pv::from_public_inputs(&values), x, "circuit: and back", "");

    // what the provers and verifiers absorb
    let absorbed = &fx[..part("gas after").end];
    let mut own = Challenger::<F, PoseidonHash>::new();
    own.observe_elements(absorbed);
    let own = own.get_n_challenges(6);
    let mut native = Challenger::<F, PoseidonHash>::new();
    guarded(|| observe_public_values::<F, C, 2>(&mut native, &x).map_err(|e| format!("{e:?}")))
        .and_then(|x| x)
        .or_else(|e| fail("absorbed: refused", e))?;
    ensure_eq_prop!(native.get_n_challenges(6), own, "absorbed: native", "");
    ensure_eq_prop!(get(&c.challenges), own, "absorbed: circuit", "");

    // what memory is said to hold
    let rows = memory_rows(&x);
    let mut sum = F::ZERO;
    for r in &rows {
        let mut t = F::ZERO;
        for &e in r.iter().rev() {
            t = t * beta + e;
        }
        let Some(i) = (t + gamma).try_inverse() else {
            return Ok(());
        };
        sum += i;
    }
    let native = memory_extra_looking_sum::<F, 2>(&x, GrandProductChallenge { beta, gamma });
    ensure_eq_prop!(native, sum, "memory: native", "beta {beta} gamma {gamma}");
    ensure_eq_prop!(w.get_target(c.sum), sum, "memory: circuit", "beta {beta} gamma {gamma}");
    let sort = |v: Vec<Vec<F>>| {
        let mut v: Vec<Vec<u64>> = v.iter().map(|r| nums(r)).collect();
        v.sort();
        v
    };
    ensure_eq_prop!(
        sort(memory_extra_looking_values::<F, 2>(&x)),
        sort(rows),
        "memory: rows",
        ""
    );
    Ok(())
}

/// What memory holds of public values: segment and offset as the kernel names
/// them, and value; as rows of the memory log.
fn memory_rows(x: &Pv) -> Vec<Vec<F>> {
    let names = evm_constants();
    let v = flat(x);
    let mut rows = vec![];
    let (code, hash) = kernel();
    let mut row = |segment: &str, offset: usize, value: &[F]| {
        let segment = (names[segment] >> 32).as_u64();
        let mut r = vec![F::ZERO, F::ZERO, F::from_canonical_u64(segment), F::from_canonical_usize(offset)];
        r.extend(value);
        r.resize(12, F::ZERO);
        r.push(F::TWO);
        rows.push(r);
    };
    for (name, p) in [
        ("STATE_TRIE_DIGEST_BEFORE", "roots before: state"),
        ("TXN_TRIE_DIGEST_BEFORE", "roots before: transactions"),
        ("RECEIPT_TRIE_DIGEST_BEFORE", "roots before: receipts"),
        ("STATE_TRIE_DIGEST_AFTER", "roots after: state"),
        ("TXN_TRIE_DIGEST_AFTER", "roots after: transactions"),
        ("RECEIPT_TRIE_DIGEST_AFTER", "roots after: receipts"),
        ("BLOCK_BENEFICIARY", "beneficiary"),
        ("BLOCK_TIMESTAMP", "timestamp"),
        ("BLOCK_NUMBER", "number"),
        ("BLOCK_DIFFICULTY", "difficulty"),
        ("BLOCK_RANDOM", "random"),
        ("BLOCK_GAS_LIMIT", "gas limit"),
        ("BLOCK_CHAIN_ID", "chain id"),
        ("BLOCK_BASE_FEE", "base fee"),
        ("BLOCK_BLOB_GAS_USED", "blob gas used"),
        ("BLOCK_EXCESS_BLOB_GAS", "excess blob gas"),
        ("BLOCK_GAS_USED", "gas used"),
        ("BLOCK_GAS_USED_BEFORE", "gas before"),
        ("BLOCK_GAS_USED_AFTER", "gas after"),
        ("BLOCK_CURRENT_HASH", "current hash"),
        ("PARENT_BEACON_BLOCK_ROOT", "beacon root"),
        ("TXN_NUMBER_BEFORE", "transactions before"),
        ("TXN_NUMBER_AFTER", "transactions after"),
    ] {
        let at = names[&format!("GLOBAL_METADATA_{name}")].low_u32() as usize;
        row("SEGMENT_GLOBAL_METADATA", at, &v[part(p)]);
    }
    let at = names["GLOBAL_METADATA_KERNEL_HASH"].low_u32() as usize;
    row("SEGMENT_GLOBAL_METADATA", at, hash);
    let at = names["GLOBAL_METADATA_KERNEL_LEN"].low_u32() as usize;
    row("SEGMENT_GLOBAL_METADATA", at, &[F::from_canonical_usize(*code)]);
    for (i, b) in v[part("bloom")].chunks(8).enumerate() {
        row("SEGMENT_GLOBAL_BLOCK_BLOOM", i, b);
    }
    for (i, b) in v[part("previous hashes")].chunks(8).enumerate() {
        row("SEGMENT_BLOCK_HASHES", i, b);
    }
    for (i, w) in ["before", "after"].iter().enumerate() {
        for (j, n) in ["pc", "kernel", "stack length", "stack top", "context", "gas"].iter().enumerate() {
            row("SEGMENT_REGISTERS_STATES", 6 * i + j, &v[part(&format!("{w}: {n}"))]);
        }
    }
    rows
}
/// Length and hash of the kernel's code.
fn kernel() -> &'static (usize, Vec<F>) {
    static X: OnceLock<(usize, Vec<F>)> = OnceLock::new();
    X.get_or_init(|| {
        let code = kernel_code_fresh().0;
        let h = keccak_hash::keccak(&code);
        let limbs = (0..8)
            .map(|i| {
                let k = 28 - 4 * i;
                F::from_canonical_u32(u32::from_be_bytes(h.0[k..k + 4].try_into().unwrap()))
            })
            .collect();
        (code.len(), limbs)
    })
}

/// Values that do not fit are refused by everything that would cut them.
fn too_large(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let c = circuit();
    let mut x = any(s);
    let big = |bits: usize, s: &mut Src| match s.below(4) {
        0 => U256::one() << bits,
        1 => (s.rand_u256() >> 1) | (U256::one() << 255),
        2 => (U256::one() << (bits + s.below(256 - bits))) + U256::from(s.below(1000)),
        _ => (U256::one() << 64) + (U256::from(s.u64()) & 0xffff_ffffu64.into()),
    };
    let small = big(32, s);
    let long = big(64, s);
    let b = &mut x.block_metadata;
    let e = &mut x.extra_block_data;
    // a field; whether it is absorbed
    let k = s.below(23);
    let (name, absorbed): (&str, bool) = match k {
        0 => { b.block_timestamp = small; ("timestamp", true) }
        1 => { b.block_number = small; ("number", true) }
        2 => { b.block_difficulty = small; ("difficulty", true) }
        3 => { b.block_gaslimit = small; ("gas limit", true) }
        4 => { b.block_chain_id = small; ("chain id", true) }
        5 => { b.block_gas_used = small; ("gas used", true) }
        6 => { b.block_base_fee = long; ("base fee", true) }
        7 => { b.block_blob_gas_used = long; ("blob gas used", true) }
        8 => { b.block_excess_blob_gas = long; ("excess blob gas", true) }
        9 => { e.txn_number_before = small; ("transactions before", true) }
        10 => { e.txn_number_after = small; ("transactions after", true) }
        11 => { e.gas_used_before = small; ("gas before", true) }
        12 => { e.gas_used_after = small; ("gas after", true) }
        13 | 14 => {
            x.mem_before.mem_cap[s.below(16)][s.below(4)] = long;
            ("memory before", false)
        }
        15..=19 => {
            let r = if s.bool() { &mut x.registers_before } else { &mut x.registers_after };
            *[
                &mut r.program_counter,
                &mut r.is_kernel,
                &mut r.stack_len,
                &mut r.context,
                &mut r.gas_used,
            ][k - 15] = small;
            (["pc", "kernel", "stack length", "context", "gas"][k - 15], false)
        }
        _ => {
            // final public values
            let mut y = final_of(&x);
            y.chain_id = small;
            rec.nontrivial(&small);
            rec.evals += 1;
            let r = guarded(|| {
                let mut w = PartialWitness::new();
                set_final_public_value_targets::<F, PoseidonHash, _, 2>(&mut w, &c.last, &y).is_ok()
            });
            ensure_prop!(r != Ok(true), "too large: final chain id", "{small:#x} is set");
            return Ok(());
        }
    };
    rec.label(name);
    rec.sample(format!("{name}: {:#x}", if k == 6 { long } else { small }));
    rec.nontrivial(&(name, small, long));
    rec.evals += 1;
    let r = guarded(|| {
        let mut w = PartialWitness::new();
        set_public_value_targets::<F, _, 2>(&mut w, &c.a, &x).is_ok()
    });
    ensure_prop!(r != Ok(true), format!("too large: {name} set"), "{small:#x} or {long:#x}");
    if absorbed {
        let r = guarded(|| {
            let mut n = Challenger::<F, PoseidonHash>::new();
            observe_public_values::<F, C, 2>(&mut n, &x).is_ok()
        });
        ensure_prop!(r != Ok(true), format!("too large: {name} absorbed"), "{small:#x} or {long:#x}");
    }
    Ok(())
}

/// Targets: size, and writing and reading them.
fn targets_kept(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let n = part("memory after").end;
    ensure_eq_prop!(public_values_target_size(), n, "targets: size", "");
    let start = s.below(1 << 20);
    let step = 1 + s.below(5);
    let all: Vec<Target> = (0..n + s.below(50))
        .map(|i| Target::VirtualTarget { index: start + i * step })
        .collect();
    rec.nontrivial(&(start, step));
    rec.sample(format!("from {start} by {step}"));
    rec.evals += 1;
    let x = public_values_target_from(&all);
    ensure_eq_prop!(targets(&x), all[..n].to_vec(), "targets: from inputs", "");
    let mut bytes = vec![];
    public_values_target_to_buffer(&x, &mut bytes).expect("written");
    let mut b = Buffer::new(&bytes);
    let y = public_values_target_from_buffer(&mut b).or_else(|e| fail("targets: read", format!("{e:?}")))?;
    ensure_eq_prop!(y, x, "targets: written and read", "");
    ensure_eq_prop!(b.unread_bytes(), Vec::<u8>::new(), "targets: rest", "");
    let short = s.below(n);
    ensure_prop!(
        guarded(|| public_values_target_from(&all[..short])).is_err(),
        "targets: short",
        "accepted {short} inputs"
    );
    ensure_prop!(
        guarded(|| Pv::from_public_inputs(&vec![F::ONE; short])).is_err(),
        "targets: short values",
        "accepted {short} values"
    );
    Ok(())
}

pub fn c21() -> Check {
    circuit();
    Check {
        property: "C21",
        level: "exploration",
        assumptions: vec![],
        facets: vec![
            Facet::new("recovered", "public values distinct from those of other cases", 300, 20000, 600, recovered),
            Facet::new("json", "public values distinct from those of other cases", 300, 20000, 600, json),
            Facet::new("in_circuit", "two public values, most often different in one field only", 100, 4000, 900, in_circuit),
            Facet::new("too_large", "a field with a value that does not fit", 400, 8000, 600, too_large),
            Facet::new("targets", "a distinct numbering of the targets", 50, 1000, 20, targets_kept),
        ],
    }
}
