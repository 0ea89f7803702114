//! C07: continuation segments.
use ethereum_types::U256;
use evm_arithmetization::generation::{generate_traces, GenerationInputs};
use evm_arithmetization::proof::PublicValues;
use evm_arithmetization::verif_hooks::{kernel_labels, segment_registers};
use evm_arithmetization::{AllStark, SegmentDataIterator, StarkConfig};
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;

use crate::evmgen::engine::{self, describe};
use crate::evmgen::{blocks, mix};
use crate::fw::{fail, guarded, CaseResult, Check, Facet, Rec, Src};
use crate::refevm::block::{self, Witness, F};

pub const MEM_BEFORE: usize = 7;
pub const MEM_AFTER: usize = 8;
pub const CPU: usize = 2;

pub fn all_stark() -> &'static AllStark<F, 2> {
    static S: std::sync::OnceLock<AllStark<F, 2>> = std::sync::OnceLock::new();
    S.get_or_init(AllStark::default)
}

pub fn made(s: &mut Src, rec: &mut Rec, limit: u64) -> Option<(block::Block, block::BlockOut, GenerationInputs<F>, String, (usize, usize))> {
    let Some((b, o, kind)) = mix::block(s, limit) else {
        rec.label("skip");
        return None;
    };
    let (from, to) = mix::range(s, &b);
    let wit = if s.bool() { Witness::Pruned } else { Witness::Full };
    let inp = block::inputs(&b, &o, from, to, wit);
    rec.label(kind);
    let d = format!("{kind} {from}..{to} {wit:?}\n    {}", describe(&b));
    Some((b, o, inp, d, (from, to)))
}

/// The registers at the ends of all segments, or why there is no such run.
pub fn chain(inp: &GenerationInputs<F>, log: usize, max: usize) -> Result<Vec<([U256; 6], [U256; 6])>, String> {
    let mut v = vec![];
    let r = guarded(|| {
        for x in SegmentDataIterator::<F>::new(inp, Some(log)) {
            match x {
                Ok((_, d)) => v.push(segment_registers(&d)),
                Err(e) => return Err(format!("{}", e.inner).lines().next().unwrap_or("").chars().take(400).collect()),
            }
            if v.len() > max {
                return Err("too many segments".into());
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(v),
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn c07_registers(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let log = s.weighted(&[0, 0, 0, 0, 0, 0, 0, 0, 3, 4, 4, 4, 4, 4, 3, 3, 2, 1]);
    let Some((b, o, inp, d, (from, to))) = made(s, rec, [600, 1500, 4000, 6000][(log - 8).min(3)]) else { return Ok(()) };
    rec.evals += 1;
    let whole = engine::kernel(&inp);
    match chain(&inp, log, 4000) {
        Err(e) if e == "too many segments" => {
            rec.label("skip: too many segments");
            return Ok(());
        }
        Err(e) => {
            return fail(
                format!("segments-refused:{}", whole.is_ok()),
                format!("2^{log}: {e}; unsegmented run {whole:?}\n    {d}"),
            )
        }
        Ok(v) => {
            if let Err(w) = whole {
                return fail("accepted-in-segments", format!("2^{log}: accepted, but the unsegmented run says {w}\n    {d}"));
            }
            let init = [U256::from(kernel_labels()["main"]), 1.into(), 0.into(), 0.into(), 0.into(), 0.into()];
            if v[0].0 != init {
                return fail("first-registers", format!("2^{log}: {:?}\n    {d}", v[0].0));
            }
            for i in 1..v.len() {
                if v[i].0 != v[i - 1].1 {
                    return fail("register-chain", format!("2^{log}: segment {i} of {} starts with {:?} after {:?}\n    {d}", v.len(), v[i].0, v[i - 1].1));
                }
                if v[i - 1].1[0] == U256::from(kernel_labels()["halt"]) && v[i - 1].1[1]== 1.into() {
                    return fail("early-halt", format!("2^{log}: segment {} of {} halts\n    {d}", i - 1, v.len()));
                }
            }
            let end = v.last().unwrap().1;
            if end[0] != U256::from(kernel_labels()["halt"]) || end[1] != 1.into() {
                return fail("last-registers", format!("2^{log}: ends with {end:?}\n    {d}"));
            }
            rec.evals += v.len() as u64;
            rec.label(format!("2^{log}"));
            rec.label(match v.len() {
                1 => "1 segment",
                2..=9 => "2-9 segments",
                10..=99 => "10-99 segments",
                _ => "100+ segments",
            });
            for x in &v[..v.len() - 1] {
                rec.label(if x.1[1] == U256::one() { "cut in the kernel" } else { "cut in a program" });
            }
            if v.len() > 1 {
                rec.nontrivial(&(log, inp.trie_roots_after.state_root, inp.trie_roots_after.receipts_root, v.len()));
            }
        }
    }
    // a wrong claim stays refused
    if let Some((kind, x)) = blocks::lie(s, &b, &o, from, to, &inp) {
        rec.evals += 1;
        match chain(&x, log, 4000) {
            Ok(_) => return fail(format!("lie-accepted:{kind}"), format!("2^{log}: accepted although {kind} is wrong\n    {d}")),
            Err(_) => rec.label(format!("lie: {kind}")),
        }
    }
    rec.sample(format!("2^{log} {d}"));
    Ok(())
}

/// The filtered rows of a memory continuation table: address and value.
fn rows(t: &[PolynomialValues<F>], used: bool) -> Vec<[u64; 11]> {
    if !used {
        return vec![];
    }
    let n = t[0].values.len();
    let mut v: Vec<[u64; 11]> = (0..n)
        .filter(|i| t[0].values[*i] == F::ONE)
        .map(|i| std::array::from_fn(|c| t[c + 1].values[i].to_canonical_u64()))
        .collect();
    v.sort();
    v
}

fn c07_memory(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let log = s.weighted(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 3, 3, 2]);
    let Some((_, _, inp, d, _)) = made(s, rec, 1500) else { return Ok(()) };
    // a window of consecutive segments
    let start = match s.below(3) {
        0 => 0,
        1 => s.below(6),
        _ => s.below(60),
    };
    let n = s.range(2, 4);
    let mut last: Option<(Vec<[u64; 11]>, PublicValues<F>)> = None;
    let config = StarkConfig::standard_fast_config();
    let mut it = SegmentDataIterator::<F>::new(&inp, Some(log)).skip(start);
    let mut i = start;
    while i < start + n {
        let (trimmed, seg) = match guarded(|| it.next()) {
            Ok(None) => break,
            Ok(Some(Ok(x))) => x,
            Ok(Some(Err(e))) => return fail("segments-refused", format!("2^{log}: segment {i}: {}\n    {d}", e.inner)),
            Err(p) => return fail("segments-refused", format!("2^{log}: segment {i}: panic {p}\n    {d}")),
        };
        let mut data = seg.clone();
        rec.evals += 1;
        let t = match guarded(|| generate_traces(all_stark(), &trimmed, &config, &mut data, &mut TimingTree::default())) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return fail("no-trace", format!("2^{log}: segment {i}: {e}\n    {d}")),
            Err(p) => return fail("no-trace", format!("2^{log}: segment {i}: panic {p}\n    {d}")),
        };
        let (rb, ra) = segment_registers(&seg);
        let regs = |r: &evm_arithmetization::proof::RegistersData| [r.program_counter, r.is_kernel, r.stack_len, r.stack_top, r.context, r.gas_used];
        let pv = &t.public_values;
        if regs(&pv.registers_before) != rb || regs(&pv.registers_after) != ra {
            return fail("trace-registers", format!("2^{log}: segment {i}: {:?} {:?} for {rb:?} {ra:?}\n    {d}", pv.registers_before, pv.registers_after));
        }
        if t.tables[CPU][0].values.len() > 1 << log {
            return fail("trace-length", format!("2^{log}: segment {i} has {} cycles\n    {d}", t.tables[CPU][0].values.len()));
        }
        let mut want = PublicValues::<F> {
            trie_roots_before: pv.trie_roots_before.clone(),
            trie_roots_after: inp.trie_roots_after.clone(),
            burn_addr: None,
            block_metadata: inp.block_metadata.clone(),
            block_hashes: inp.block_hashes.clone(),
            extra_block_data: pv.extra_block_data.clone(),
            registers_before: pv.registers_before.clone(),
            registers_after: pv.registers_after.clone(),
            mem_before: pv.mem_before.clone(),
            mem_after: pv.mem_after.clone(),
        };
        use mpt_trie::partial_trie::PartialTrie;
        want.trie_roots_before.state_root = trimmed.trie_roots_before.state_root;
        want.trie_roots_before.transactions_root = inp.tries.transactions_trie.hash();
        want.trie_roots_before.receipts_root = inp.tries.receipts_trie.hash();
        let x = &mut want.extra_block_data;
        x.checkpoint_state_trie_root = inp.checkpoint_state_trie_root;
        x.checkpoint_consolidated_hash = inp.checkpoint_consolidated_hash;
        x.txn_number_before = inp.txn_number_before;
        x.txn_number_after = inp.txn_number_before + inp.signed_txns.len();
        x.gas_used_before = inp.gas_used_before;
        x.gas_used_after = inp.gas_used_after;
        if &want != pv {
            return fail("public-values", format!("2^{log}: segment {i}: {pv:?}\n    claimed {want:?}\n    {d}"));
        }
        let before = rows(&t.tables[MEM_BEFORE], t.table_in_use[MEM_BEFORE]);
        if let Some((after, p)) = &last {
            if *after != before {
                let a: std::collections::BTreeSet<_> = after.iter().collect();
                let c: std::collections::BTreeSet<_> = before.iter().collect();
                let only_a: Vec<_> = a.difference(&c).take(3).collect();
                let only_c: Vec<_> = c.difference(&a).take(3).collect();
                return fail(
                    "memory-chain",
                    format!("2^{log}: segment {i} starts with another memory: before only {only_a:?}, after only {only_c:?} (of {} and {} words)\n    {d}", after.len(), before.len()),
                );
            }
            if p.registers_after != pv.registers_before {
                return fail("register-chain", format!("2^{log}: segment {i}\n    {d}"));
            }
            rec.label("memory passed on");
            rec.nontrivial(&(log, i, before.len(), inp.trie_roots_after.state_root, inp.trie_roots_after.receipts_root));
        }
        let mut k: Vec<_> = before.iter().map(|r| (r[0], r[1], r[2])).collect();
        k.dedup();
        if k.len() != before.len() {
            return fail("memory-twice", format!("2^{log}: segment {i} starts with two values of a word\n    {d}"));
        }
        rec.label(format!("segment {}", match i { 0 => "0", 1..=9 => "1-9", _ => "10+" }));
        last = Some((rows(&t.tables[MEM_AFTER], t.table_in_use[MEM_AFTER]), pv.clone()));
        i += 1;
    }
    rec.label(format!("2^{log}"));
    rec.sample(format!("2^{log} segments {start}..{i} {d}"));
    Ok(())
}

pub fn c07() -> Check {
    Check {
        property: "C07",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet".into()],
        facets: vec![
            Facet::new(
                "registers",
                "random blocks and batches (programs, call chains, precompiles, receipts, withdrawals) run unsegmented and in segments of at most 2^8..2^17 cycles; both accept; registers chain from the initial state to the halt; a wrong claim is refused; non-trivial = more than one segment, distinct by length and roots",
                450,
                12_000,
                1900,
                c07_registers,
            ),
            Facet::new(
                "memory",
                "traces of 2..4 consecutive segments (2^9..2^14 cycles) of such a run: the memory each leaves is the memory the next starts with, registers and public values agree with the run and the claim; non-trivial = a memory passed on, distinct by place and roots",
                260,
                6_000,
                1900,
                c07_memory,
            )
            .shrink(60),
        ],
    }
}
