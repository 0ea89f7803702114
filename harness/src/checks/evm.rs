//! C01-C06, C20: the kernel against the reference EVM.
use crate::evmgen::engine::{self, diff, note_stats, Ran};
use crate::evmgen::{blocks, valid, gas, jumps, ops, pre, prog};
use crate::fw::{fail, CaseResult, Check, Facet, Rec, Src};
use crate::refevm::block::{self, Block, Witness};
use crate::refevm::evm::Halt;

fn c01_values(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (b, n) = ops::gen(s, 24);
    if let Ran::Done(o) = diff(&b, Witness::Full, rec)? {
        rec.evals += n as u64;
        note_stats(&o, rec);
        if o.txs[0].receipt.status {
            rec.nontrivial(&o.txs[0].signed.bytes);
            let t = &o.txs[0];
            rec.nontrivial(&(t.receipt.encode(), t.steps));
        }
        rec.sample(engine::describe(&b));
    }
    Ok(())
}

pub fn c01() -> Check {
    Check {
        property: "C01",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet; the kernel runs in the interpreter the prover uses to generate its traces".into()],
        facets: vec![Facet::new(
            "values",
            "programs of 1..24 snippets (arithmetic, memory, hashing, environment, code, calldata, stack dances, jumps, storage, return data) whose results are logged; the kernel accepts the receipt and roots the reference EVM computes; non-trivial = the transaction succeeded, distinct by receipt",
            3500,
            40_000,
            900,
            c01_values,
        )],
    }
}

fn c02_world(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let ntx = s.range(1, 3);
    let b = prog::gen(s, ntx);
    c02_run(b, rec)
}
fn c02_chain(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let b = prog::chain(s);
    c02_run(b, rec)
}
fn c02_run(b: Block, rec: &mut Rec) -> CaseResult {
    if let Ran::Done(o) = diff(&b, Witness::Full, rec)? {
        note_stats(&o, rec);
        let depth = o.txs.iter().map(|t| t.max_depth).max().unwrap_or(0);
        if depth >= 1 {
            rec.nontrivial(&o.txs.iter().map(|t| t.receipt.encode()).collect::<Vec<_>>());
        }
        rec.sample(engine::describe(&b));
    }
    Ok(())
}

pub fn c02() -> Check {
    Check {
        property: "C02",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet; the call depth limit of 1024 is out of reach (gas limits fit 32 bits)".into()],
        facets: vec![Facet::new(
            "worlds",
            "1..3 transactions over four contracts of random behaviours (calls of every kind, CREATE / CREATE2 with collisions, reverts, faults, self-destructs, transient storage, refunds); kernel accepts the reference roots; non-trivial = at least one nested frame, distinct by receipts",
            2800,
            60_000,
            1200,
            c02_world,
        ),
        Facet::new(
            "chains",
            "1..2 transactions through a chain of 2..5 contracts, each calling the next by any kind of call (with or without value, little or much gas) with an effect before and after (storage, transient storage, logs, creation, payment), ending in success, revert, fault or self-destruct; kernel accepts the reference roots; non-trivial = at least one nested frame, distinct by receipts",
            1500,
            40_000,
            300,
            c02_chain,
        )],
    }
}

fn c03_cuts(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let Some((b, kind)) = gas::cuts(s) else { return Ok(()) };
    if let Ran::Done(o) = diff(&b, Witness::Full, rec)? {
        note_stats(&o, rec);
        rec.label(format!("cut: {kind}"));
        let t = o.txs.last().unwrap();
        if matches!(t.halt, Halt::Fault("out of gas")) {
            rec.label("out of gas");
        }
        if t.steps > 0 {
            rec.nontrivial(&(t.signed.bytes.clone(), t.receipt.encode()));
        }
        rec.sample(engine::describe(&b));
    }
    Ok(())
}

fn c03_exact(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let e = gas::exact(s);
    if let Ran::Done(o) = diff(&e.b, Witness::Full, rec)? {
        rec.evals += e.kinds.len() as u64 - 1;
        for k in &e.kinds {
            rec.label(k.clone());
        }
        let t = &o.txs[0];
        if t.receipt.status {
            rec.nontrivial(&(t.receipt.encode(), t.steps, e.kinds.clone()));
        }
        rec.sample(format!("{:?}\n    {}", e.kinds, engine::describe(&e.b)));
    }
    Ok(())
}

pub fn c03() -> Check {
    Check {
        property: "C03",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet; gas limits fit 32 bits".into()],
        facets: vec![
            Facet::new(
                "cuts",
                "a random world of contracts; the last transaction's gas limit is cut at a point of its own execution (no gas left before an operation, one unit short, exactly / one less than used, intrinsic); kernel accepts the reference gas, receipts and roots; non-trivial = some code ran, distinct by transaction and receipt",
                2000,
                30_000,
                1300,
                c03_cuts,
            ),
            Facet::new(
                "exact",
                "1..6 calls of single-operation contracts with the least gas that suffices (found by bisection on the reference), one less, one more; status and remaining gas after each are logged; non-trivial = the transaction succeeded, distinct by receipt",
                3000,
                40_000,
                500,
                c03_exact,
            ),
        ],
    }
}

fn c04_calls(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (b, ids) = pre::gen(s, None);
    c04_run(b, ids, rec)
}
fn c04_eoa(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (b, ids) = pre::gen_eoa(s, None);
    c04_run(b, ids, rec)
}
fn c04_kzg(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (b, ids) = if s.chance(1, 3) { pre::gen_eoa(s, Some(10)) } else { pre::gen(s, Some(10)) };
    c04_run(b, ids, rec)
}
fn c04_run(b: crate::refevm::block::Block, ids: Vec<u64>, rec: &mut Rec) -> CaseResult {
    if let Ran::Done(o) = diff(&b, Witness::Full, rec)? {
        for i in &ids {
            rec.label(format!("precompile {i}"));
        }
        for t in &o.txs {
            for (e, _) in &t.stats.events {
                rec.label(format!("ev:{e}"));
            }
        }
        rec.evals += (ids.len() as u64).saturating_sub(1);
        rec.nontrivial(&o.txs.iter().map(|t| (t.signed.bytes.clone(), t.receipt.encode())).collect::<Vec<_>>());
        rec.sample(engine::describe(&b));
    }
    Ok(())
}

pub fn c04() -> Check {
    Check {
        property: "C04",
        level: "exploration",
        assumptions: vec![
            "the pairing oracle knows the discrete logarithms of the points it generates; point evaluation is exercised with commitments to 0, 1, x and -x, whose proofs are known, and with points outside of the subgroup".into(),
        ],
        facets: vec![
            Facet::new(
                "calls",
                "1..6 calls of precompiles (all kinds of call; valid, damaged, truncated, extended inputs; exact, short and ample gas); status, return data and output area are logged; every input counts, distinct by transaction and receipt",
                1200,
                25_000,
                2500,
                c04_calls,
            ),
            Facet::new(
                "transactions",
                "1..3 transactions sent straight to precompiles with ample, exact or short gas; distinct by transactions and receipts",
                800,
                12_000,
                1500,
                c04_eoa,
            ),
            Facet::new(
                "point evaluation",
                "calls of and transactions to the point evaluation precompile: proofs of values of the polynomials 0, 1, x and -x, most damaged in one place, some by a point of small order; distinct by transactions and receipts",
                90,
                1_000,
                1500,
                c04_kzg,
            ),
        ],
    }
}

fn c20_jumps(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let m = jumps::gen(s);
    if let Ran::Done(o) = diff(&m.b, Witness::Full, rec)? {
        note_stats(&o, rec);
        rec.evals += (m.valid + m.invalid) as u64;
        if m.valid > 0 && m.invalid > 0 {
            rec.nontrivial(&(o.txs[0].signed.bytes.clone(), o.txs[0].receipt.encode()));
        }
        rec.sample(engine::describe(&m.b));
    }
    Ok(())
}

pub fn c20() -> Check {
    Check {
        property: "C20",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet".into()],
        facets: vec![Facet::new(
            "jumps",
            "code dense in JUMPDEST bytes inside and outside push data (all push widths, data running off the end), 1..14 jumps to valid, invalid, out-of-range and wrapped destinations from calls, creations or the code itself; non-trivial = both valid and invalid destinations",
            1900,
            40_000,
            700,
            c20_jumps,
        )],
    }
}

fn c05_bounds(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let m = valid::gen(s);
    let b = &m.b;
    for d in &m.dims {
        rec.label(*d);
    }
    let supply = b.pre.values().try_fold(ethereum_types::U256::zero(), |t, a| t.checked_add(a.balance));
    if supply.is_none() {
        rec.label("skip: more than 2^256 wei");
        return Ok(());
    }
    match crate::refevm::block::exec_block(b) {
        Ok(o) => {
            if let Ran::Done(_) = diff(b, Witness::Full, rec)? {
                note_stats(&o, rec);
                rec.label("valid");
                let t = o.txs.last().unwrap();
                rec.label(format!("valid type {}", b.txs.last().unwrap().ty));
                rec.nontrivial(&(t.signed.bytes.clone(), t.receipt.encode()));
            }
        }
        Err(e) => {
            if b.txs.len() == 2 {
                let mut first = b.clone();
                first.txs.pop();
                if crate::refevm::block::exec_block(&first).is_err() {
                    rec.label("first tx invalid");
                    return Ok(());
                }
            }
            rec.label(format!("invalid: {e}"));
            if e == "signature" {
                rec.label(format!("signature: {:?}", b.txs.last().unwrap().sig).split('(').next().unwrap().to_string());
            }
            rec.label(format!("invalid type {}", b.txs.last().unwrap().ty));
            for (what, o) in valid::claims(b) {
                rec.evals += 1;
                rec.label(format!("claim: {what}"));
                let inp = crate::refevm::block::inputs(b, &o, 0, b.txs.len(), Witness::Full);
                if engine::kernel(&inp).is_ok() {
                    return fail(
                        format!("accepted-invalid:{e}:{what}"),
                        format!("invalid transaction ({e}) but the kernel accepts the claim \"{what}\"\n    {}", engine::describe(b)),
                    );
                }
                rec.nontrivial(&(what, o.txs.last().unwrap().signed.bytes.clone(), crate::refevm::block::state_root(&o.end)));
            }
        }
    }
    rec.sample(format!("{:?}\n    {}", m.dims, engine::describe(b)));
    Ok(())
}

pub fn c05() -> Check {
    Check {
        property: "C05",
        level: "exploration",
        assumptions: vec![
            "well-formed RLP; the number of blobs per block and cdk_erigon / polygon_pos fee rules aren't varied".into(),
            "an invalid transaction may be recorded as failed, with zero gas and no effect".into(),
        ],
        facets: vec![Facet::new(
            "bounds",
            "a transaction of any type on or one past a bound of validity (nonce, intrinsic gas, gas limit, fees, balance, overflow, chain id, sender code, init code size, blobs, signature), alone or after another; valid ones must be accepted with the reference outcome, invalid ones refused for every claimed effect (executed, only nonce / fee / gas / value charged); every case counts, distinct by transaction and claim",
            2000,
            60_000,
            700,
            c05_bounds,
        )],
    }
}

/// Runs some batches of a block and lies about them.
fn c06_batches(s: &mut Src, rec: &mut Rec, b: &Block, windows: Option<Vec<(usize, usize)>>, lies: usize) -> CaseResult {
    let o = match block::exec_block(b) {
        Ok(o) => o,
        Err(e) => {
            rec.label(format!("skip:{e}"));
            return Ok(());
        }
    };
    if o.txs.iter().any(|t| t.steps > engine::STEP_LIMIT) {
        rec.label("skip:steps");
        return Ok(());
    }
    note_stats(&o, rec);
    let n = b.txs.len();
    let windows = windows.unwrap_or_else(|| {
        let mut cuts = vec![0, n];
        for _ in 0..s.below(3) {
            cuts.push(s.below(n + 1));
        }
        if n == 0 {
            cuts = vec![0, 0];
        }
        cuts.sort();
        cuts.windows(2).map(|w| (w[0], w[1])).filter(|w| w.0 < w.1 || n == 0).collect()
    });
    let mut wits = vec![];
    for (from, to) in windows {
        let wit = if s.chance(2, 3) { Witness::Pruned } else { Witness::Full };
        wits.push(wit);
        let inp = block::inputs(b, &o, from, to, wit);
        rec.evals += 1;
        if let Err(e) = engine::kernel(&inp) {
            return fail(
                format!("batch-refused:{wit:?}"),
                format!("transactions {from}..{to} of {n} with a {wit:?} witness: {e}\n    {}\n    {}", engine::describe(b), engine::diagnose(b, &o, &inp)),
            );
        }
        rec.label(format!("batch {wit:?}{}", if to == from { " empty" } else if to - from == n { " whole" } else { "" }));
        rec.nontrivial(&(from, inp.trie_roots_after.state_root, inp.trie_roots_after.receipts_root, wit == Witness::Full));
        for _ in 0..lies {
            let l = if s.chance(1, 4) { blocks::forge(s, b, from, to) } else { blocks::lie(s, b, &o, from, to, &inp) };
            let Some((kind, x)) = l else { continue };
            rec.evals += 1;
            rec.label(format!("lie: {kind}"));
            if engine::kernel(&x).is_ok() {
                return fail(
                    format!("lie-accepted:{kind}"),
                    format!("accepted although {kind} is wrong: transactions {from}..{to} of {n}\n    {}", engine::describe(b)),
                );
            }
        }
    }
    if !b.withdrawals.is_empty() {
        rec.label("withdrawals");
    }
    rec.label(format!("txs:{}", if n < 8 { n.to_string() } else { format!("{}0s", n / 10) }));
    rec.sample(engine::describe(b));
    Ok(())
}
fn c06_blocks(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let b = blocks::gen(s);
    c06_batches(s, rec, &b, None, 2)
}
fn c06_many(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (b, w) = blocks::many(s);
    c06_batches(s, rec, &b, Some(w), 0)
}
fn c06_receipts(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let b = blocks::receipts(s);
    c06_batches(s, rec, &b, None, 1)
}

pub fn c06() -> Check {
    Check {
        property: "C06",
        level: "exploration",
        assumptions: vec!["the bloom filter of the whole block isn't checked by the kernel (receipt blooms are)".into()],
        facets: vec![
            Facet::new(
                "blocks",
                "0..8 transactions over random worlds with untouched accounts and slots, withdrawals, an old beacon root; cut into batches with pruned or full witnesses, each accepted; then wrong claims (roots one account, slot, receipt or log off, gas, transaction number, withdrawals, beacon root) and forged witnesses (code, slot, balance, nonce), each refused; non-trivial = accepted batch, distinct by roots and witness kind",
                700,
                20_000,
                1900,
                c06_blocks,
            ),
            Facet::new(
                "many",
                "15..270 small transactions of all types; batches around the points where the RLP of the index changes length (127/128, 255/256) and the last one, accepted; non-trivial = accepted batch, distinct by roots",
                150,
                800,
                900,
                c06_many,
            ),
            Facet::new(
                "receipts",
                "1..3 transactions emitting 1..5 logs each with 0..4 topics and data around RLP length boundaries, some reverted; accepted, and wrong claims refused; non-trivial = accepted batch, distinct by roots",
                300,
                8_000,
                600,
                c06_receipts,
            ),
        ],
    }
}
