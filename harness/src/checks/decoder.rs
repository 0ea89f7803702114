//! C16: block traces to prover inputs.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::GenerationInputs;
use evm_arithmetization::proof::BlockHashes;
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use keccak_hash::keccak;
use mpt_trie::partial_trie::PartialTrie;
use plonky2::field::types::Field;
use trace_decoder::observer::TriesObserver;
use trace_decoder::*;

use crate::evmgen::{blocks, engine, mix, prog, tries};
use crate::evmgen::engine::describe;
use crate::fw::{fail, guarded, CaseResult, Check, Facet, Rec, Src};
use crate::refevm::block::{self, addr_key, beacon_address, slot_key, state_map, storage_map, to_trie, Block, BlockOut, F};
use crate::refevm::compact::{self, Keep};
use crate::refevm::evm::{Account, World};
use crate::refevm::{mpt, rlp};

fn be(x: U256) -> H256 {
    H256(crate::refevm::precompiles::be32(x))
}

/// What the tracer says about one transaction.
fn txn_info(o: &BlockOut, i: usize, noisy: u64) -> TxnInfo {
    let t = &o.txs[i];
    let w0: &World = if i == 0 { &o.start } else { &o.txs[i - 1].world };
    let w1 = &t.world;
    let mut addrs = t.seen_addr.clone();
    addrs.extend(t.created.iter().chain(&t.destroyed));
    for (a, x) in w1 {
        if w0.get(a) != Some(x) {
            addrs.insert(*a);
        }
    }
    addrs.extend(w0.keys().filter(|a| !w1.contains_key(a)));
    let none = Account::default();
    let mut traces = BTreeMap::new();
    for a in addrs {
        let (x0, x1) = (w0.get(&a), w1.get(&a));
        let mut tr = TxnTrace::default();
        tr.storage_read = t.seen_slot.iter().filter(|s| s.0 == a).map(|s| be(s.1)).collect();
        match x1 {
            Some(y) => {
                let x = x0.unwrap_or(&none);
                // a tracer may report what it looked at even if nothing changed
                let all = noisy & 1 == 1 && x0.is_some();
                if x.balance != y.balance || all {
                    tr.balance = Some(y.balance);
                }
                if x.nonce != y.nonce || all {
                    tr.nonce = Some(y.nonce.into());
                }
                let keys: BTreeSet<&U256> = x.storage.keys().chain(y.storage.keys()).collect();
                for k in keys {
                    let (v0, v1) = (x.storage.get(k).copied().unwrap_or_default(), y.storage.get(k).copied().unwrap_or_default());
                    if v0 != v1 {
                        tr.storage_written.insert(be(*k), v1);
                    }
                }
                if noisy & 2 == 2 {
                    for s in t.seen_slot.iter().filter(|s| s.0 == a) {
                        tr.storage_written.insert(be(s.1), y.storage.get(&s.1).copied().unwrap_or_default());
                    }
                }
                if noisy & 4 == 4 {
                    // what is written isn't listed as read
                    let w = tr.storage_written.clone();
                    tr.storage_read.retain(|k| !w.contains_key(k));
                }
                if x.code != y.code {
                    tr.code_usage = Some(ContractCodeUsage::Write(y.code.clone()));
                } else if !y.code.is_empty() {
                    tr.code_usage = Some(ContractCodeUsage::Read(keccak(&y.code)));
                }
            }
            None => {
                // gone: was there before, or came and went, or never was
                tr.self_destructed = x0.is_some() || (t.destroyed.contains(&a) && t.receipt.status && noisy & 8 == 8);
                if tr.self_destructed && noisy & 16 == 16 {
                    tr.balance = Some(0.into());
                    tr.nonce = Some(1.into());
                }
            }
        }
        traces.insert(a, tr);
    }
    let r = t.receipt.encode();
    TxnInfo {
        traces,
        meta: TxnMeta {
            byte_code: t.signed.bytes.clone(),
            new_receipt_trie_node_byte: if t.receipt.ty == 0 { r } else { rlp::bytes(&r) },
            gas_used: t.gas_used,
        },
    }
}

fn keep_all(b: &Block, o: &BlockOut) -> Keep {
    let mut addrs: BTreeSet<Address> = [beacon_address(), b.coinbase].into();
    let mut slots = BTreeSet::new();
    for t in &o.txs {
        addrs.extend(t.seen_addr.iter().chain(&t.created).chain(&t.destroyed));
        slots.extend(t.seen_slot.iter().copied());
    }
    addrs.extend(b.withdrawals.iter().map(|w| w.0));
    let mut steps: Vec<&World> = vec![&b.pre, &o.start];
    steps.extend(o.txs.iter().map(|t| &t.world));
    compact::keep_for(&steps, &addrs, &slots, &[beacon_address()].into())
}

fn separate(s: &mut Src, b: &Block, keep: &Keep) -> SeparateTriePreImages {
    let pr = |m: &mpt::Map, k: &BTreeSet<Vec<u8>>| -> mpt_trie::partial_trie::HashedPartialTrie {
        let t = to_trie(m);
        if keep.all {
            t
        } else {
            block::prune(&t, &k.iter().cloned().collect::<Vec<_>>())
        }
    };
    let none = BTreeSet::new();
    let mut storage = HashMap::new();
    // whether storage tries without slots are listed
    let empties = s.bool();
    for (a, x) in &b.pre {
        let k = keep.storage.get(a).unwrap_or(&none);
        let kept = keep.all || keep.state.contains(&addr_key(a));
        if kept && (!x.storage.is_empty() || empties) {
            if !keep.all && k.is_empty() && s.bool() && !x.storage.is_empty() {
                continue;
            }
            storage.insert(keccak(a.as_bytes()), SeparateTriePreImage::Direct(pr(&storage_map(x), k)));
        }
    }
    SeparateTriePreImages {
        state: SeparateTriePreImage::Direct(pr(&state_map(&b.pre), &keep.state)),
        storage: SeparateStorageTriesPreImage::MultipleTries(storage),
    }
}

fn same_storage(t: &mpt_trie::partial_trie::HashedPartialTrie, w: &World, key: H256, by_key: &HashMap<H256, Address>) -> bool {
    let root = by_key.get(&key).and_then(|a| w.get(a)).map(|x| mpt::root(&storage_map(x)));
    t.hash() == root.unwrap_or_else(|| mpt::root(&Default::default()))
}

fn run(s: &mut Src, rec: &mut Rec, b: Block, kind: &'static str) -> CaseResult {
    let Ok(o) = block::exec_block(&b) else {
        rec.label("skip");
        return Ok(());
    };
    if o.txs.iter().map(|t| t.steps).sum::<u64>() > 20_000 {
        rec.label("skip: long");
        return Ok(());
    }
    rec.label(kind);
    let n = b.txs.len();
    let noisy = s.u64() >> 59;
    let info: Vec<TxnInfo> = (0..n).map(|i| txn_info(&o, i, noisy)).collect();
    let mut keep = keep_all(&b, &o);
    keep.all = s.chance(1, 4);
    // codes given in the witness, the others beside it
    let codes: BTreeSet<Vec<u8>> = b.pre.values().map(|x| x.code.clone()).filter(|c| !c.is_empty()).collect();
    keep.code.retain(|_| s.bool());
    keep.shut = b.pre.keys().copied().filter(|_| s.bool()).collect();
    let sep = s.chance(1, 3);
    let mut code_db = BTreeSet::new();
    let pre_images = if sep {
        rec.label("separate tries");
        code_db = codes;
        BlockTraceTriePreImages::Separate(separate(s, &b, &keep))
    } else {
        let e = compact::encode(&b.pre, &keep, s.u64());
        code_db.extend(codes.difference(&e.codes).cloned());
        if e.hashes > 0 {
            rec.label("hashed-out parts");
        }
        BlockTraceTriePreImages::Combined(CombinedPreImages { compact: e.out })
    };
    let trace = BlockTrace { trie_pre_images: pre_images, code_db, txn_info: info };
    let hint = match s.below(4) {
        0 => 1,
        1 => 2,
        2 => s.range(1, n.max(1)),
        _ => s.range(1, n + 2),
    };
    let gwei = U256::exp10(9);
    let meta = block::metadata(&b, &o);
    let ckpt = s.h256();
    let cch = if s.bool() { EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64) } else { std::array::from_fn(|i| F::from_canonical_u64(i as u64 + 3)) };
    let burn = s.bool().then(|| s.address());
    let other = OtherBlockData {
        b_data: BlockLevelData {
            b_meta: meta.clone(),
            b_hashes: BlockHashes { prev_hashes: b.prev_hashes.clone(), cur_hash: b.cur_hash },
            withdrawals: b.withdrawals.iter().map(|(a, v)| (*a, *v / gwei)).collect(),
        },
        checkpoint_state_trie_root: ckpt,
        checkpoint_consolidated_hash: cch,
        burn_addr: burn,
        ger_data: None,
    };
    let d = format!("{kind}, {n} txs, batch size {hint}, reports {noisy:05b}, {}\n    {}", if sep { "separate" } else { "compact" }, describe(&b));
    let mut obs = TriesObserver::new();
    rec.evals += 1;
    if hint == 1 && s.chance(1, 8) {
        let mut obs = TriesObserver::new();
        if !matches!(guarded(|| entrypoint(trace.clone(), other.clone(), 0, &mut obs, WireDisposition::Type1).is_err()), Ok(true)) {
            return fail("size-0", format!("a batch size of 0 isn't refused\n    {d}"));
        }
    }
    let out = match guarded(|| entrypoint(trace, other, hint, &mut obs, WireDisposition::Type1)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return fail("refused", format!("{e:#}\n    {d}")),
        Err(p) => return fail("panic", format!("{p}\n    {d}")),
    };
    let nb = out.len();
    if nb < 2 {
        return fail("batches", format!("{nb} batches\n    {d}"));
    }
    // (small blocks are split further, to have two batches)
    if out.iter().any(|g| g.signed_txns.len() > hint) {
        return fail("batch-size", format!("{:?}\n    {d}", out.iter().map(|g| g.signed_txns.len()).collect::<Vec<_>>()));
    }
    let all: Vec<&Vec<u8>> = out.iter().flat_map(|g| &g.signed_txns).collect();
    let want: Vec<&Vec<u8>> = o.txs.iter().map(|t| &t.signed.bytes).collect();
    if all != want {
        return fail("transactions", format!("{} transactions\n    {d}", all.len()));
    }
    if obs.data.len() != nb {
        return fail("observer", format!("{} of {nb} batches observed\n    {d}", obs.data.len()));
    }
    let by_key: HashMap<H256, Address> = b
        .pre
        .keys()
        .chain(o.end.keys())
        .chain(o.txs.iter().flat_map(|t| &t.seen_addr))
        .map(|a| (keccak(a.as_bytes()), *a))
        .collect();
    let enc: Vec<Vec<u8>> = want.iter().map(|x| x.to_vec()).collect();
    let recs: Vec<Vec<u8>> = o.txs.iter().map(|t| t.receipt.encode()).collect();
    let mut done = 0;
    for (i, g) in out.iter().enumerate() {
        let last = i + 1 == nb;
        let from = done;
        let to = done + g.signed_txns.len();
        done = to;
        // (a block without transactions still starts with the system's update)
        let before: &World = if from == 0 && i == 0 { &b.pre } else if from == 0 { &o.start } else { &o.txs[from - 1].world };
        let after: &World = if last { &o.end } else if to == 0 { &o.start } else { &o.txs[to - 1].world };
        let gas = |k: usize| U256::from(if k == 0 { 0 } else { o.txs[k - 1].receipt.cum_gas });
        let mut bad = vec![];
        let mut eq = |what: &str, ok: bool| {
            if !ok {
                bad.push(what.to_string())
            }
        };
        eq("transaction number", g.txn_number_before == from.into());
        eq("gas before", g.gas_used_before == gas(from));
        eq("gas after", g.gas_used_after == gas(to));
        eq("state before", g.tries.state_trie.hash() == block::state_root(before));
        eq("transactions before", g.tries.transactions_trie.hash() == mpt::root(&block::index_map(&enc[..from])));
        eq("receipts before", g.tries.receipts_trie.hash() == mpt::root(&block::index_map(&recs[..from])));
        eq("state after", g.trie_roots_after.state_root == block::state_root(after));
        eq("transactions after", g.trie_roots_after.transactions_root == mpt::root(&block::index_map(&enc[..to])));
        eq("receipts after", g.trie_roots_after.receipts_root == mpt::root(&block::index_map(&recs[..to])));
        eq("withdrawals", g.withdrawals == if last { b.withdrawals.clone() } else { vec![] });
        eq("metadata", g.block_metadata == meta && g.block_hashes.prev_hashes == b.prev_hashes && g.block_hashes.cur_hash == b.cur_hash);
        eq("checkpoint", g.checkpoint_state_trie_root == ckpt && g.checkpoint_consolidated_hash == cch);
        eq("others", g.burn_addr == burn && g.ger_data.is_none());
        for (k, t) in &g.tries.storage_tries {
            eq("storage before", same_storage(t, before, *k, &by_key));
        }
        for (h, c) in &g.contract_code {
            eq("code", *h == keccak(c));
        }
        let e = &obs.data[i];
        eq("observed block", e.block == b.number && e.batch == i);
        eq("observed state", e.tries.world.state_trie().hash() == block::state_root(after));
        eq("observed transactions", e.tries.transaction.root() == g.trie_roots_after.transactions_root);
        eq("observed receipts", e.tries.receipt.root() == g.trie_roots_after.receipts_root);
        if !bad.is_empty() {
            return fail(format!("wrong:{}", bad[0]), format!("batch {i} of {nb} ({from}..{to}): wrong {}\n    {d}", bad.join(", ")));
        }
        if i == 0 && (from != 0 || g.tries.transactions_trie.hash() != mpt::root(&Default::default())) {
            return fail("start", format!("first batch\n    {d}"));
        }
        // (what the kernel thinks of the checkpoint isn't the point here)
        let mut g2: GenerationInputs<F> = g.clone();
        g2.checkpoint_state_trie_root = block::state_root(&b.pre);
        g2.checkpoint_consolidated_hash = EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64);
        g2.burn_addr = None;
        rec.evals += 1;
        if let Err(e) = engine::kernel(&g2) {
            // is it the input that is lacking?
            let full = block::inputs(&b, &o, from, to, block::Witness::Full);
            let own = if to > from { engine::kernel(&full).is_ok() } else { true };
            if !own {
                rec.label("skip: kernel refuses the full input too");
                continue;
            }
            return fail("kernel", format!("batch {i} of {nb} ({from}..{to}): kernel refuses: {}\n    {d}", e.lines().next().unwrap_or("")));
        }
    }
    if done != n {
        return fail("transactions", format!("{done} of {n}\n    {d}"));
    }
    if n > 0 {
        rec.nontrivial(&d);
    }
    if nb > 2 {
        rec.label("more than two batches");
    }
    if n < 2 {
        rec.label("padded");
    }
    if o.txs.iter().any(|t| !t.destroyed.is_empty()) {
        rec.label("destroyed accounts");
    }
    if o.txs.iter().any(|t| !t.receipt.status) {
        rec.label("failed transaction");
    }
    rec.sample(d.chars().take(600).collect());
    Ok(())
}

fn programs(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (mut b, kind) = match s.weighted(&[4, 3, 1, 1]) {
        0 => {
            let n = s.range(1, 6);
            (prog::gen(s, n), "worlds")
        }
        1 => (blocks::gen(s), "block"),
        2 => (prog::chain(s), "chain"),
        _ => match mix::block(s, 5000) {
            Some((b, _, k)) => (b, k),
            None => return Ok(()),
        },
    };
    // withdrawals come in gwei
    for w in &mut b.withdrawals {
        w.1 = w.1 / U256::exp10(9) * U256::exp10(9);
    }
    run(s, rec, b, kind)
}

fn reshaping(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let b = tries::gen(s);
    run(s, rec, b, "tries")
}

pub fn c16() -> Check {
    Check {
        property: "C16",
        level: "exploration",
        assumptions: vec![
            "the tracer reports, per transaction, every address and slot looked at, final values of what changed (and at times of what did not), and the witness holds what was looked at plus the siblings of what is deleted".into(),
        ],
        facets: vec![
            Facet::new("programs", "a block with at least one transaction", 700, 30_000, 1500, programs),
            Facet::new("tries", "a block with at least one transaction", 700, 30_000, 600, reshaping),
        ],
    }
}
