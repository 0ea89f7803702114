//! Runs a block on the reference EVM and on the kernel, and compares.
use std::collections::HashMap;

use ethereum_types::{Address, U256};
use evm_arithmetization::generation::GenerationInputs;
use evm_arithmetization::prover::testing::simulate_execution;
use evm_arithmetization::SegmentDataIterator;
use mpt_trie::partial_trie::PartialTrie;

use crate::fw::{fail, guarded, CaseResult, Fail, Rec};
use crate::refevm::block::{self, Block, BlockOut, Witness, F};

/// Runs the kernel; `Err` when it does not accept the claimed outcome.
pub fn kernel(inputs: &GenerationInputs<F>) -> Result<(), String> {
    if let Ok(d) = std::env::var("ZKVP_DUMP") {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = std::fs::write(format!("{d}/{n}.json"), serde_json::to_vec(inputs).unwrap());
    }
    match guarded(|| simulate_execution::<F>(inputs.clone())) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// What the kernel computed, for the report of a mismatch.
pub fn diagnose(b: &Block, o: &BlockOut, inputs: &GenerationInputs<F>) -> String {
    let r = guarded(|| {
        for s in SegmentDataIterator::<F>::new(inputs, Some(24)) {
            if let Err(e) = s {
                return Some((first_line(&e.inner), e.tries));
            }
        }
        None
    });
    let (msg, tries) = match r {
        Ok(Some(x)) => x,
        Ok(None) => return "accepted when run by segments".into(),
        Err(p) => return format!("panic: {p}"),
    };
    let mut out = vec![msg];
    if let Some(t) = tries {
        let enc: Vec<Vec<u8>> = o.txs.iter().map(|t| t.receipt.encode()).collect();
        for (k, v) in block::index_map(&enc) {
            if let Some(g) = t.receipt_trie.get(block::nib(&k)) {
                if g != v.as_slice() {
                    out.push(format!("receipt {k:?}: kernel {} spec {}", hex::encode(g), hex::encode(&v)));
                }
            }
        }
        let mut addrs: Vec<Address> = o.end.keys().chain(b.pre.keys()).copied().collect();
        for t in &o.txs {
            addrs.extend(t.seen_addr.iter());
        }
        addrs.sort();
        addrs.dedup();
        let mut unknown: HashMap<Vec<u8>, Vec<u8>> = t
            .state_trie
            .items()
            .filter_map(|(k, v)| match v {
                mpt_trie::trie_ops::ValOrHash::Val(v) => {
                    Some((k.nibbles_hex(), v))
                }
                _ => None,
            })
            .collect();
        for a in addrs {
            let want = o.end.get(&a).map(block::account_rlp);
            let k = block::addr_key(&a);
            let got = t.state_trie.get(block::nib(&k)).map(|x| x.to_vec());
            unknown.remove(&block::nib(&k).nibbles_hex());
            if want != got {
                out.push(format!(
                    "account {a:?}: kernel {} spec {} {:?}",
                    got.map(hex::encode).unwrap_or("none".into()),
                    want.map(hex::encode).unwrap_or("none".into()),
                    o.end.get(&a).map(|x| (x.nonce, x.balance, &x.storage))
                ));
            }
        }
        for (k, v) in unknown {
            out.push(format!("unexpected account {}: {}", hex::encode(k), hex::encode(v)));
        }
    }
    out.truncate(12);
    out.join("\n    ")
}

trait NibHex {
    fn nibbles_hex(&self) -> Vec<u8>;
}
impl NibHex for mpt_trie::nibbles::Nibbles {
    fn nibbles_hex(&self) -> Vec<u8> {
        (0..self.count).map(|i| self.get_nibble(i)).collect()
    }
}

pub fn describe(b: &Block) -> String {
    let mut v = vec![format!(
        "block {{ number {}, time {}, base fee {}, gas limit {}, coinbase {:?}, withdrawals {:?} }}",
        b.number, b.timestamp, b.base_fee, b.gas_limit, b.coinbase, b.withdrawals
    )];
    for (a, x) in &b.pre {
        if *a == block::beacon_address() && x.storage.is_empty() {
            continue;
        }
        v.push(format!("account {a:?}: nonce {} balance {} storage {:?} code {}", x.nonce, x.balance, x.storage, hex::encode(&x.code)));
    }
    for t in &b.txs {
        v.push(format!(
            "tx type {} from {:?} to {:?} nonce {} gas {} fee {} / {} value {} access {:?} blobs {} data {}",
            t.ty,
            crate::refevm::tx::key_address(&t.key),
            t.to,
            t.nonce,
            t.gas,
            t.max_fee,
            t.max_prio,
            t.value,
            t.access,
            t.blob_hashes.len(),
            hex::encode(&t.data)
        ));
    }
    v.join("\n    ")
}

pub const STEP_LIMIT: u64 = 6000;

pub enum Ran {
    /// Nothing to compare: the reference found the block too long or invalid.
    Skipped(&'static str),
    Done(BlockOut),
}

/// The differential check of one block in one batch.
pub fn diff(b: &Block, wit: Witness, rec: &mut Rec) -> Result<Ran, Fail> {
    let o = match block::exec_block(b) {
        Ok(o) => o,
        Err(e) => {
            rec.label(format!("skip:{e}"));
            return Ok(Ran::Skipped(e));
        }
    };
    if o.txs.iter().any(|t| t.steps > STEP_LIMIT) {
        rec.label("skip:steps");
        return Ok(Ran::Skipped("steps"));
    }
    let inp = block::inputs(b, &o, 0, b.txs.len(), wit);
    rec.evals += 1;
    if let Ok(d) = std::env::var("ZKVP_TRACE") {
        let _ = std::fs::write(format!("{d}/{:?}", std::thread::current().id()), describe(b));
    }
    if let Err(e) = kernel(&inp) {
        return fail(
            format!("kernel-differs:{}", first_cause(b, &o)),
            format!("{e}\n    {}\n    {}", describe(b), diagnose(b, &o, &inp)),
        );
    }
    Ok(Ran::Done(o))
}

/// A coarse name for the failing input's kind.
fn first_cause(_b: &Block, o: &BlockOut) -> String {
    let t = o.txs.last();
    match t {
        Some(t) => match &t.halt {
            crate::refevm::evm::Halt::Fault(r) => format!("fault {r}"),
            h => format!("{h:?}"),
        },
        None => "no tx".into(),
    }
}

pub fn note_stats(o: &BlockOut, rec: &mut Rec) {
    for t in &o.txs {
        for (op, _) in &t.stats.ops {
            rec.label(format!("op:{op:02x}"));
        }
        for (e, _) in &t.stats.events {
            rec.label(format!("ev:{e}"));
        }
        rec.label(if t.receipt.status { "tx ok" } else { "tx failed" });
        rec.label(format!("depth:{}", t.max_depth.min(6)));
    }
}

pub fn ether(n: u64) -> U256 {
    U256::from(n) * U256::exp10(18)
}

pub type R = CaseResult;

fn first_line(e: &impl std::fmt::Display) -> String {
    format!("{e}").lines().next().unwrap_or("").to_string()
}
