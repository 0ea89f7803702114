//! C06: whole blocks: many transactions, receipts, withdrawals, batches, and
//! wrong claims about them.
use std::collections::BTreeMap;

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::GenerationInputs;
use keccak_hash::keccak;

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use super::prog;
use crate::fw::Src;
use crate::refevm::block::{self, Block, BlockOut, F};
use crate::refevm::evm::Account;
use crate::refevm::tx::{keys, Tx};

fn withdrawals(s: &mut Src, b: &mut Block) {
    if s.chance(1, 3) {
        return;
    }
    let pool: Vec<Address> = b.pre.keys().copied().collect();
    for _ in 0..s.range(1, 6) {
        let a = match s.below(5) {
            0 => s.address(),
            1 => b.coinbase,
            2 => at(4),
            _ => s.pick(&pool),
        };
        let v = match s.below(4) {
            0 => U256::zero(),
            1 => 1.into(),
            _ => U256::from(s.below(1 << 30)) * U256::exp10(9),
        };
        b.withdrawals.push((a, v));
    }
}

fn bystanders(s: &mut Src, b: &mut Block) {
    // accounts and storage nothing touches: they end up hashed out
    for i in 0..s.below(12) {
        let mut x = Account { nonce: s.below(3) as u64 + 1, balance: s.word() >> 160, ..Default::default() };
        if s.bool() {
            x.code = vec![0x5b; s.below(3)];
            for k in 0..s.below(6) {
                x.storage.insert(U256::from(k), (s.word() >> 8) + 1);
            }
        }
        b.pre.insert(Address::from_slice(&keccak([i as u8, s.u8()]).0[..20]), x);
    }
    // more slots in the contracts that run
    let cs: Vec<Address> = b.pre.iter().filter(|x| !x.1.code.is_empty() && *x.0 != block::beacon_address()).map(|x| *x.0).collect();
    for c in cs {
        if s.bool() {
            for k in 0..s.below(8) {
                b.pre.get_mut(&c).unwrap().storage.insert(U256::from(100 + k), U256::from(s.range(1, 300)));
            }
        }
    }
    if s.bool() {
        // an older beacon root in the same ring slot
        let t = b.timestamp % U256::from(8191);
        let a = b.pre.get_mut(&block::beacon_address()).unwrap();
        a.storage.insert(t, U256::from(5));
        a.storage.insert(t + U256::from(8191), U256::from(77));
        for i in 0..s.below(4) {
            a.storage.insert(U256::from(i * 3), (s.word() >> 4) + 1);
        }
    }
}

/// A contract that reads, sets and clears slots as the calldata says, and logs.
fn storer(s: &mut Src) -> Vec<u8> {
    let mut a = Asm::default();
    for i in 0..s.range(1, 5) {
        // slot = calldata[32i], value = calldata[32i+16..]
        a.push(s.below(3) * 32).op(0x35).push(s.range(1, 7)).op(0x06);
        a.push(if s.bool() { 0 } else { i + 1 });
        a.op(0x90);
        if s.chance(1, 3) {
            a.push(100).op(0x01);
        }
        a.op(0x55);
    }
    a.push(s.below(5)).push(s.below(90)).push(0).op(0xa1);
    a.op(0x00);
    a.finish()
}

pub fn gen(s: &mut Src) -> Block {
    let mut b = match s.weighted(&[4, 3, 1]) {
        0 => {
            let n = s.range(0, 6);
            prog::gen(s, n)
        }
        1 => storage_block(s),
        _ => {
            let mut b = Block::basic();
            env(s, &mut b);
            b
        }
    };
    bystanders(s, &mut b);
    withdrawals(s, &mut b);
    b
}

fn storage_block(s: &mut Src) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    for i in 0..2 {
        b.pre.insert(ks[i].1, Account { balance: ether(100), ..Default::default() });
    }
    let n = s.range(1, 3);
    for i in 0..n {
        let mut acc = Account { nonce: 1, code: storer(s), ..Default::default() };
        for k in 0..s.below(8) {
            acc.storage.insert(U256::from(k), U256::from(s.range(1, 1000)));
        }
        b.pre.insert(at(0xb0 + i as u64), acc);
    }
    let mut nonces = [0u64; 2];
    for _ in 0..s.range(1, 8) {
        let w = s.below(2);
        let mut t = Tx::legacy(ks[w].0);
        t.nonce = nonces[w].into();
        nonces[w] += 1;
        fee(s, &mut t, &b);
        t.gas = 400_000.into();
        t.to = Some(match s.below(6) {
            0 => s.address(),
            1 => ks[3].1,
            _ => at(0xb0 + s.below(n) as u64),
        });
        t.value = U256::from(s.below(2));
        t.data = (0..3).flat_map(|_| crate::refevm::precompiles::be32(U256::from(s.below(40)))).collect();
        b.txs.push(t);
    }
    b
}

/// Many small transactions: the tries' index keys grow.
pub fn many(s: &mut Src) -> (Block, Vec<(usize, usize)>) {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    for i in 0..4 {
        b.pre.insert(ks[i].1, Account { balance: ether(100), ..Default::default() });
    }
    let mut a = Asm::default();
    a.push(s.below(50)).push(0).op(0xa0).op(0x00);
    b.pre.insert(at(0xb0), Account { nonce: 1, code: a.finish(), ..Default::default() });
    let n = s.pick(&[15usize, 17, 130, 140, 260, 270]);
    let mut nonces = [0u64; 4];
    let data_len = s.pick(&[0usize, 0, 1, 20, 120]);
    for i in 0..n {
        let w = i % 4;
        let mut t = Tx::legacy(ks[w].0);
        t.nonce = nonces[w].into();
        nonces[w] += 1;
        t.ty = (s.u8() % 3) as u8;
        t.max_fee = b.base_fee + 1;
        t.max_prio = 1.into();
        t.chain_id = Some(b.chain_id);
        if t.ty < 2 {
            t.max_prio = t.max_fee;
        }
        t.gas = 60_000.into();
        t.to = Some(if s.u8() % 3 == 0 { at(0xb0) } else { at(0x1000 + (i % 50) as u64) });
        t.value = 1.into();
        t.data = vec![7; data_len];
        b.txs.push(t);
    }
    withdrawals(s, &mut b);
    // windows around the points where the RLP of the index changes
    let mut v = vec![];
    for c in [0usize, 15, 127, 128, 255, 256] {
        if c <= n && s.chance(1, 2) {
            let lo = c.saturating_sub(s.below(4));
            v.push((lo, (c + s.range(0, 4)).min(n).max(lo)));
        }
    }
    v.push((n - s.below(4), n));
    (b, v)
}

/// Logs of many shapes and sizes: receipts around RLP length boundaries.
pub fn receipts(s: &mut Src) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    b.pre.insert(ks[0].1, Account { balance: ether(100), ..Default::default() });
    let n = s.range(1, 3);
    for i in 0..n {
        let mut a = Asm::default();
        for w in 0..s.below(6) {
            a.push(s.word()).mstore(32 * w);
        }
        for _ in 0..s.range(1, 5) {
            let t = s.below(5);
            if s.chance(1, 3) {
                // a single byte: its own encoding below 0x80
                a.push(s.pick(&[0x80usize, 0, 1, 0x7f, 0x81, 0xb7, 0xc0, 0xff])).push(0x33).op(0x53);
                for _ in 0..t {
                    a.push(s.word());
                }
                a.push(1).push(0x33).op(0xa0 + t as u8);
                continue;
            }
            for _ in 0..t {
                a.push(s.word());
            }
            let size = match s.weighted(&[3, 3, 2, 2, 1]) {
                0 => s.below(3),
                1 => s.range(30, 60),
                2 => s.range(90, 130),
                3 => s.range(200, 300),
                _ if s.chance(1, 6) => s.pick(&[4000usize, 65_200, 65_536]),
                _ => s.range(300, 600),
            };
            a.push(size).push(s.below(70)).op(0xa0 + t as u8);
        }
        match s.below(6) {
            0 => a.push(0).push(0).op(0xfd),
            1 => a.addr(at(0xb0)).op(0xff),
            _ => a.op(0x00),
        };
        b.pre.insert(at(0xb0 + i as u64), Account { nonce: 1, code: a.finish(), ..Default::default() });
        let mut t = Tx::legacy(ks[0].0);
        t.nonce = i.into();
        fee(s, &mut t, &b);
        t.gas = 2_000_000.into();
        t.to = Some(at(0xb0 + i as u64));
        t.data = s.bytes(0);
        let d = match s.below(4) {
            0 => s.range(0, 60),
            1 => s.range(100, 260),
            _ => 0,
        };
        t.data = vec![0x11; d];
        b.txs.push(t);
    }
    b
}

/// A wrong claim about the outcome (or the witness) of a batch.
pub fn lie(s: &mut Src, b: &Block, o: &BlockOut, from: usize, to: usize, inp: &GenerationInputs<F>) -> Option<(&'static str, GenerationInputs<F>)> {
    let mut x = inp.clone();
    let after = if to == o.txs.len() {
        o.end.clone()
    } else if to == 0 {
        o.start.clone()
    } else {
        o.txs[to - 1].world.clone()
    };
    let recs: Vec<_> = o.txs[..to].iter().map(|t| t.receipt.clone()).collect();
    let enc: Vec<Vec<u8>> = o.txs[..to].iter().map(|t| t.signed.bytes.clone()).collect();
    let kind = match s.below(14) {
        0 => {
            x.trie_roots_after.state_root = s.h256();
            "state root"
        }
        1 => {
            x.trie_roots_after.receipts_root = s.h256();
            "receipts root"
        }
        2 => {
            x.trie_roots_after.transactions_root = s.h256();
            "transactions root"
        }
        3 | 4 => {
            // one account off
            let mut w = after.clone();
            let ks: Vec<Address> = w.keys().copied().collect();
            let a = s.pick(&ks);
            let acc = w.get_mut(&a).unwrap();
            let k = match s.below(5) {
                0 => {
                    acc.balance = if s.bool() { acc.balance.overflowing_add(1.into()).0 } else { acc.balance.saturating_sub(1.into()) };
                    "a balance"
                }
                1 => {
                    acc.nonce += 1;
                    "a nonce"
                }
                2 => {
                    let k = acc.storage.keys().next().copied().unwrap_or(U256::from(3));
                    let v = acc.storage.get(&k).copied().unwrap_or_default();
                    acc.storage.insert(k, v.overflowing_add(1.into()).0.max(1.into()));
                    "a slot"
                }
                3 => {
                    acc.code.push(0);
                    "a code"
                }
                _ => {
                    w.remove(&a);
                    "a missing account"
                }
            };
            let r = block::state_root(&w);
            if r == x.trie_roots_after.state_root {
                return None;
            }
            x.trie_roots_after.state_root = r;
            k
        }
        5 => {
            let mut w = after.clone();
            w.insert(s.address(), Account { balance: 1.into(), ..Default::default() });
            x.trie_roots_after.state_root = block::state_root(&w);
            "an extra account"
        }
        6 | 7 => {
            // one receipt off
            let i = if recs.is_empty() { return None } else { from.min(recs.len() - 1) + s.below(recs.len() - from.min(recs.len() - 1)) };
            let mut r = recs.clone();
            let mut e: Vec<Vec<u8>>;
            let k = match s.below(7) {
                0 => {
                    r[i].status = !r[i].status;
                    "a receipt's status"
                }
                1 => {
                    r[i].cum_gas += 1;
                    "a receipt's gas"
                }
                2 => {
                    r[i].ty = (r[i].ty + 1) % 4;
                    "a receipt's type"
                }
                3 => {
                    r[i].logs.pop()?;
                    "a missing log"
                }
                4 => {
                    let l = r[i].logs.last_mut()?;
                    if l.data.is_empty() {
                        return None;
                    }
                    let j = s.below(l.data.len());
                    l.data[j] ^= 1;
                    "a log's data"
                }
                5 => {
                    let l = r[i].logs.first_mut()?;
                    l.topics.push(H256::zero());
                    "a log's topics"
                }
                _ => "a receipt's bloom",
            };
            e = r.iter().map(|x| x.encode()).collect();
            if k == "a receipt's bloom" {
                let bl = r[i].bloom();
                let at = e[i].windows(256).position(|w| w == bl)?;
                let j = s.below(256);
                e[i][at + j] ^= 1 << s.below(8);
            }
            let root = crate::refevm::mpt::root(&block::index_map(&e));
            if root == x.trie_roots_after.receipts_root {
                return None;
            }
            x.trie_roots_after.receipts_root = root;
            k
        }
        8 => {
            // transactions listed in another order, or one less
            if enc.len() < 2 {
                return None;
            }
            let mut e = enc.clone();
            if s.bool() {
                e.pop();
            } else {
                let i = s.below(e.len() - 1);
                e.swap(i, i + 1);
            }
            x.trie_roots_after.transactions_root = crate::refevm::mpt::root(&block::index_map(&e));
            "the transaction list"
        }
        9 => {
            x.gas_used_after = if s.bool() { x.gas_used_after + 1 } else { x.gas_used_after.saturating_sub(1.into()) };
            if x.gas_used_after == inp.gas_used_after {
                return None;
            }
            "gas used"
        }
        10 => {
            // shifted start: cumulative gas in the receipts changes
            if from == to {
                return None;
            }
            x.gas_used_before = x.gas_used_before + 1;
            x.gas_used_after = x.gas_used_after + 1;
            "gas used before"
        }
        11 => {
            if from == to {
                return None;
            }
            x.txn_number_before = x.txn_number_before + 1;
            "transaction number"
        }
        12 => {
            // withdrawals: dropped, doubled, or more
            if to != o.txs.len() {
                return None;
            }
            let mut w = x.withdrawals.clone();
            match s.below(3) {
                0 => {
                    let (_, v) = w.pop()?;
                    if v.is_zero() {
                        return None;
                    }
                }
                1 => {
                    let i = s.below(w.len().max(1));
                    let y = *w.get(i)?;
                    if y.1.is_zero() {
                        return None;
                    }
                    w.push(y);
                }
                _ => w.push((s.address(), 1.into())),
            }
            x.withdrawals = w;
            "withdrawals"
        }
        _ => {
            // the beacon root update is left out, or writes another root
            if from != 0 {
                return None;
            }
            let mut m = x.block_metadata.clone();
            if s.bool() {
                m.parent_beacon_block_root = s.h256();
            } else {
                m.block_timestamp = m.block_timestamp + 1;
            }
            x.block_metadata = m;
            if b.parent_beacon_root == x.block_metadata.parent_beacon_block_root && b.timestamp == x.block_metadata.block_timestamp {
                return None;
            }
            "beacon root"
        }
    };
    Some((kind, x))
}

/// A witness that doesn't match the pre-state root, with the outcome that
/// believing it would give.
pub fn forge(s: &mut Src, b: &Block, from: usize, to: usize) -> Option<(&'static str, GenerationInputs<F>)> {
    use crate::refevm::block::Witness;
    let mut f = b.clone();
    // the transactions' own changes make intermediate forgeries hard to phrase:
    // forge the block's pre-state and claim its first batch
    if from != 0 {
        return None;
    }
    let cs: Vec<Address> = b.pre.iter().filter(|x| x.1.code.len() > 1).map(|x| *x.0).filter(|a| *a != block::beacon_address()).collect();
    let a = if cs.is_empty() { return None } else { s.pick(&cs) };
    let honest = block::exec_block(b).ok()?;
    let kind = match s.below(4) {
        0 => {
            // another code under the same hash
            let c = &mut f.pre.get_mut(&a).unwrap().code;
            let n = c.len();
            match s.below(4) {
                0 => c[s.below(n)] ^= 1 << s.below(8),
                1 => {
                    c.truncate(s.below(n));
                }
                2 => c.push(0),
                _ => *c = vec![0x60, 0x01, 0x5f, 0x55, 0x00],
            }
            "forged code"
        }
        1 => {
            let st = &mut f.pre.get_mut(&a).unwrap().storage;
            let k = U256::from(s.below(5));
            let v = st.get(&k).copied().unwrap_or_default();
            st.insert(k, v.overflowing_add(1.into()).0.max(1.into()));
            "forged slot"
        }
        2 => {
            let ks = keys();
            f.pre.get_mut(&ks[s.below(2)].1)?.balance += 5.into();
            "forged balance"
        }
        _ => {
            let ks = keys();
            f.pre.get_mut(&ks[s.below(2)].1)?.nonce += 1;
            "forged nonce"
        }
    };
    let fo = match kind {
        "forged nonce" => {
            let k = f.pre.iter().find(|(a, x)| b.pre[a].nonce != x.nonce).map(|x| *x.0)?;
            let sender = keys().iter().find(|x| x.1 == k)?.0;
            for t in f.txs.iter_mut().filter(|t| t.key == sender) {
                t.nonce = t.nonce + 1;
            }
            block::exec_block(&f).ok()?
        }
        _ => block::exec_block(&f).ok()?,
    };
    if fo.txs.iter().any(|t| t.steps > 6000) || fo.txs.len() < to {
        return None;
    }
    let (hr, fr) = (block::state_root(&honest.end), block::state_root(&fo.end));
    if hr == fr && kind != "forged code" {
        return None;
    }
    let mut x = block::inputs(&f, &fo, from, to, Witness::Full);
    // the true state trie; tries and code of the forged one beside it
    x.tries.state_trie = block::to_trie(&block::state_map(&b.pre));
    if kind == "forged code" {
        // believing it means the account keeps its code hash
        let mut w = if to == fo.txs.len() { fo.end.clone() } else if to == 0 { fo.start.clone() } else { fo.txs[to - 1].world.clone() };
        let old = b.pre[&a].code.clone();
        let forged = f.pre[&a].code.clone();
        let touched = honest.txs.iter().any(|t| t.seen_addr.contains(&a));
        if !touched {
            return None;
        }
        for y in w.values_mut() {
            if y.code == forged {
                y.code = old.clone();
            }
        }
        x.trie_roots_after.state_root = block::state_root(&w);
        x.contract_code.remove(&keccak(&forged));
        x.contract_code.insert(keccak(&old), forged);
        // the same outcome is no lie
        let honest_inp = block::inputs(b, &honest, from, to, Witness::Full);
        if honest_inp.trie_roots_after == x.trie_roots_after && honest_inp.gas_used_after == x.gas_used_after {
            return None;
        }
    } else if kind == "forged slot" {
        let only: BTreeMap<_, _> = x.tries.storage_tries.iter().map(|(h, _)| (*h, ())).collect();
        if !only.contains_key(&keccak(a.as_bytes())) {
            return None;
        }
    }
    Some((kind, x))
}
