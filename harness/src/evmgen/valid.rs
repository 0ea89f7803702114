//! C05: transactions on and next to every validity bound.
use std::collections::BTreeMap;

use ethereum_types::{Address, H256, U256, U512};

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env};
use crate::fw::Src;
use crate::refevm::block::{self, Block, BlockOut, Receipt, TxOut};
use crate::refevm::evm::{Account, Halt, World};
use crate::refevm::tx::{self, keys, SigTweak, Tx};

/// A contract that logs and stores what it sees of the transaction.
fn observer(s: &mut Src, sender: Address, coinbase: Address) -> Vec<u8> {
    let mut a = Asm::default();
    let mut n = 0;
    for _ in 0..s.range(2, 8) {
        match s.below(9) {
            0 => a.op(0x32),
            1 => a.op(0x3a),
            2 => a.op(0x34),
            3 => a.addr(sender).op(0x31),
            4 => a.push(s.below(3)).op(0x49),
            5 => a.push(s.below(4)).op(0x54),
            6 => a.op(0x5a),
            7 => a.addr(coinbase).op(0x31),
            _ => a.addr(at(0x71 + s.below(3) as u64)).op(0x3b),
        };
        a.mstore(32 * n);
        n += 1;
    }
    // clearing storage earns refunds
    for i in 0..s.below(3) {
        a.push(s.below(2)).push(i).op(0x55);
    }
    a.push(32 * n).push(0).op(0xa0);
    match s.below(8) {
        0 => a.push(0).push(0).op(0xfd),
        1 => a.op(0xfe),
        _ => a.op(0x00),
    };
    a.finish()
}

fn data(s: &mut Src) -> Vec<u8> {
    let n = match s.below(6) {
        0 | 1 => 0,
        2 => 1,
        3 => s.range(50, 60),
        4 => s.range(250, 260),
        _ => s.below(120),
    };
    let mut d = s.bytes(n);
    if s.bool() {
        for x in d.iter_mut() {
            if *x & 1 == 0 {
                *x = 0;
            }
        }
    }
    d
}

pub struct Made {
    pub b: Block,
    /// Which bounds were approached.
    pub dims: Vec<&'static str>,
}

fn valid_tx(s: &mut Src, b: &Block, who: usize, nonce: u64) -> Tx {
    let ks = keys();
    let mut t = Tx::legacy(ks[who].0);
    t.ty = s.weighted(&[3, 3, 4, 4]) as u8;
    t.chain_id = Some(b.chain_id);
    if t.ty == 0 && s.bool() {
        t.chain_id = None;
    }
    t.nonce = nonce.into();
    t.max_fee = b.base_fee + if s.chance(1, 4) { 0.into() } else { s.word() >> s.range(200, 255) };
    t.max_prio = match s.below(4) {
        0 => 0.into(),
        1 => t.max_fee,
        2 => t.max_fee - b.base_fee,
        _ => U256::from(s.below(1000)).min(t.max_fee),
    };
    if t.ty < 2 {
        t.max_prio = t.max_fee;
    }
    t.value = match s.below(3) {
        0 => 0.into(),
        1 => U256::from(s.below(1000)),
        _ => s.word() >> s.range(160, 200),
    };
    t.data = data(s);
    t.to = match s.weighted(&[3, 5, 2, 1]) {
        0 => Some(ks[4].1),
        1 => Some(at(0x70)),
        2 if t.ty != 3 => {
            // init code: a few plain shapes, mostly returning nothing
            if s.bool() {
                let mut a = Asm::default();
                a.push(s.below(40)).push(0).op(if s.chance(1, 5) { 0xfd } else { 0xf3 });
                t.data = a.finish();
            }
            None
        }
        _ => Some(s.pick(&[at(4), at(0x9999), b.coinbase, ks[who].1])),
    };
    if t.ty > 0 {
        for _ in 0..s.below(4) {
            let ks2 = (0..s.below(4)).map(|_| if s.chance(1, 6) { s.word() } else { U256::from(s.below(4)) }).collect();
            let ad = s.pick(&[at(0x70), at(0x71), at(0x72), at(0x9999), ks[who].1, b.coinbase, at(4)]);
            t.access.push((ad, ks2));
        }
    }
    if t.ty == 3 {
        for _ in 0..s.range(1, 3) {
            let mut h = s.h256();
            h.0[0] = 1;
            t.blob_hashes.push(h);
        }
        t.max_blob_fee = b.blob_base_fee() + if s.bool() { 0.into() } else { s.word() >> s.range(200, 255) };
    }
    t.gas = U256::from(t.intrinsic()) + U256::from(s.pick(&[0u64, 1, 30_000, 200_000, 200_000, 200_000]));
    t
}

fn cost(t: &Tx) -> U512 {
    U512::from(t.gas) * U512::from(t.max_fee)
        + U512::from(t.value)
        + U512::from(131072 * t.blob_hashes.len()) * U512::from(t.max_blob_fee)
}

/// One transaction moved next to one bound of validity; perhaps a valid one
/// before it.
pub fn gen(s: &mut Src) -> Made {
    let mut b = Block::basic();
    env(s, &mut b);
    if s.chance(1, 3) {
        b.chain_id = U256::from(s.pick(&[1u64, 2, 5, 137, 11155111, 0x7fff_ffff]));
    }
    if s.chance(1, 3) {
        b.base_fee = U256::from(s.pick(&[0u64, 1, 7, 1_000_000_000, 0xffff_ffff_ffff]));
    }
    let ks = keys();
    let who = s.below(2);
    let me = ks[who].1;
    let code = observer(s, me, b.coinbase);
    let storage: BTreeMap<U256, U256> = (0..s.below(4)).map(|k| (U256::from(k), U256::from(s.range(1, 9)))).collect();
    b.pre.insert(at(0x70), Account { nonce: 1, balance: s.word() >> 200, code, storage });
    b.pre.insert(at(0x71), Account { nonce: 1, balance: 0.into(), code: vec![0], ..Default::default() });
    for i in 0..2 {
        b.pre.insert(ks[i].1, Account { nonce: s.pick(&[0u64, 1, 127, 128, 300, 1 << 33]), balance: ether(1000), ..Default::default() });
    }
    let mut dims = vec![];
    let mut nonce = b.pre[&me].nonce;
    if s.chance(1, 3) {
        // an ordinary first transaction
        let w1 = s.below(2);
        let t = valid_tx(s, &b, w1, b.pre[&ks[w1].1].nonce);
        if w1 == who {
            nonce += 1;
        }
        let need = cost(&t);
        if need < U512::from(U256::MAX >> 2) {
            b.pre.get_mut(&ks[w1].1).unwrap().balance = U256::try_from(need).unwrap() * 2 + ether(1);
        }
        b.txs.push(t);
        dims.push("second");
    }
    let mut t = valid_tx(s, &b, who, nonce);
    let mut exact_balance = s.chance(1, 4);
    let mut slack: i8 = if exact_balance { s.pick(&[0, 0, -1, 1]) } else { 0 };
    let off = s.below(2); // 0: on the bound, 1: past it
    let d = s.below(20);
    match d {
        0 => {
            dims.push("nonce low");
            t.nonce = U256::from(nonce).saturating_sub(off.into());
        }
        1 => {
            dims.push("nonce high");
            t.nonce = t.nonce + s.pick(&[1u64, 256, 1 << 63]);
        }
        2 => {
            dims.push("intrinsic gas");
            t.gas = U256::from(t.intrinsic() - off as u64);
            if off == 1 && s.bool() {
                t.gas = U256::from(s.range(0, t.intrinsic() as usize - 1));
            }
        }
        3 => {
            dims.push("block gas limit");
            t.gas = t.gas + U256::from(s.below(1000));
            b.gas_limit = t.gas - U256::from(off);
        }
        4 => {
            dims.push("block gas left");
            // resolved below, once the first transaction's gas is known
        }
        5 => {
            dims.push("base fee");
            b.base_fee = b.base_fee + 1;
            t.max_fee = b.base_fee - U256::from(off);
            t.max_prio = if t.ty < 2 { t.max_fee } else { U256::from(s.below(3)).min(t.max_fee) };
        }
        6 => {
            dims.push("priority cap");
            if t.ty < 2 {
                t.ty = 2;
            }
            t.chain_id = Some(b.chain_id);
            t.max_prio = t.max_fee + U256::from(off);
        }
        7 => {
            dims.push("chain id");
            t.chain_id = Some(match s.below(5) {
                0 => b.chain_id + 1,
                1 => 0.into(),
                2 => b.chain_id - 1,
                3 => b.chain_id + (U256::one() << 64),
                _ => b.chain_id,
            });
        }
        8 => {
            dims.push("sender code");
            if off == 1 {
                b.pre.get_mut(&me).unwrap().code = s.pick(&[vec![0u8], vec![0x5b], vec![0xfe, 1]]);
            }
        }
        9 => {
            dims.push("max nonce");
            let n = u64::MAX - 1 + off as u64;
            b.txs.clear();
            b.pre.get_mut(&me).unwrap().nonce = n;
            t.nonce = n.into();
            if t.to.is_none() {
                t.to = Some(at(0x70));
            }
        }
        10 => {
            dims.push("no blobs");
            t.ty = 3;
            t.chain_id = Some(b.chain_id);
            t.to = t.to.or(Some(at(0x70)));
            t.max_blob_fee = b.blob_base_fee();
            t.max_prio = t.max_prio.min(t.max_fee);
            t.blob_hashes = vec![H256([1; 32]); 1 - off];
        }
        11 => {
            dims.push("blob version");
            t.ty = 3;
            t.chain_id = Some(b.chain_id);
            t.to = t.to.or(Some(at(0x70)));
            t.max_blob_fee = b.blob_base_fee();
            let mut h = s.h256();
            h.0[0] = s.pick(&[1u8, 0, 2, 0x81]);
            let at = s.below(t.blob_hashes.len() + 1);
            t.blob_hashes.insert(at, h);
        }
        12 => {
            dims.push("blob fee cap");
            t.ty = 3;
            t.chain_id = Some(b.chain_id);
            t.to = t.to.or(Some(at(0x70)));
            b.excess_blob_gas = U256::from(s.range(3_000_000, 60_000_000));
            t.max_blob_fee = b.blob_base_fee() - U256::from(off);
            if t.blob_hashes.is_empty() {
                t.blob_hashes.push(H256([1; 32]));
            }
        }
        13 => {
            dims.push("blob creation");
            t.ty = 3;
            t.chain_id = Some(b.chain_id);
            t.max_blob_fee = b.blob_base_fee();
            if t.blob_hashes.is_empty() {
                t.blob_hashes.push(H256([1; 32]));
            }
            if off == 1 {
                t.to = None;
                t.gas = t.gas + 60_000;
            } else {
                t.to = t.to.or(Some(at(0x70)));
            }
        }
        14 => {
            dims.push("signature");
            t.sig = match s.below(8) {
                0 => SigTweak::HighS,
                1 => SigTweak::FlipParity,
                2 => SigTweak::ZeroR,
                3 => SigTweak::ZeroS,
                4 => SigTweak::HugeR,
                5 => SigTweak::BadV(s.pick(&[2u64, 3, 4, 27, 28, 35])),
                6 => SigTweak::XorR(1 + s.below(255) as u8),
                _ => SigTweak::None,
            };
            if matches!(t.sig, SigTweak::FlipParity | SigTweak::XorR(_)) && s.bool() {
                // the sender it recovers to instead may be a funded account
                if let Some(a) = t.sign().sender {
                    let acc = Account { nonce, balance: ether(5), ..Default::default() };
                    b.pre.entry(a).or_insert(acc);
                }
            }
        }
        15 => {
            dims.push("cost overflow");
            let huge = if t.value.is_zero() { U256::MAX } else { s.word() };
            match s.below(4) {
                0 => {
                    // gas * fee just beyond 2^256
                    let mut q = U256::MAX / t.gas;
                    if off == 1 {
                        q = q + 1;
                    }
                    t.max_fee = q;
                    t.max_prio = if t.ty < 2 { q } else { U256::from(s.below(4)) };
                    t.value = 0.into();
                }
                1 => t.value = (U256::MAX - (t.gas * t.max_fee.min(U256::one() << 200))).saturating_add(off.into()),
                2 => {
                    t.max_fee = huge.max(b.base_fee);
                    t.max_prio = if t.ty < 2 { t.max_fee } else { U256::from(s.below(4)) };
                }
                _ => {
                    if t.ty == 3 {
                        t.max_blob_fee = (U256::MAX / U256::from(131072 * t.blob_hashes.len())) + U256::from(off);
                    } else {
                        t.value = U256::MAX - U256::from(s.below(3));
                    }
                }
            }
            if t.ty < 2 {
                t.max_prio = t.max_fee;
            }
            t.max_prio = t.max_prio.min(t.max_fee);
            exact_balance = s.bool();
            slack = s.pick(&[0, 0, -1]);
        }
        16 => {
            dims.push("init code size");
            if s.chance(1, 6) {
                t.ty = t.ty.min(2);
                t.blob_hashes.clear();
                t.max_prio = t.max_prio.min(t.max_fee);
                if t.ty < 2 {
                    t.max_prio = t.max_fee;
                }
                t.to = None;
                t.data = vec![0; 49152 + off];
                t.gas = U256::from(t.intrinsic() + 10_000);
            }
        }
        17 => {
            dims.push("blob balance");
            t.ty = 3;
            t.chain_id = Some(b.chain_id);
            t.to = t.to.or(Some(at(0x70)));
            if t.blob_hashes.is_empty() {
                t.blob_hashes.push(H256([1; 32]));
            }
            t.max_blob_fee = b.blob_base_fee() + U256::from(s.below(1000));
            exact_balance = true;
            slack = s.pick(&[0, -1]);
        }
        18 => {
            dims.push("fee cap balance");
            if t.ty < 2 {
                t.ty = 2;
                t.chain_id = Some(b.chain_id);
            }
            t.max_fee = t.max_fee + 1000;
            t.max_prio = U256::from(s.below(3)).min(t.max_fee);
            exact_balance = true;
            slack = s.pick(&[0, -1]);
        }
        _ => {
            dims.push("balance");
            exact_balance = true;
            slack = s.pick(&[0, -1, 1]);
        }
    }
    if t.ty != 3 {
        t.blob_hashes.clear();
    }
    // what the sender keeps once it paid for the first transaction
    let mut first_gas = U256::zero();
    let mut spent = U256::zero();
    if b.txs.len() == 1 {
        if let Ok(o) = block::exec_block(&b) {
            first_gas = o.txs[0].gas_used.into();
            spent = b.pre[&me].balance.saturating_sub(o.end.get(&me).map(|a| a.balance).unwrap_or_default());
        }
    }
    if d == 4 {
        b.gas_limit = (first_gas + t.gas - U256::from(off)).max(b.txs.first().map(|t| t.gas).unwrap_or_default());
    }
    if let Ok(need) = U256::try_from(cost(&t)) {
        let acc = b.pre.get_mut(&me).unwrap();
        if exact_balance {
            dims.push("exact balance");
            if let Some(x) = need.checked_add(spent) {
                acc.balance = match slack {
                    -1 => x.saturating_sub(1.into()),
                    1 => x.saturating_add(1.into()),
                    _ => x,
                };
            }
        } else {
            acc.balance = acc.balance.max(need.saturating_mul(2.into()).saturating_add(spent));
        }
    } else if s.bool() {
        // overflowing costs: rich senders, or senders that own the wrapped cost
        let acc = b.pre.get_mut(&me).unwrap();
        acc.balance = if s.bool() { U256::MAX >> 1 } else { ether(1000) };
    }
    b.txs.push(t);
    Made { b, dims }
}

/// The signer, when consensus rules on the signature's form are set aside.
pub fn lax_sender(t: &Tx) -> Address {
    match &t.sig {
        SigTweak::HighS | SigTweak::None => tx::key_address(&t.key),
        SigTweak::BadV(y) => {
            let mut u = t.clone();
            u.sig = SigTweak::None;
            if y % 2 == 0 {
                tx::key_address(&t.key)
            } else {
                u.sig = SigTweak::FlipParity;
                u.sign().sender.unwrap_or(tx::key_address(&t.key))
            }
        }
        _ => t.sign().sender.unwrap_or_else(|| tx::key_address(&t.key)),
    }
}

fn failed(t: &Tx, signed: tx::Signed, sender: Address, w: World, cum: u64, gas: u64) -> TxOut {
    TxOut {
        signed,
        sender,
        receipt: Receipt { ty: t.ty, status: false, cum_gas: cum + gas, logs: vec![] },
        gas_used: gas,
        refund: 0,
        halt: Halt::Fault("invalid"),
        output: vec![],
        world: w,
        stats: Default::default(),
        steps: 0,
        max_depth: 0,
        trace: vec![],
        seen_addr: Default::default(),
        seen_slot: Default::default(),
        created: Default::default(),
        destroyed: Default::default(),
        warm: Default::default(),
    }
}

/// Outcomes a block with an invalid last transaction must not be accepted for.
pub fn claims(b: &Block) -> Vec<(&'static str, BlockOut)> {
    let mut valid = b.clone();
    let t = valid.txs.pop().unwrap();
    let Ok(pre) = block::exec_block(&Block { withdrawals: vec![], ..valid.clone() }) else { return vec![] };
    let cum = pre.txs.last().map(|t| t.receipt.cum_gas).unwrap_or(0);
    let sender = lax_sender(&t);
    let world = pre.end.clone();
    let mut outs = vec![];
    if t.gas <= U256::from(u32::MAX) && t.to.map(|_| true).unwrap_or(t.gas >= U256::from(t.intrinsic())) {
        let plain = match t.to {
            None => false,
            Some(a) => world.get(&a).map(|x| x.code.is_empty()).unwrap_or(true),
        };
        if t.gas >= U256::from(t.intrinsic()) || plain {
            let o = crate::fw::guarded(|| block::run_tx(b, &world, &t, t.sign(), sender, cum));
            if let Ok(o) = o {
                if o.steps < 6000 {
                    outs.push(("executed", o));
                }
            }
        }
    }
    let gas = t.gas.min(U256::from(u32::MAX / 2)).as_u64();
    let price = b.base_fee.overflowing_add(t.prio_cap().min(t.max_fee.overflowing_sub(b.base_fee).0)).0;
    let mut charge = |name: &'static str, amount: U256, nonce: bool, used: u64| {
        let mut w = world.clone();
        let a = w.entry(sender).or_default();
        let old = (a.balance, a.nonce);
        a.balance = a.balance.overflowing_sub(amount).0;
        a.nonce = a.nonce.wrapping_add(nonce as u64);
        if old != (a.balance, a.nonce) || used > 0 {
            outs.push((name, failed(&t, t.sign(), sender, w, cum, used)));
        }
    };
    charge("nonce only", 0.into(), true, 0);
    charge("blob fee only", b.blob_base_fee() * U256::from(131072 * t.blob_hashes.len()), false, 0);
    charge("value only", t.value, false, 0);
    charge("all gas", price.overflowing_mul(t.gas).0, true, gas);
    charge("gas not paid", 0.into(), false, gas);
    outs.into_iter()
        .map(|(n, o)| {
            let mut txs: Vec<TxOut> = vec![];
            let end = o.world.clone();
            // (TxOut isn't Clone: run the valid prefix again)
            txs.extend(block::exec_block(&Block { withdrawals: vec![], ..valid.clone() }).unwrap().txs);
            txs.push(o);
            (n, BlockOut { start: pre.start.clone(), txs, end })
        })
        .collect()
}

/// Recording the transaction as failed, free and without effect.
pub fn no_effect(b: &Block) -> Option<BlockOut> {
    let mut valid = b.clone();
    let t = valid.txs.pop().unwrap();
    let mut pre = block::exec_block(&Block { withdrawals: vec![], ..valid.clone() }).ok()?;
    let cum = pre.txs.last().map(|t| t.receipt.cum_gas).unwrap_or(0);
    let sender = lax_sender(&t);
    let o = failed(&t, t.sign(), sender, pre.end.clone(), cum, 0);
    pre.txs.push(o);
    Some(pre)
}

