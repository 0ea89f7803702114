//! C01: programs whose every intermediate value becomes visible in a log.
use std::collections::BTreeMap;

use ethereum_types::{Address, H256, U256};

use super::asm::Asm;
use super::engine::ether;
use crate::fw::Src;
use crate::refevm::block::Block;
use crate::refevm::evm::Account;
use crate::refevm::tx::{keys, Tx};

pub const T: u64 = 0x1000;
pub const W: u64 = 0x2000;
pub const X: u64 = 0x3000;
pub fn at(x: u64) -> Address {
    Address::from_low_u64_be(x)
}

/// Where results go; below is scratch memory.
const RES: usize = 0x400;

/// An operand: boundary words, or related to a previous operand.
pub fn operand(s: &mut Src, prev: &[U256]) -> U256 {
    if !prev.is_empty() && s.chance(1, 4) {
        let p = s.pick(prev);
        match s.below(6) {
            0 => p,
            1 => p.overflowing_add(1.into()).0,
            2 => p.overflowing_sub(1.into()).0,
            3 => (!p).overflowing_add(1.into()).0,
            4 => !p,
            _ => p >> s.below(256),
        }
    } else {
        s.word()
    }
}

fn push_any(s: &mut Src, a: &mut Asm, v: U256) {
    let min = (v.bits() + 7) / 8;
    if s.chance(1, 8) {
        let n = s.range(min, 32);
        a.pushn(v, n);
    } else {
        a.push(v);
    }
}

fn off(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.below(0x40),
        1 => s.below(0x200),
        2 => RES - 40 + s.below(40),
        _ => 32 * s.below(0x18),
    }
}
fn len(s: &mut Src) -> usize {
    match s.below(5) {
        0 => s.below(4),
        1 => s.range(28, 36),
        2 => s.below(140),
        3 => 32 * s.below(6),
        _ => s.below(300),
    }
}
/// A source offset for zero-extending copies: may lie far out of range.
fn src_off(s: &mut Src, real: usize) -> U256 {
    match s.below(6) {
        0 => U256::from(s.below(real + 1)),
        1 => U256::from(real.saturating_sub(s.below(33))),
        2 => U256::from(real + s.below(40)),
        3 => s.word(),
        4 => U256::from(u32::MAX) - 3 + U256::from(s.below(8)),
        _ => U256::from(s.below(64)),
    }
}

pub struct Ctx {
    pub calldata: usize,
    pub number: U256,
    pub addrs: Vec<Address>,
    /// No state writes, no logs.
    pub is_static: bool,
    pub n: usize,
}

/// Emits one snippet that leaves one word on the stack.
fn snippet(s: &mut Src, a: &mut Asm, c: &Ctx, prev: &mut Vec<U256>) {
    match s.weighted(&[14, 3, 6, 3, 5, 6, 5, 5, 4, 3, 4, 4, 2, 3]) {
        0 => {
            let op = s.pick(&[
                0x01u8, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18,
                0x19, 0x1a, 0x1b, 0x1c, 0x1d,
            ]);
            let x = operand(s, prev);
            let mut p2 = prev.clone();
            p2.push(x);
            let y = operand(s, &p2);
            p2.push(y);
            let z = operand(s, &p2);
            let (x, y) = match op {
                0x1a | 0x0b => (if s.chance(1, 5) { x } else { U256::from(s.below(35)) }, y),
                0x1b..=0x1d => (if s.chance(1, 5) { x } else { U256::from(s.below(260)) }, y),
                0x0a => (x, if s.chance(1, 4) { y } else { U256::from(s.below(70)) }),
                _ => (x, y),
            };
            *prev = p2;
            match op {
                0x08 | 0x09 => {
                    push_any(s, a, z);
                    push_any(s, a, y);
                    push_any(s, a, x);
                }
                0x15 | 0x19 => push_any(s, a, x),
                _ => {
                    push_any(s, a, y);
                    push_any(s, a, x);
                }
            }
            a.op(op);
        }
        1 => {
            // chain on earlier results
            let n = c.n.max(1);
            let (i, j) = (s.below(n), s.below(n));
            a.push(RES + 32 * i).op(0x51).push(RES + 32 * j).op(0x51);
            let op = s.pick(&[0x03u8, 0x01, 0x02, 0x04, 0x05, 0x06, 0x07, 0x10, 0x12, 0x16, 0x1b, 0x1c, 0x1d, 0x0b]);
            a.op(op);
        }
        2 => {
            let v = s.word();
            match s.below(3) {
                0 => {
                    a.push(v).push(off(s)).op(0x52);
                }
                1 => {
                    a.push(v).push(off(s)).op(0x53);
                }
                _ => {
                    // MCOPY within memory, overlapping or expanding
                    let (n, src, dst) = (len(s), off(s), off(s));
                    let src = if s.chance(1, 3) { dst.saturating_sub(s.below(40)) } else { src };
                    if dst + n < RES {
                        a.push(n).push(src).push(dst).op(0x5e);
                    } else {
                        a.push(n.min(RES - dst)).push(src).push(dst).op(0x5e);
                    }
                }
            }
            a.push(off(s)).op(0x51);
        }
        3 => {
            let n = len(s);
            let o = if n == 0 { s.word() } else { off(s).into() };
            a.push(n).push(o).op(0x20);
        }
        4 => match s.below(3) {
            0 => {
                a.push(src_off(s, c.calldata)).op(0x35);
            }
            1 => {
                a.op(0x36);
            }
            _ => {
                let dst = off(s);
                let n = len(s).min(RES - dst);
                a.push(n).push(src_off(s, c.calldata)).push(dst).op(0x37);
                a.push(dst + s.below(n + 1)).op(0x51);
            }
        },
        5 => {
            let ad = s.pick(&c.addrs);
            match s.below(6) {
                0 => {
                    a.op(0x38);
                }
                1 => {
                    let dst = off(s);
                    let n = len(s).min(RES - dst);
                    a.push(n).push(src_off(s, 600)).push(dst).op(0x39);
                    a.push(dst).op(0x51);
                }
                2 => {
                    a.addr(ad).op(0x3b);
                }
                3 => {
                    a.addr(ad).op(0x3f);
                }
                4 => {
                    let dst = off(s);
                    let n = len(s).min(RES - dst);
                    a.push(n).push(src_off(s, 40)).push(dst).addr(ad).op(0x3c);
                    a.push(dst).op(0x51);
                }
                _ => {
                    // dirty upper bytes of an address are ignored
                    let d = U256::from_big_endian(ad.as_bytes()) | (s.word() << 160);
                    a.push(d).op(s.pick(&[0x31u8, 0x3b, 0x3f]));
                }
            }
        }
        6 => {
            let op = s.pick(&[
                0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a, 0x5f,
            ]);
            a.op(op);
        }
        7 => match s.below(4) {
            0 => {
                let d = s.below(260);
                let n = if s.chance(1, 5) {
                    s.word()
                } else {
                    c.number.overflowing_sub(U256::from(d)).0.overflowing_add(U256::from(s.below(3))).0
                };
                a.push(n).op(0x40);
            }
            1 => {
                let i = if s.chance(1, 4) { s.word() } else { U256::from(s.below(8)) };
                a.push(i).op(0x49);
            }
            2 => {
                a.addr(s.pick(&c.addrs)).op(0x31);
            }
            _ => {
                a.op(0x47);
            }
        },
        8 => {
            // a random DUP/SWAP dance on a known number of words, then fold
            let k = s.range(2, 18);
            for i in 0..k {
                a.push(U256::from(i * 7 + 3) + (U256::from(i) << (8 * i)));
            }
            let mut d = k;
            for _ in 0..s.range(1, 8) {
                if s.bool() {
                    let n = s.range(1, d.min(16));
                    a.op(0x7f + n as u8);
                    d += 1;
                } else if d >= 2 {
                    let n = s.range(1, (d - 1).min(16));
                    a.op(0x8f + n as u8);
                }
            }
            for _ in 1..d {
                // acc = acc * K + x
                a.push(U256::from(0x1_0001_0003u64)).op(0x02).op(0x01);
            }
        }
        9 => {
            // return data of a callee
            let n = len(s);
            let target = if s.chance(1, 3) { at(X) } else { at(4) };
            a.push(0).push(0).push(n).push(off(s));
            if c.is_static || s.bool() {
                a.addr(target).push(50_000).op(0xfa);
            } else {
                a.ops(&a.c.clone()[..0]);
                // value 0 CALL: out_len out_off in_len in_off value addr gas
                a.push(0).addr(target).push(50_000).op(0xf1);
            }
            match s.below(3) {
                0 => {
                    a.op(0x3d).op(0x01);
                }
                1 => {
                    // copy all of it
                    let dst = off(s).min(RES - 340);
                    a.op(0x3d).push(0).push(dst).op(0x3e);
                    a.push(dst).op(0x51).op(0x01);
                }
                _ => {
                    a.op(0x3d).op(0x3d).push(0).op(0x03).op(0x01).op(0x18);
                }
            }
        }
        10 => {
            let k = match s.below(3) {
                0 => U256::from(s.below(4)),
                1 => s.word(),
                _ => U256::from(s.below(2)),
            };
            let t = s.bool();
            if !c.is_static && s.chance(2, 3) {
                let v = s.word();
                a.push(v).push(k).op(if t { 0x5d } else { 0x55 });
            }
            let k2 = if s.bool() { k } else { U256::from(s.below(4)) };
            a.push(k2).op(if t { 0x5c } else { 0x54 });
        }
        11 => {
            let l = a.label();
            let l2 = a.label();
            if s.bool() {
                // unconditional, over garbage
                a.push_label(l).op(0x56);
                let n = s.below(6);
                let g = s.bytes(n);
                a.ops(&g);
                // make sure trailing push data does not hide the target
                a.ops(&[0; 32]);
                a.place(l).push(1);
            } else {
                let w = operand(s, prev);
                a.push(w).push_label(l).op(0x57);
                a.push(2).push_label(l2).op(0x56);
                a.place(l).push(3);
                a.place(l2);
            }
        }
        12 => {
            a.op(s.pick(&[0x58u8, 0x59, 0x5a]));
        }
        _ => {
            let n = s.below(33);
            let v = if n == 0 { U256::zero() } else { s.rand_u256() >> (256 - 8 * n) };
            a.pushn(v, n);
        }
    }
}

/// The program: snippets, then everything is logged / returned.
pub fn program(s: &mut Src, c: &mut Ctx, max: usize) -> (Vec<u8>, usize) {
    let mut a = Asm::default();
    let n = s.range(1, max);
    let mut prev = vec![];
    for i in 0..n {
        c.n = i;
        snippet(s, &mut a, c, &mut prev);
        a.mstore(RES + 32 * i);
    }
    a.op(0x59).mstore(RES + 32 * n);
    // digest of the scratch memory
    a.push(RES).push(0).op(0x20).mstore(RES + 32 * n + 32);
    let total = 32 * n + 64;
    if !c.is_static {
        let topics = s.below(5);
        for t in 0..topics {
            if s.bool() {
                a.push(RES + 32 * s.below(n)).op(0x51);
            } else {
                a.push(t + 1);
            }
        }
        a.push(total).push(RES).op(0xa0 + topics as u8);
    }
    match s.below(3) {
        0 => {}
        1 => {
            a.op(0x00);
        }
        _ => {}
    }
    if c.is_static {
        a.push(total).push(RES).op(0xf3);
    }
    (a.finish(), n)
}

pub fn gen(s: &mut Src, max: usize) -> (Block, usize) {
    let mut b = Block::basic();
    env(s, &mut b);
    let (key, from) = keys()[0];
    b.pre.insert(from, Account { nonce: s.below(3) as u64, balance: ether(1000), ..Default::default() });
    let nonce = b.pre[&from].nonce;
    // an echo contract: returns (or reverts with) its call data reversed in halves
    let mut x = Asm::default();
    x.op(0x36).push(0).push(0).op(0x37);
    x.op(0x36).push(0).op(if s.chance(1, 4) { 0xfd } else { 0xf3 });
    b.pre.insert(at(X), Account { nonce: 1, balance: s.word() >> 64, code: x.finish(), ..Default::default() });
    let mut addrs = vec![at(T), at(X), from, b.coinbase, at(1), at(9), at(0x9999), Address::repeat_byte(0xee)];
    if s.bool() {
        // code without end: push data cut off
        let n = s.range(1, 70);
        let c = s.bytes(n);
        b.pre.insert(at(0x4000), Account { nonce: 1, balance: s.word() >> 100, code: c, ..Default::default() });
        addrs.push(at(0x4000));
    }
    if s.chance(1, 4) {
        b.pre.insert(Address::repeat_byte(0xee), Account { balance: (s.word() >> 100) + 1, ..Default::default() });
    }
    let kind = s.weighted(&[6, 2, 1, 1, 1, 1]);
    let nd = match s.below(4) {
        0 => 0,
        1 => s.below(70),
        _ => s.below(200),
    };
    let data = s.bytes(nd);
    let mut c = Ctx { calldata: nd, number: b.number, addrs, is_static: kind == 5, n: 0 };
    let (code, n) = program(s, &mut c, max);
    let mut storage = BTreeMap::new();
    for k in 0..s.below(4) {
        let v = s.word();
        if !v.is_zero() {
            storage.insert(U256::from(k), v);
        }
    }
    let mut tx = Tx::legacy(key);
    tx.nonce = nonce.into();
    fee(s, &mut tx, &b);
    tx.gas = 3_000_000.into();
    tx.data = data;
    tx.value = if s.bool() { 0.into() } else { s.word() >> 200 };
    match kind {
        1 => {
            tx.to = None;
            tx.data = code;
            if tx.ty == 3 {
                tx.ty = 2;
                tx.blob_hashes.clear();
            }
        }
        0 => {
            b.pre.insert(at(T), Account { nonce: 1, balance: s.word() >> 60, code, storage });
            tx.to = Some(at(T));
        }
        _ => {
            b.pre.insert(at(T), Account { nonce: 1, balance: s.word() >> 60, code, storage: storage.clone() });
            let mut w = Asm::default();
            w.op(0x36).push(0).push(0).op(0x37);
            w.push(0).push(0).op(0x36).push(0);
            if kind < 4 {
                w.push(s.below(3));
            }
            w.addr(at(T)).push(U256::MAX >> s.below(250));
            w.op([0, 0, 0xf1, 0xf2, 0xf4, 0xfa][kind]);
            w.op(0x3d).push(0).push(32).op(0x3e);
            w.mstore(0).op(0x3d).push(32).op(0x01).push(0).op(0xa0);
            b.pre.insert(at(W), Account { nonce: 1, balance: 5.into(), code: w.finish(), storage });
            tx.to = Some(at(W));
        }
    }
    b.txs.push(tx);
    (b, n)
}

/// Block environment.
pub fn env(s: &mut Src, b: &mut Block) {
    if s.chance(1, 3) {
        return;
    }
    b.coinbase = s.address();
    b.timestamp = U256::from(s.range(1, 2_000_000_000));
    b.number = match s.below(4) {
        0 => U256::from(s.range(1, 300)),
        1 => U256::from(s.range(255, 258)),
        _ => U256::from(s.range(1, 4_000_000_000)),
    };
    b.prevrandao = s.h256();
    b.gas_limit = U256::from(s.range(10_000_000, 4_000_000_000));
    b.base_fee = U256::from(s.below(100));
    b.excess_blob_gas = U256::from(s.below(40_000_000));
    if s.bool() {
        b.parent_beacon_root = s.h256();
    }
    let seed = s.h256();
    b.prev_hashes = (0..256u64).map(|i| keccak_hash::keccak([seed.as_bytes(), &i.to_be_bytes()].concat())).collect();
    b.cur_hash = s.h256();
}

/// Transaction type and fees (always valid).
pub fn fee(s: &mut Src, tx: &mut Tx, b: &Block) {
    tx.ty = s.weighted(&[5, 2, 4, 2]) as u8;
    tx.chain_id = Some(b.chain_id);
    if tx.ty == 0 && s.bool() {
        tx.chain_id = None;
    }
    tx.max_fee = b.base_fee + U256::from(s.below(50));
    tx.max_prio = U256::from(s.below(tx.max_fee.as_usize() + 1));
    if tx.ty < 2 {
        tx.max_prio = tx.max_fee;
    }
    if tx.ty > 0 {
        for _ in 0..s.below(3) {
            let ks = (0..s.below(3)).map(|_| U256::from(s.below(3))).collect();
            let ad = s.pick(&[at(T), at(X), at(W), at(0x9999), at(4)]);
            tx.access.push((ad, ks));
        }
    }
    if tx.ty == 3 {
        let n = s.range(1, 6);
        for _ in 0..n {
            let mut h = s.h256();
            h.0[0] = 1;
            tx.blob_hashes.push(h);
        }
        tx.max_blob_fee = b.blob_base_fee() + U256::from(s.below(10));
    }
}

pub fn some_h256(x: u64) -> H256 {
    H256::from_low_u64_be(x)
}
