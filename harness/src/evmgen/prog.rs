//! C02: worlds of contracts that call, create, revert and destroy each other.
use ethereum_types::{Address, U256};

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use crate::fw::Src;
use crate::refevm::block::Block;
use crate::refevm::evm::{create2_address, create_address, Account};
use crate::refevm::tx::{keys, Tx};

/// Where a program keeps the address of the latest contract it created.
const MADE: usize = 0x80;

pub struct Gen {
    /// Addresses a program may talk to.
    pub pool: Vec<Address>,
    /// Init codes a program may deploy.
    pub inits: Vec<Vec<u8>>,
    pub runtimes: Vec<Vec<u8>>,
    pub max_actions: usize,
}

fn push_target(s: &mut Src, a: &mut Asm, g: &Gen) {
    if s.chance(1, 4) {
        a.push(MADE).op(0x51);
    } else {
        a.addr(s.pick(&g.pool));
    }
}

fn small(s: &mut Src) -> U256 {
    if s.chance(1, 10) {
        s.word()
    } else {
        U256::from(s.below(3))
    }
}

fn value(s: &mut Src) -> U256 {
    match s.weighted(&[6, 4, 2, 1, 1]) {
        0 => 0.into(),
        1 => 1.into(),
        2 => U256::from(s.below(2000)),
        3 => U256::from(1u64 << 40),
        _ => s.word(),
    }
}

fn gas_arg(s: &mut Src, a: &mut Asm) {
    match s.weighted(&[8, 1, 1, 1, 2, 2, 1]) {
        0 => {
            a.op(0x5a);
        }
        1 => {
            a.push(0);
        }
        2 => {
            a.push(s.range(0, 2400));
        }
        3 => {
            a.push(s.range(2300, 12_000));
        }
        4 => {
            a.push(s.range(20_000, 60_000));
        }
        5 => {
            a.push(200_000);
        }
        _ => {
            a.push(U256::MAX);
        }
    }
}

/// What to do with a status word on the stack.
fn consume(s: &mut Src, a: &mut Asm) {
    match s.below(4) {
        0 => {
            a.op(0x50);
        }
        1 => {
            a.mstore(0xa0).push(32).push(0xa0).op(0xa0);
        }
        2 => {
            a.push(s.below(3)).op(0x55);
        }
        _ => {
            // as a topic
            a.push(0).push(0).op(0xa1);
        }
    }
}

fn action(s: &mut Src, a: &mut Asm, g: &Gen, lvl: usize) {
    match s.weighted(&[4, 3, 3, 2, 12, 6, 3, 2, 2, 3, 2, 1]) {
        0 => {
            a.push(small(s)).push(small(s)).op(0x55);
        }
        1 => {
            a.push(small(s)).op(0x54);
            consume(s, a);
        }
        2 => {
            // transient storage; keys include addresses (of this contract too)
            let k = match s.below(4) {
                0 => {
                    a.push(small(s)).op(0x30).op(0x5d);
                    a.op(if s.bool() { 0x30 } else { 0x33 }).op(0x5c);
                    consume(s, a);
                    return;
                }
                1 => U256::from_big_endian(s.pick(&g.pool).as_bytes()),
                _ => small(s),
            };
            if s.chance(2, 3) {
                a.push(small(s)).push(k).op(0x5d);
            }
            a.push(if s.bool() { k } else { small(s) }).op(0x5c);
            consume(s, a);
        }
        3 => {
            let n = s.below(5);
            for i in 0..n {
                a.push(s.below(4) + i);
            }
            a.push(s.below(40)).push(0).op(0xa0 + n as u8);
        }
        4 => {
            // a call
            let kind = s.pick(&[0xf1u8, 0xf1, 0xf2, 0xf4, 0xfa]);
            a.push(s.below(4)).mstore(0);
            let (rl, ro) = (s.pick(&[0usize, 32, 3, 64]), s.pick(&[0x40usize, 0, 0x20]));
            a.push(rl).push(ro);
            a.push(s.pick(&[32usize, 32, 32, 0, 4, 64])).push(0);
            if kind == 0xf1 || kind == 0xf2 {
                a.push(value(s));
            }
            push_target(s, a, g);
            gas_arg(s, a);
            a.op(kind);
            consume(s, a);
            match s.below(6) {
                0 => {
                    a.op(0x3d);
                    consume(s, a);
                }
                1 => {
                    a.op(0x3d).push(0).push(0xc0).op(0x3e);
                    a.op(0x3d).push(0xc0).op(0xa0);
                }
                2 => {
                    a.push(s.below(34)).push(0).push(0xc0).op(0x3e);
                }
                3 => {
                    a.push(ro).op(0x51);
                    consume(s, a);
                }
                _ => {}
            }
        }
        5 => {
            if g.inits.is_empty() || lvl == 0 {
                a.op(0x47);
                consume(s, a);
                return;
            }
            let i = s.pick(&g.inits);
            let n = i.len();
            a.load_data(i, 0x100);
            let two = s.chance(2, 3);
            if two {
                a.push(s.below(2));
            }
            let n = if s.chance(1, 20) { s.below(n + 10) } else { n };
            a.push(n).push(0x100);
            a.push(value(s));
            a.op(if two { 0xf5 } else { 0xf0 });
            // keep the address (or zero)
            a.op(0x80).mstore(MADE);
            consume(s, a);
            if s.chance(1, 4) {
                a.op(0x3d);
                consume(s, a);
            }
        }
        6 => {
            push_target(s, a, g);
            a.op(s.pick(&[0x31u8, 0x3b, 0x3f]));
            consume(s, a);
        }
        7 => {
            a.op(s.pick(&[0x47u8, 0x30, 0x33, 0x34, 0x32, 0x59, 0x3d, 0x58, 0x5a]));
            consume(s, a);
        }
        8 => {
            // conditional on an earlier value: skip the next action
            let l = a.label();
            match s.below(3) {
                0 => {
                    a.push(small(s)).op(0x54);
                }
                1 => {
                    a.op(0x34);
                }
                _ => {
                    a.push(MADE).op(0x51);
                }
            }
            if s.bool() {
                a.op(0x15);
            }
            a.push_label(l).op(0x57);
            if s.bool() {
                terminator(s, a, g);
            } else {
                a.push(7).push(s.below(3)).op(0x55);
            }
            a.place(l);
        }
        9 => {
            // toggling writes of one slot: the refund rules
            let k = small(s);
            for _ in 0..s.range(2, 4) {
                a.push(s.below(3)).push(k).op(0x55);
            }
        }
        10 => {
            // call the contract just made
            a.push(s.below(4)).mstore(0);
            a.push(0).push(0).push(32).push(0).push(value(s)).push(MADE).op(0x51).op(0x5a).op(0xf1);
            consume(s, a);
        }
        _ => {
            a.push(small(s)).push(s.below(200)).op(0x52);
        }
    }
}

fn terminator(s: &mut Src, a: &mut Asm, g: &Gen) {
    match s.weighted(&[6, 3, 4, 5, 2, 1, 1]) {
        0 => {
            a.op(0x00);
        }
        1 => {
            a.push(s.pick(&[0usize, 32, 64, 7])).push(s.pick(&[0usize, 0x20, 0xc0])).op(0xf3);
        }
        2 => {
            a.push(s.pick(&[0usize, 32, 5])).push(0).op(0xfd);
        }
        3 => {
            match s.below(4) {
                0 => {
                    a.op(0x30);
                }
                1 => {
                    a.op(0x33);
                }
                _ => push_target(s, a, g),
            }
            a.op(0xff);
        }
        4 => {
            a.op(0xfe);
        }
        5 => {
            a.op(0x50);
        }
        _ => {
            a.push(s.below(3000)).op(0x56);
        }
    }
}

/// A contract with several behaviours, chosen by the first word of call data.
pub fn contract(s: &mut Src, g: &Gen, lvl: usize) -> Vec<u8> {
    let mut a = Asm::default();
    let nb = s.range(1, 3);
    let mut ls = vec![];
    for i in 1..nb {
        let l = a.label();
        a.push(0).op(0x35).push(i).op(0x14).push_label(l).op(0x57);
        ls.push(l);
    }
    for i in 0..nb {
        if i > 0 {
            a.place(ls[i - 1]);
        }
        for _ in 0..s.range(0, g.max_actions) {
            action(s, &mut a, g, lvl);
        }
        terminator(s, &mut a, g);
    }
    a.finish()
}

/// Init code: some actions, then returns a runtime code (or fails).
pub fn init(s: &mut Src, g: &Gen, lvl: usize) -> Vec<u8> {
    let mut a = Asm::default();
    for _ in 0..s.below(3) {
        action(s, &mut a, g, lvl);
    }
    match s.weighted(&[10, 2, 1, 1, 1, 1]) {
        0 => {
            let c = if g.runtimes.is_empty() { vec![] } else { s.pick(&g.runtimes) };
            let n = c.len();
            a.load_data(c, 0x200);
            a.push(n).push(0x200).op(0xf3);
        }
        1 => terminator(s, &mut a, g),
        2 => {
            // code starting with 0xEF
            let n = s.below(3);
            a.push(0xefu64 << 56 | 1).mstore(0).push(n).push(24).op(0xf3);
        }
        3 => {
            // around the size limit
            a.push(s.pick(&[0x5fff_usize, 0x6000, 0x6001])).push(0).op(0xf3);
        }
        4 => {
            a.push(s.below(40)).push(0).op(0xfd);
        }
        _ => {
            a.op(0x00);
        }
    }
    a.finish()
}

pub fn gen(s: &mut Src, ntx: usize) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    let mut pool = vec![at(0xa1), at(0xa2), at(0xa3), at(0xa4), ks[1].1, at(0xdead), b.coinbase, at(4), at(2), ks[0].1];
    let mut g = Gen { pool: pool.clone(), inits: vec![], runtimes: vec![vec![]], max_actions: 4 };
    for _ in 0..s.range(1, 3) {
        let r = contract(s, &g, 0);
        g.runtimes.push(r);
    }
    // a plain self-destructor
    let mut sd = Asm::default();
    push_target(s, &mut sd, &g);
    sd.op(0xff);
    g.runtimes.push(sd.finish());
    for i in 0..s.range(1, 4) {
        // later init codes may create the earlier ones
        let c = init(s, &g, i.min(1));
        g.inits.push(c);
    }
    // addresses that will be created
    let creators = [at(0xa1), at(0xa2), at(0xa3), at(0xa4)];
    let mut futures = vec![];
    for _ in 0..s.range(1, 4) {
        let c = s.pick(&creators);
        let f = if s.bool() {
            let i = s.pick(&g.inits);
            create2_address(c, s.below(2).into(), &i)
        } else {
            create_address(c, s.range(1, 3) as u64)
        };
        futures.push(f);
    }
    pool.extend(futures.iter());
    g.pool = pool;
    for c in creators {
        let code = contract(s, &g, 1);
        let mut acc = Account { nonce: 1, balance: U256::from(s.pick(&[0u64, 1, 1000, 1 << 41])), code, ..Default::default() };
        for k in 0..s.below(3) {
            acc.storage.insert(k.into(), U256::from(s.range(1, 3)));
        }
        b.pre.insert(c, acc);
    }
    for f in futures {
        match s.weighted(&[5, 2, 1, 1]) {
            0 => {}
            1 => {
                b.pre.insert(f, Account { balance: U256::from(s.range(1, 50)), ..Default::default() });
            }
            2 => {
                let code = g.runtimes.last().unwrap().clone();
                b.pre.insert(f, Account { nonce: 1, balance: U256::from(s.below(50)), code, ..Default::default() });
            }
            _ => {
                b.pre.insert(f, Account { nonce: 1, ..Default::default() });
            }
        }
    }
    for i in 0..2 {
        b.pre.insert(ks[i].1, Account { nonce: s.below(2) as u64, balance: ether(1000), ..Default::default() });
    }
    let mut nonces = [b.pre[&ks[0].1].nonce, b.pre[&ks[1].1].nonce];
    for _ in 0..ntx {
        let who = s.weighted(&[3, 1]);
        let mut tx = Tx::legacy(ks[who].0);
        tx.nonce = nonces[who].into();
        nonces[who] += 1;
        fee(s, &mut tx, &b);
        tx.gas = U256::from(s.range(200_000, 2_000_000));
        tx.value = match s.below(3) {
            0 => 0.into(),
            _ => U256::from(s.below(5000)),
        };
        if tx.ty != 3 && s.chance(1, 8) {
            tx.to = None;
            tx.data = s.pick(&g.inits);
            if s.chance(1, 6) {
                // creation onto an occupied address
                let a = create_address(ks[who].1, tx.nonce.as_u64());
                b.pre.insert(a, Account { nonce: s.below(2) as u64, balance: 3.into(), code: vec![0], ..Default::default() });
            }
        } else {
            tx.to = Some(s.pick(&creators));
            tx.data = crate::refevm::precompiles::be32(s.below(4).into()).to_vec();
        }
        b.txs.push(tx);
    }
    b
}

fn effect(s: &mut Src, a: &mut Asm, i: usize) {
    match s.weighted(&[4, 3, 3, 2, 2, 1, 1]) {
        0 => {
            a.push(s.range(1, 9)).push(s.below(3)).op(0x55);
        }
        1 => {
            a.push(s.range(1, 9)).push(s.below(3)).op(0x5d);
        }
        2 => {
            let n = s.below(5);
            for _ in 0..n {
                a.push(i + 1);
            }
            a.push(s.below(2)).push(0).op(0xa0 + n as u8);
        }
        3 => {
            // creates an account with empty code
            let two = s.bool();
            if two {
                a.push(i);
            }
            a.push(0).push(0).push(s.below(2)).op(if two { 0xf5 } else { 0xf0 }).op(0x50);
        }
        4 => {
            // sends money
            a.push(0).push(0).push(0).push(0).push(1).addr(s.pick(&[at(0xdead), at(0xb0), at(4), at(0xee)]));
            a.push(s.pick(&[0usize, 3000, 60_000])).op(s.pick(&[0xf1u8, 0xf1, 0xf2])).op(0x50);
        }
        5 => {
            a.op(s.pick(&[0x30u8, 0x33])).op(0x31).push(7).op(0x55);
        }
        _ => {
            a.push(s.below(3)).op(0x54).push(s.below(3)).op(0x5c).op(0x01).push(6).op(0x5d);
        }
    }
}

/// A chain of calls of every kind with one effect before and after each; the
/// statuses travel back as return data and end in the first contract's
/// storage, as do the effects it can see.
pub fn chain(s: &mut Src) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    b.pre.insert(ks[0].1, Account { balance: ether(100), ..Default::default() });
    let n = s.range(2, 5);
    let here = |i: usize| at(0xb0 + i as u64);
    for i in 0..n {
        let mut a = Asm::default();
        if s.chance(1, 3) || i == n - 1 {
            effect(s, &mut a, i);
        }
        if i + 1 < n {
            let kind = s.pick(&[0xf1u8, 0xf2, 0xf4, 0xfa]);
            a.push(32).push(0x40).push(0).push(0);
            if kind == 0xf1 || kind == 0xf2 {
                a.push(if s.chance(1, 3) { 1 } else { 0 });
            }
            a.addr(here(i + 1));
            if s.chance(1, 6) {
                a.push(s.pick(&[0usize, 700, 5_000, 25_000]));
            } else {
                a.op(0x5a);
            }
            a.op(kind);
            // 2 * (what the callee said) + its status
            a.push(0x40).op(0x51).push(1).op(0x1b).op(0x01).push(0x40).op(0x52);
            if s.chance(1, 3) {
                effect(s, &mut a, i);
            }
        }
        if i == 0 {
            a.push(0x40).op(0x51).push(0x77).op(0x55);
            for k in 0..3 {
                a.push(k).op(0x5c).push(0x78 + k).op(0x55);
            }
            for j in 1..n {
                a.addr(here(j)).op(0x31).push(0x80 + j).op(0x55);
            }
        } else {
            a.push(32).push(0x40);
        }
        match s.weighted(&[10, 2, 1, 1, 1]) {
            0 => a.op(if i == 0 { 0x00 } else { 0xf3 }),
            1 if i > 0 => a.op(0xfd),
            2 if i > 0 => a.op(0xfe),
            3 => a.addr(s.pick(&[at(0xdead), here(i), here(0)])).op(0xff),
            _ => a.op(0x00),
        };
        let mut acc = Account { nonce: 1, balance: U256::from(s.below(4)), code: a.finish(), ..Default::default() };
        for k in 0..3 {
            acc.storage.insert(k.into(), U256::from(s.range(1, 3)));
        }
        b.pre.insert(here(i), acc);
    }
    for i in 0..s.range(1, 2) {
        let mut tx = Tx::legacy(ks[0].0);
        tx.nonce = i.into();
        fee(s, &mut tx, &b);
        tx.gas = 1_500_000.into();
        tx.value = U256::from(s.below(2));
        tx.to = Some(here(0));
        b.txs.push(tx);
    }
    b
}
