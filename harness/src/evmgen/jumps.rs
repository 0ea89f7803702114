//! C20: jumps into arbitrary code.
use ethereum_types::U256;

use super::asm::Asm;
use super::engine::ether;
use super::ops::at;
use crate::fw::Src;
use crate::refevm::block::Block;
use crate::refevm::evm::{valid_jumpdests, Account};
use crate::refevm::tx::{keys, Tx};

/// A body dense in JUMPDEST bytes, inside and outside push data.
fn body(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    let n = match s.below(4) {
        0 => s.below(6),
        1 => s.below(40),
        2 => s.below(120),
        _ => s.below(260),
    };
    while v.len() < n {
        match s.weighted(&[6, 6, 3, 3, 1, 2]) {
            0 => v.extend([0x5b, 0x00]),
            1 => {
                // a push whose data is full of 0x5b and push opcodes
                let k = if s.chance(1, 3) { s.pick(&[1, 2, 31, 32]) } else { s.range(1, 32) };
                v.push(0x5f + k as u8);
                for _ in 0..k {
                    v.push(match s.below(4) {
                        0 => 0x00,
                        1 => 0x60 + s.below(32) as u8,
                        _ => 0x5b,
                    });
                }
            }
            2 => v.push(0x60 + s.below(32) as u8),
            3 => v.push(0x5b),
            4 => v.push(s.u8()),
            _ => {
                let k = s.range(1, 34);
                v.extend(vec![0x5b; k]);
            }
        }
    }
    if s.chance(1, 3) {
        // push data running off the end of the code
        let k = s.range(1, 32);
        v.push(0x5f + k as u8);
        for _ in 0..s.below(k) {
            v.push(0x5b);
        }
    }
    v
}

pub struct Made {
    pub b: Block,
    pub valid: usize,
    pub invalid: usize,
}

pub fn gen(s: &mut Src) -> Made {
    let mut b = Block::basic();
    let (key, me) = keys()[0];
    b.pre.insert(me, Account { balance: ether(100), ..Default::default() });
    // the target: jump where the call data says
    let mut t = Asm::default();
    let cond = s.below(3);
    if cond > 0 {
        t.push(32).op(0x35);
    }
    t.push(0).op(0x35);
    t.op(if cond > 0 { 0x57 } else { 0x56 });
    if cond > 0 {
        // not taken
        t.push(7).mstore(0).push(32).push(0).op(0xf3);
    }
    let mut code = t.finish();
    let start = code.len();
    code.extend(body(s));
    let ok = valid_jumpdests(&code);
    let len = code.len();
    let mut m = Asm::default();
    let (mut valid, mut invalid) = (0, 0);
    let all: Vec<usize> = ok.iter().copied().collect();
    let fives: Vec<usize> = (0..len).filter(|i| code[*i] == 0x5b).collect();
    for _ in 0..s.range(1, 14) {
        let x: U256 = match s.weighted(&[4, 5, 3, 2, 3]) {
            0 if !all.is_empty() => s.pick(&all).into(),
            1 if !fives.is_empty() => s.pick(&fives).into(),
            2 => s.below(len + 3).into(),
            3 => (len + s.below(40)).into(),
            4 => {
                let lo = if all.is_empty() { start } else { s.pick(&all) };
                match s.below(6) {
                    0 => U256::from(lo) + (U256::one() << 64),
                    1 => U256::from(lo) + (U256::one() << 32),
                    2 => U256::from(lo) + (U256::one() << 255),
                    3 => U256::from(u32::MAX) + U256::from(s.below(3)),
                    4 => U256::from(u64::MAX),
                    _ => s.word(),
                }
            }
            _ => U256::from(lo_or(&all, start)),
        };
        let c: U256 = match s.below(6) {
            0 => 0.into(),
            1 => U256::one() << 255,
            2 => U256::one() << 32,
            3 => U256::one() << 64,
            _ => 1.into(),
        };
        if x < U256::from(len) && ok.contains(&x.as_usize()) {
            valid += 1;
        } else {
            invalid += 1;
        }
        m.push(x).mstore(0).push(c).mstore(32);
        m.push(32).push(0).push(64).push(0).push(0).addr(at(0xb1)).push(20_000).op(0xf1);
        m.mstore(0).push(32).push(0).op(0xa0);
    }
    if s.chance(1, 4) {
        // the same as init code or in this very contract: jump at the end
        let x = s.below(m.c.len() + 4);
        m.push(x).op(0x56);
        m.op(0x5b);
    }
    b.pre.insert(at(0xa1), Account { nonce: 1, code: m.finish(), ..Default::default() });
    let mut tx = Tx::legacy(key);
    tx.gas = 2_000_000.into();
    let x = if all.is_empty() { 0.into() } else { U256::from(s.pick(&all)) };
    if s.chance(1, 12) {
        // long init code: jumps beyond the size of deployed code
        let pad = s.pick(&[0x5ff0usize, 0x6000, 0x7000, 0xbf00]);
        let mut c = vec![0x61, 0, 0, 0x56];
        c.resize(pad, s.pick(&[0u8, 0x5b, 0x01]));
        c.extend(body(s));
        c.truncate(0xc000);
        let ok: Vec<usize> = valid_jumpdests(&c).into_iter().filter(|x| *x + 300 > pad).collect();
        let x = if ok.is_empty() || s.chance(1, 3) { pad + s.below(40) } else { s.pick(&ok) };
        c[1] = (x >> 8) as u8;
        c[2] = x as u8;
        if valid_jumpdests(&c).contains(&x) {
            valid += 1;
        } else {
            invalid += 1;
        }
        tx.to = None;
        tx.data = c;
        tx.gas = 6_000_000.into();
    } else if s.chance(1, 6) {
        // init code runs the body itself
        let mut a = Asm::default();
        a.push(s.below(len + 4)).op(0x56);
        let mut c = a.finish();
        c.extend(&code);
        tx.to = None;
        tx.data = c;
    } else {
        tx.to = Some(at(0xa1));
        tx.data = crate::refevm::precompiles::be32(x).to_vec();
    }
    b.pre.insert(at(0xb1), Account { nonce: 1, code, ..Default::default() });
    b.txs.push(tx);
    Made { b, valid, invalid }
}

fn lo_or(all: &[usize], d: usize) -> usize {
    all.first().copied().unwrap_or(d)
}
