//! Blocks of every kind, for the properties about how they are run.
use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use super::{blocks, jumps, ops, pre, prog};
use crate::fw::Src;
use crate::refevm::block::{self, Block, BlockOut};
use crate::refevm::evm::Account;
use crate::refevm::tx::{keys, Tx};

/// Long runs of operations that need no help from the kernel, on shallow and
/// deep stacks, some of which overflow, underflow or run out of gas.
pub fn straight(s: &mut Src) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    b.pre.insert(ks[0].1, Account { balance: ether(100), ..Default::default() });
    let mut a = Asm::default();
    let mut h = 0usize;
    let n = s.range(50, 900);
    if s.chance(1, 5) {
        // almost full
        let l = s.range(1015, 1024);
        for _ in 0..l {
            a.op(0x5f);
        }
        h = l;
    }
    for _ in 0..n {
        match s.weighted(&[4, 8, 3, 2, 3, 2]) {
            1 if h >= 2 => {
                a.op(s.pick(&[0x01u8, 0x02, 0x03, 0x04, 0x06, 0x10, 0x11, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c]));
                h -= 1;
            }
            2 if h >= 1 => {
                a.op(s.pick(&[0x15u8, 0x19]));
            }
            3 if h >= 3 => {
                a.op(s.pick(&[0x08u8, 0x09]));
                h -= 2;
            }
            4 if h >= 1 && h < 1024 => {
                a.op(0x80 + s.below(h.min(16)) as u8);
                h += 1;
            }
            5 if h >= 2 => {
                a.op(0x90 + s.below((h - 1).min(16)) as u8);
            }
            _ if h < 1024 => {
                match s.below(5) {
                    0 => a.push(s.word()),
                    1 => a.op(0x5b).op(0x58),
                    2 => a.op(0x5a),
                    _ => a.push(s.below(300)),
                };
                h += 1;
            }
            _ => {
                a.op(0x50);
                h -= 1;
            }
        }
    }
    match s.weighted(&[6, 1, 1, 1]) {
        0 => {
            for i in 0..h.min(3) {
                a.push(i).op(0x55);
            }
            a.op(0x00);
        }
        1 => {
            for _ in 0..1025 - h {
                a.op(0x80);
            }
        }
        2 => {
            for _ in 0..h + 1 {
                a.op(0x50);
            }
        }
        _ => {
            a.op(0xfe);
        }
    }
    b.pre.insert(at(0xb0), Account { nonce: 1, code: a.finish(), ..Default::default() });
    let mut tx = Tx::legacy(ks[0].0);
    fee(s, &mut tx, &b);
    tx.gas = if s.chance(1, 5) { (21_000 + s.below(4000)).into() } else { 200_000.into() };
    tx.to = Some(at(0xb0));
    b.txs.push(tx);
    b
}

/// A valid block that doesn't run for too long, with what it does.
pub fn block(s: &mut Src, limit: u64) -> Option<(Block, BlockOut, &'static str)> {
    let (b, kind) = match s.weighted(&[3, 3, 2, 3, 1, 2, 1, 3]) {
        0 => {
            let n = s.range(1, 16);
            (ops::gen(s, n).0, "values")
        }
        1 => {
            let n = s.range(1, 3);
            (prog::gen(s, n), "worlds")
        }
        2 => (prog::chain(s), "chain"),
        3 => (blocks::gen(s), "block"),
        4 => (blocks::receipts(s), "receipts"),
        5 => {
            let p = s.pick(&[1u64, 2, 3, 4, 5, 6, 7, 9, 5, 9, 10]);
            (pre::gen(s, Some(p)).0, "precompiles")
        }
        6 => (jumps::gen(s).b, "jumps"),
        _ => (straight(s), "straight"),
    };
    let o = block::exec_block(&b).ok()?;
    if o.txs.iter().map(|t| t.steps).sum::<u64>() > limit {
        return None;
    }
    Some((b, o, kind))
}

/// A range of its transactions.
pub fn range(s: &mut Src, b: &Block) -> (usize, usize) {
    let n = b.txs.len();
    if n == 0 || s.chance(2, 3) {
        return (0, n);
    }
    let i = s.below(n);
    (i, i + 1 + s.below(n - i))
}
