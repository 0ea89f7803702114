//! C03: out-of-gas boundaries.
use ethereum_types::{Address, U256};

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use super::prog;
use crate::fw::Src;
use crate::refevm::block::{self, Block};
use crate::refevm::evm::{Account, Evm, Msg};
use crate::refevm::tx::{keys, Tx};

/// A random block whose last transaction gets a gas limit cut at a point of
/// its own execution.
pub fn cuts(s: &mut Src) -> Option<(Block, &'static str)> {
    let ntx = if s.chance(1, 4) { 2 } else { 1 };
    let mut b = prog::gen(s, ntx);
    for t in &mut b.txs {
        t.gas = U256::from(s.range(400_000, 3_000_000));
    }
    let o = block::exec_block(&b).ok()?;
    let t = o.txs.last().unwrap();
    let lim = b.txs.last().unwrap().gas.as_u64();
    let i0 = b.txs.last().unwrap().intrinsic();
    let before_refund = t.gas_used + t.refund;
    let tr = &t.trace;
    let (g, kind) = match s.weighted(&[3, 3, 2, 2, 1, 1, 2]) {
        0 if !tr.is_empty() => (lim - s.pick(tr).1, "no gas at an operation"),
        1 if !tr.is_empty() => (lim - s.pick(tr).1 - 1, "one short of an operation"),
        2 => (before_refund, "exactly what was used"),
        3 => (before_refund - 1, "one less than used"),
        4 => (t.gas_used, "used after refund"),
        5 => (i0 + s.below(3) as u64, "intrinsic"),
        _ if !tr.is_empty() => {
            let i = s.below(tr.len());
            (lim - tr[i].1 + s.below(300) as u64, "a few more")
        }
        _ => (before_refund + 1, "one more than used"),
    };
    b.txs.last_mut().unwrap().gas = g.max(i0).into();
    Some((b, kind))
}

fn k(s: &mut Src) -> usize {
    match s.below(5) {
        0 => 0,
        1 => s.below(4),
        2 => s.range(31, 34),
        3 => s.below(300),
        _ => s.pick(&[64usize, 1023, 1024, 724, 725, 4096, 20_000]),
    }
}

/// Storage is (slot, value); each target deals with its own slots.
fn target(s: &mut Src, a: &mut Asm, acc: &mut Account, other: Address) -> &'static str {
    match s.weighted(&[6, 2, 3, 7, 4, 2, 2, 3, 4, 2, 4, 3, 2, 2, 3]) {
        0 => {
            // SSTORE: every combination of original, current and new value
            let o = s.below(3);
            if o > 0 {
                acc.storage.insert(5.into(), o.into());
            }
            for _ in 0..s.range(1, 3) {
                a.push(s.below(3)).push(5).op(0x55);
            }
            "SSTORE"
        }
        1 => {
            let n = s.range(1, 2);
            for _ in 0..n {
                a.push(s.below(2)).op(0x54).op(0x50);
            }
            "SLOAD"
        }
        2 => {
            for _ in 0..s.range(1, 2) {
                if s.chance(1, 4) {
                    a.op(0x30);
                } else {
                    a.addr(other);
                }
                let o = s.pick(&[0x31u8, 0x3b, 0x3f]);
                a.op(o).op(0x50);
            }
            "account access"
        }
        3 => {
            let kind = s.pick(&[0xf1u8, 0xf1, 0xf2, 0xf4, 0xfa]);
            a.push(k(s)).push(k(s)).push(k(s)).push(k(s));
            if kind == 0xf1 || kind == 0xf2 {
                a.push(s.pick(&[0usize, 1, 1, 1000]));
            }
            match s.below(6) {
                0 => {
                    a.op(0x30);
                }
                1 => {
                    a.push(4);
                }
                _ => {
                    a.addr(other);
                }
            }
            a.push(s.pick(&[U256::from(0), 100.into(), 2300.into(), 10_000.into(), U256::MAX]));
            a.op(kind).op(0x50);
            "call"
        }
        4 => {
            let two = s.bool();
            let sd = s.chance(1, 6);
            let n = s.pick(&[0usize, 1, 31, 32, 33, 64, 100, 200]);
            if sd {
                a.op(0x30);
            }
            // init code: return m bytes of code
            let m = s.pick(&[0usize, 1, 32, 100]);
            let mut i = Asm::default();
            i.push(m).push(0).op(0xf3);
            let mut i = i.finish();
            i.resize(i.len().max(n), 0);
            let l = i.len();
            a.load_data(i, 0);
            if two {
                a.push(1);
            }
            a.push(if s.chance(1, 8) { 0xc001 } else { l }).push(0).push(s.below(2)).op(if two { 0xf5 } else { 0xf0 }).op(0x50);
            "create"
        }
        5 => {
            let e = s.word();
            a.push(e).push(s.word()).op(0x0a).op(0x50);
            "EXP"
        }
        6 => {
            a.push(k(s)).push(k(s)).op(0x20).op(0x50);
            "KECCAK256"
        }
        7 => {
            match s.below(5) {
                0 => a.push(k(s)).push(s.below(40)).push(k(s)).op(0x37),
                1 => a.push(k(s)).push(s.below(40)).push(k(s)).op(0x39),
                2 => {
                    let (x, y, z) = (k(s), s.below(40), k(s));
                    a.push(x).push(y).push(z).addr(other).op(0x3c)
                }
                3 => a.push(0).push(0).push(k(s)).op(0x3e),
                _ => a.push(k(s)).push(k(s)).push(k(s)).op(0x5e),
            };
            "copy"
        }
        8 => {
            let n = s.below(5);
            for i in 0..n {
                a.push(i);
            }
            a.push(k(s)).push(k(s)).op(0xa0 + n as u8);
            "LOG"
        }
        9 => {
            match s.below(3) {
                0 => a.push(k(s)).op(0x51).op(0x50),
                1 => a.push(1).push(k(s)).op(0x52),
                _ => a.push(1).push(k(s)).op(0x53),
            };
            "memory"
        }
        10 => {
            a.push(k(s)).push(k(s)).op(s.pick(&[0xf3u8, 0xfd]));
            "return"
        }
        11 => {
            match s.below(4) {
                0 => a.op(0x30),
                1 => a.op(0x32),
                _ => a.addr(other),
            };
            a.op(0xff);
            "SELFDESTRUCT"
        }
        12 => {
            a.push(1).push(1).op(0x5d).push(1).op(0x5c).op(0x50);
            "transient"
        }
        13 => {
            match s.below(5) {
                0 => a.op(0x5a).op(0x50),
                1 => a.push(0).op(0x40).op(0x50),
                2 => a.push(0).op(0x49).op(0x50),
                3 => a.op(0x4a).op(0x50),
                _ => {
                    let l = a.label();
                    a.push(1).push_label(l).op(0x57).place(l)
                }
            };
            "fixed"
        }
        _ => {
            let o = s.pick(&[
                (0x01u8, 2),
                (0x02, 2),
                (0x04, 2),
                (0x05, 2),
                (0x06, 2),
                (0x07, 2),
                (0x08, 3),
                (0x09, 3),
                (0x0b, 2),
                (0x12, 2),
                (0x13, 2),
                (0x15, 1),
                (0x19, 1),
                (0x1a, 2),
                (0x1b, 2),
                (0x1d, 2),
                (0x30, 0),
                (0x31, 1),
                (0x35, 1),
                (0x36, 0),
                (0x38, 0),
                (0x3a, 0),
                (0x3d, 0),
                (0x41, 0),
                (0x42, 0),
                (0x43, 0),
                (0x44, 0),
                (0x45, 0),
                (0x46, 0),
                (0x47, 0),
                (0x48, 0),
                (0x58, 0),
                (0x59, 0),
            ]);
            for _ in 0..o.1 {
                a.push(s.word());
            }
            a.op(o.0).op(0x50);
            "plain"
        }
    }
}

/// The least gas with which the call does not fault, if any below a limit.
fn need(b: &Block, me: Address, code: &[u8]) -> Option<u64> {
    let env = b.env();
    let run = |g: u64| {
        let mut e = Evm::new(&env, &b.pre);
        for i in 1..=10 {
            e.j.warm_addr.insert(at(i));
        }
        e.j.warm_addr.insert(me);
        e.j.warm_addr.insert(b.coinbase);
        let o = e.call(Msg {
            caller: at(0xa1),
            target: me,
            code_addr: me,
            code: code.to_vec(),
            data: vec![],
            value: 0.into(),
            transfer: true,
            gas: g,
            is_static: false,
            depth: 1,
            is_create: false,
        });
        !matches!(o.halt, crate::refevm::evm::Halt::Fault(_))
    };
    let (mut lo, mut hi) = (0u64, 200_000u64);
    if !run(hi) {
        return None;
    }
    while lo < hi {
        let m = (lo + hi) / 2;
        if run(m) {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    Some(lo)
}

pub struct Exact {
    pub b: Block,
    pub kinds: Vec<String>,
}

/// Calls of single operations with exactly enough gas, one less, one more.
pub fn exact(s: &mut Src) -> Exact {
    let mut b = Block::basic();
    env(s, &mut b);
    let (key, me) = keys()[0];
    b.pre.insert(me, Account { balance: ether(100), ..Default::default() });
    let n = s.range(1, 6);
    let mut made = vec![];
    for i in 0..n as u64 {
        let ad = at(0xb000 + i);
        let other = match s.below(8) {
            0 => at(0xb000 + s.below(n) as u64),
            1 => b.coinbase,
            _ => {
                let o = at(0xc000 + i);
                match s.below(5) {
                    0 => {}
                    1 => {
                        b.pre.insert(o, Account { balance: 5.into(), ..Default::default() });
                    }
                    2 => {
                        b.pre.insert(o, Account { nonce: 1, ..Default::default() });
                    }
                    _ => {
                        // burns a little gas
                        let mut c = Asm::default();
                        for _ in 0..s.below(20) {
                            c.op(0x5b);
                        }
                        if s.chance(1, 3) {
                            c.push(1).push(1).op(0x55);
                        }
                        b.pre.insert(o, Account { nonce: 1, code: c.finish(), ..Default::default() });
                    }
                }
                o
            }
        };
        let mut a = Asm::default();
        let mut acc = Account { nonce: 1, balance: U256::from(s.pick(&[0u64, 1, 5000])), ..Default::default() };
        let kind = target(s, &mut a, &mut acc, other);
        acc.code = a.finish();
        b.pre.insert(ad, acc);
        made.push((ad, kind));
    }
    let mut m = Asm::default();
    let mut kinds = vec![];
    for (ad, kind) in made {
        let code = b.pre[&ad].code.clone();
        let nd = need(&b, ad, &code);
        let (g, d): (U256, &str) = match nd {
            None => (50_000.into(), "never"),
            Some(x) => match s.weighted(&[4, 4, 1, 2]) {
                0 => (x.into(), "exact"),
                1 => (x.saturating_sub(1).into(), "one short"),
                2 => ((x + 1).into(), "one more"),
                _ => (U256::from(s.below(x as usize + 3000)), "any"),
            },
        };
        kinds.push(format!("{kind}:{d}"));
        let val = s.chance(1, 10);
        m.push(0).push(0).push(0).push(0);
        m.push(val as u64);
        let g = if val { g.saturating_sub(2300.into()) } else { g };
        m.addr(ad).push(g).op(0xf1);
        // the status and the gas left after it
        m.mstore(0).op(0x5a).mstore(32).op(0x3d).mstore(64).push(96).push(0).op(0xa0);
    }
    b.pre.insert(at(0xa1), Account { nonce: 1, balance: 100.into(), code: m.finish(), ..Default::default() });
    let mut tx = Tx::legacy(key);
    fee(s, &mut tx, &b);
    tx.gas = 3_000_000.into();
    tx.to = Some(at(0xa1));
    b.txs.push(tx);
    Exact { b, kinds }
}
