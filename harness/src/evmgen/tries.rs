//! Blocks that reshape tries: slots and accounts whose hashed keys share
//! prefixes come and go, over several transactions.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use ethereum_types::{Address, U256};

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use crate::fw::Src;
use crate::refevm::block::{addr_key, slot_key, Block};
use crate::refevm::evm::{create2_address, Account};
use crate::refevm::tx::{keys, Tx};

/// Slots by the first three nibbles of their keys (those with four or more).
fn slot_families() -> &'static Vec<Vec<U256>> {
    static S: OnceLock<Vec<Vec<U256>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut m: BTreeMap<Vec<u8>, Vec<U256>> = BTreeMap::new();
        for i in 0..20_000u64 {
            let k = slot_key(&i.into());
            if k[0] == 7 {
                m.entry(k[..4].to_vec()).or_default().push(i.into());
            }
        }
        // (neighbouring families share two or three nibbles)
        m.into_values().filter(|v| v.len() >= 2).take(40).collect()
    })
}

const FACTORY: u64 = 0xfac;
/// Code that destroys itself while it is being created.
const GONE: &[u8] = &[0x33, 0xff];

fn salts() -> &'static Vec<(u64, Address)> {
    static S: OnceLock<Vec<(u64, Address)>> = OnceLock::new();
    S.get_or_init(|| {
        (0..3000u64)
            .map(|i| (i, create2_address(at(FACTORY), i.into(), GONE)))
            .filter(|(_, a)| addr_key(a)[0] < 3)
            .collect()
    })
}

/// Fresh addresses with given first nibbles.
fn plain() -> &'static Vec<Address> {
    static S: OnceLock<Vec<Address>> = OnceLock::new();
    S.get_or_init(|| (0..3000u64).map(|i| Address::from_low_u64_be(0x77_0000 + i)).filter(|a| addr_key(a)[0] < 3).collect())
}

/// Does CREATE2 of `GONE` with each salt in the calldata.
fn factory(n: usize) -> Vec<u8> {
    let mut a = Asm::default();
    a.push(U256::from_big_endian(GONE)).mstore(0);
    for i in 0..n {
        a.push(32 * i).op(0x35); // salt
        a.push(GONE.len()).push(32 - GONE.len()).push(0).op(0xf5).op(0x50);
    }
    a.op(0x00);
    a.finish()
}

/// Stores value at slot for each pair of words in the calldata.
fn keeper(n: usize) -> Vec<u8> {
    let mut a = Asm::default();
    for i in 0..n {
        a.push(64 * i + 32).op(0x35).push(64 * i).op(0x35).op(0x55);
    }
    a.op(0x00);
    a.finish()
}

pub fn gen(s: &mut Src) -> Block {
    let mut b = Block::basic();
    env(s, &mut b);
    let ks = keys();
    for i in 0..2 {
        b.pre.insert(ks[i].1, Account { balance: ether(100), ..Default::default() });
    }
    if s.chance(1, 4) {
        b.coinbase = s.pick(plain());
    }
    let fams = slot_families();
    // a few slots, mostly of one family and its neighbours
    let f0 = s.below(fams.len() - 2);
    let mut slots: Vec<U256> = fams[f0..f0 + 2].iter().flatten().copied().collect();
    for _ in 0..s.below(3) {
        slots.push(s.below(50).into());
    }
    let nsl = s.range(2, slots.len().min(8));
    while slots.len() > nsl {
        let i = s.below(slots.len());
        slots.remove(i);
    }
    let nk = s.range(1, 2);
    for i in 0..nk {
        let mut acc = Account { nonce: 1, code: keeper(4), ..Default::default() };
        for k in &slots {
            if s.chance(2, 3) {
                acc.storage.insert(*k, U256::from(s.range(1, 300)));
            }
        }
        b.pre.insert(at(0xb0 + i as u64), acc);
    }
    b.pre.insert(at(FACTORY), Account { nonce: 1, code: factory(3), ..Default::default() });
    let nsalt = s.range(1, 6);
    let sa: Vec<(u64, Address)> = (0..nsalt).map(|_| s.pick(salts())).collect();
    for (_, a) in &sa {
        if s.chance(2, 3) {
            b.pre.insert(*a, Account { balance: 5.into(), ..Default::default() });
        }
    }
    let others: Vec<Address> = (0..s.range(1, 6)).map(|_| s.pick(plain())).collect();
    for a in &others {
        if s.bool() {
            b.pre.insert(*a, Account { balance: 5.into(), ..Default::default() });
        }
    }
    let mut nonces = [0u64; 2];
    for _ in 0..s.range(1, 9) {
        let w = s.below(2);
        let mut t = Tx::legacy(ks[w].0);
        t.nonce = nonces[w].into();
        nonces[w] += 1;
        fee(s, &mut t, &b);
        t.gas = 600_000.into();
        let be = crate::refevm::precompiles::be32;
        match s.weighted(&[5, 3, 3]) {
            0 => {
                t.to = Some(at(0xb0 + s.below(nk) as u64));
                for _ in 0..4 {
                    t.data.extend(be(s.pick(&slots)));
                    t.data.extend(be(if s.chance(3, 5) { U256::zero() } else { s.range(1, 300).into() }));
                }
            }
            1 => {
                t.to = Some(at(FACTORY));
                for _ in 0..3 {
                    t.data.extend(be(s.pick(&sa).0.into()));
                }
            }
            _ => {
                t.to = Some(if s.bool() { s.pick(&others) } else { s.pick(&sa).1 });
                t.value = s.below(3).into();
            }
        }
        if s.chance(1, 10) {
            // out of gas: nothing but the fee remains
            t.gas = U256::from(t.intrinsic() + s.below(3000) as u64);
        }
        b.txs.push(t);
    }
    for _ in 0..s.below(3) {
        let a = match s.below(4) {
            0 => s.pick(&others),
            1 => s.pick(&sa).1,
            2 => b.coinbase,
            _ => s.pick(plain()),
        };
        b.withdrawals.push((a, U256::from(s.range(1, 1 << 20)) * U256::exp10(9)));
    }
    b
}
