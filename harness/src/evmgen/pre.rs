//! C04: calls of precompiled contracts.
use ethereum_types::U256;
use k256::ecdsa::SigningKey;

use super::asm::Asm;
use super::engine::ether;
use super::ops::{at, env, fee};
use crate::fw::Src;
use crate::refevm::block::Block;
use crate::refevm::ec::{self, bn254, Fld};
use crate::refevm::evm::Account;
use crate::refevm::precompiles::{self as pc, be32, register_dlog};
use crate::refevm::tx::{keys, order, Tx};

fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    (0..n).map(|_| s.u8()).collect()
}

/// Truncates, extends or damages an input.
fn dent(s: &mut Src, mut v: Vec<u8>) -> Vec<u8> {
    match s.weighted(&[8, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            let n = s.below(v.len() + 1);
            v.truncate(n);
        }
        2 => {
            let n = s.range(1, 40);
            let e = bytes(s, n);
            v.extend(e);
        }
        3 => {
            if !v.is_empty() {
                let i = s.below(v.len());
                v[i] ^= 1 << s.below(8);
            }
        }
        _ => {
            let n = s.range(1, 70);
            v.extend(vec![0; n]);
        }
    }
    v
}

fn ecrecover(s: &mut Src) -> Vec<u8> {
    let key = s.pick(&(0..4).collect::<Vec<usize>>());
    let hash = match s.below(4) {
        0 => s.word(),
        _ => U256::from_big_endian(s.h256().as_bytes()),
    };
    let k = SigningKey::from_slice(&keys()[key].0).unwrap();
    let (sg, id) = k.sign_prehash_recoverable(&be32(hash)).unwrap();
    let (r, sv) = sg.split_bytes();
    let (mut r, mut sv) = (U256::from_big_endian(&r), U256::from_big_endian(&sv));
    let mut v = U256::from(27 + id.is_y_odd() as u64);
    let n = order();
    match s.weighted(&[5, 2, 2, 3, 2, 2, 2]) {
        0 => {}
        1 => {
            sv = n - sv;
            v = U256::from(55) - v;
        }
        2 => v = U256::from(55) - v,
        3 => v = s.pick(&[0.into(), 1.into(), 26.into(), 29.into(), 28.into(), U256::from(27) << 8, (U256::one() << 255) + 27, U256::from(27) + 256]),
        4 => r = s.pick(&[0.into(), 1.into(), n - 1, n, n + 1, U256::MAX, U256::from(5), U256::from(2)]),
        5 => sv = s.pick(&[0.into(), 1.into(), n - 1, n, n + 1, U256::MAX]),
        _ => {
            r = s.word();
            sv = s.word();
        }
    }
    [be32(hash), be32(v), be32(r), be32(sv)].concat()
}

fn modexp(s: &mut Src) -> Vec<u8> {
    let l = |s: &mut Src| match s.below(8) {
        0 => 0,
        1 => 1,
        2 => s.below(8),
        3 => 32,
        4 => 33,
        5 => s.below(70),
        6 => 31,
        _ => s.below(24),
    };
    let (mut bl, mut el, mut ml) = (l(s), l(s).min(20), l(s));
    if s.chance(1, 6) {
        el = s.range(30, 40);
        bl = bl.min(8);
        ml = ml.min(8);
    }
    let num = |s: &mut Src, n: usize| -> Vec<u8> {
        match s.below(6) {
            0 => vec![0; n],
            1 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[n - 1] = s.below(4) as u8;
                }
                v
            }
            2 => vec![0xff; n],
            3 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[0] = s.u8();
                }
                v
            }
            _ => bytes(s, n),
        }
    };
    let (b, m) = (num(s, bl), num(s, ml));
    let mut e = num(s, el);
    if el > 21 {
        // keep the gas low: a long exponent with a small head
        for x in e.iter_mut().take(el - 2) {
            *x = 0;
        }
    }
    let mut v = [be32(bl.into()), be32(el.into()), be32(ml.into())].concat();
    if s.chance(1, 12) {
        // absurd lengths
        let i = s.below(3);
        let x = s.word();
        v[32 * i..32 * i + 32].copy_from_slice(&be32(x));
    }
    v.extend(b);
    v.extend(e);
    v.extend(m);
    v
}

fn scalar(s: &mut Src) -> U256 {
    let r = bn254::r();
    match s.below(5) {
        0 => U256::from(s.below(4)),
        1 => r - U256::from(s.below(3)),
        2 => r + U256::from(s.below(3)),
        3 => U256::from_big_endian(s.h256().as_bytes()),
        _ => s.word(),
    }
}

fn g1(s: &mut Src) -> Vec<u8> {
    let k = if s.chance(1, 3) { U256::from(s.below(4)) } else { scalar(s) % bn254::r() };
    let p = ec::mul(&bn254::g1(), k);
    let e = pc::g1_out(&p);
    register_dlog(e.clone(), k);
    e
}
fn g1_bad(s: &mut Src) -> Vec<u8> {
    let mut e = g1(s);
    let p = bn254::p();
    match s.below(6) {
        0 => e[63] ^= 1,
        1 => e[31] ^= 1,
        2 => {
            // the same point, coordinate not reduced
            let x = U256::from_big_endian(&e[..32]);
            if let Some(y) = x.checked_add(p) {
                e[..32].copy_from_slice(&be32(y));
            }
        }
        3 => {
            let y = U256::from_big_endian(&e[32..]);
            if let Some(y) = y.checked_add(p) {
                e[32..].copy_from_slice(&be32(y));
            }
        }
        4 => {
            e = [be32(p), be32(0.into())].concat();
        }
        _ => {
            e = [be32(0.into()), be32(s.pick(&[1.into(), p, U256::MAX]))].concat();
        }
    }
    e
}

fn bn_add(s: &mut Src) -> Vec<u8> {
    let a = if s.chance(1, 6) { g1_bad(s) } else { g1(s) };
    let b = match s.below(6) {
        0 => a.clone(),
        1 => {
            // the negation
            let y = U256::from_big_endian(&a[32..]);
            if y.is_zero() || y >= bn254::p() {
                a.clone()
            } else {
                [&a[..32], &be32(bn254::p() - y)[..]].concat()
            }
        }
        2 => g1_bad(s),
        _ => g1(s),
    };
    [a, b].concat()
}

fn bn_mul(s: &mut Src) -> Vec<u8> {
    let a = if s.chance(1, 6) { g1_bad(s) } else { g1(s) };
    [a, be32(scalar(s)).to_vec()].concat()
}

fn pairing(s: &mut Src) -> Vec<u8> {
    let n = s.weighted(&[2, 4, 3, 1]);
    let r = bn254::r();
    let mut sum = U256::zero();
    let mut v = vec![];
    for i in 0..n {
        let mut ka = if s.bool() { U256::from(s.below(3)) } else { scalar(s) % r };
        let kb = if s.bool() { U256::from(s.below(3)) } else { scalar(s) % r };
        if i == n - 1 && n > 1 && s.chance(2, 3) && !kb.is_zero() {
            // make the product one
            let inv = ec::powmod(kb, r - 2, r);
            ka = ec::mulmod((r - sum) % r, inv, r);
        }
        sum = ec::addmod(sum, ec::mulmod(ka, kb, r), r);
        let a = pc::g1_out(&ec::mul(&bn254::g1(), ka));
        register_dlog(a.clone(), ka);
        let b = pc::g2_out(&ec::mul(&bn254::g2(), kb));
        register_dlog(b.clone(), kb);
        v.extend(a);
        v.extend(b);
    }
    if n > 0 && s.chance(1, 4) {
        match s.below(4) {
            0 => {
                // off the curve
                let i = s.pick(&[31usize, 63, 95, 127, 159, 191]);
                // a damaged infinity may become an unknown point; fine, it is off the curve
                v[i] ^= 1;
            }
            1 => {
                let i = 32 * s.below(6);
                v[i..i + 32].copy_from_slice(&be32(bn254::p()));
            }
            2 => {
                // on the twist but outside the subgroup
                let i = s.below(8) as u64 + 1;
                if let Some(e) = off_subgroup(i) {
                    v[64..192].copy_from_slice(&e);
                }
            }
            _ => {
                v.truncate(192 * n - 1);
            }
        }
    }
    v
}

/// A point on the G2 curve that is not in the prime-order subgroup.
fn off_subgroup(start: u64) -> Option<Vec<u8>> {
    let p = bn254::p();
    for i in start..start + 20 {
        let x = ec::Fp2::new(U256::from(i), U256::from(7), p);
        let y2 = x.mul(&x).mul(&x).add(&bn254::b2());
        if let Some(y) = y2.sqrt() {
            return Some(pc::g2_out(&Some((x, y))));
        }
    }
    None
}

fn blake(s: &mut Src) -> Vec<u8> {
    let rounds: u32 = match s.below(5) {
        0 => 0,
        1 => 1,
        2 => 12,
        3 => s.below(14) as u32,
        _ => 10,
    };
    let mut v = rounds.to_be_bytes().to_vec();
    let b = match s.below(3) {
        0 => vec![0; 208],
        1 => vec![0xff; 208],
        _ => bytes(s, 208),
    };
    v.extend(b);
    v.push(s.pick(&[0, 1, 1, 0, 2, 255]));
    v
}

/// A point evaluation of one of the polynomials 0, 1, x and -x, often damaged.
fn kzg(s: &mut Src) -> Vec<u8> {
    let m = U256::from_dec_str("52435875175126190479447740508185965837690552500527637822603658699938581184513").unwrap();
    let z = match s.below(3) {
        0 => U256::from(s.below(3)),
        1 => m - 1,
        _ => U256::from_big_endian(s.h256().as_bytes()) >> 2,
    };
    let flip = |mut p: [u8; 48]| {
        p[0] ^= 0x20;
        p
    };
    let (comm, y, proof) = match s.below(4) {
        0 => (pc::KZG_INF, U256::zero(), pc::KZG_INF),
        1 => (pc::KZG_G1, U256::one(), pc::KZG_INF),
        2 => (pc::KZG_TAU, z, pc::KZG_G1),
        _ => (flip(pc::KZG_TAU), if z.is_zero() { z } else { m - z }, flip(pc::KZG_G1)),
    };
    let mk = |z: U256, y: U256, comm: &[u8], proof: &[u8]| {
        let mut h: [u8; 32] = <sha2::Sha256 as sha2::Digest>::digest(comm).into();
        h[0] = 1;
        let mut v = h.to_vec();
        v.extend(be32(z));
        v.extend(be32(y));
        v.extend_from_slice(comm);
        v.extend_from_slice(proof);
        v
    };
    let mut v = mk(z, y, &comm, &proof);
    match s.weighted(&[6, 1, 1, 1, 1, 1, 1, 1, 1, 4]) {
        0 => {}
        9 => {
            // A point outside of the subgroup, from one of small order (3, or
            // by the infinity's encoding with another x, none at all).
            let c = crate::refevm::tower::Ctx::new(true);
            let small = if s.bool() {
                let mut b = [0u8; 48];
                b[0] = s.pick(&[0x80, 0xa0]);
                b
            } else {
                // x = p, which is no encoding of x = 0
                let mut b = [0u8; 48];
                b.copy_from_slice(&c.p.to_bytes_be());
                b[0] |= s.pick(&[0x80, 0xa0]);
                b
            };
            let shift = |q: &[u8; 48]| match (c.decode_g1(&small), c.decode_g1(q)) {
                (Some(t), Some(q)) => c.encode_g1(&c.add_pt(&t, &q)),
                _ => small,
            };
            v = match s.below(3) {
                0 => mk(z, y, &shift(&comm), &proof),
                1 => mk(z, y, &comm, &shift(&proof)),
                _ => mk(z, y, &shift(&comm), &shift(&proof)),
            };
        }
        1 => v[0] = s.pick(&[0, 2]),
        2 => v = mk(z, y + 1, &comm, &proof),
        3 => v = mk(m + z % 5, y, &comm, &proof),
        4 => v = mk(z, y + m, &comm, &proof),
        5 => {
            let i = s.range(96, 191);
            v[i] ^= 1 << s.below(8);
        }
        6 => v = mk(z, y, &comm, &s.pick(&[pc::KZG_INF, pc::KZG_G1, flip(pc::KZG_G1), pc::KZG_TAU])),
        7 => v = mk(z + 1, y, &comm, &proof),
        _ => v[5] ^= 1,
    }
    v
}

pub fn input(s: &mut Src, id: u64) -> Vec<u8> {
    let v = match id {
        1 => ecrecover(s),
        2..=4 => {
            let n = match s.below(6) {
                0 => 0,
                1 => s.pick(&[31usize, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128]),
                2 => s.below(10),
                3 => s.below(300),
                _ => s.below(130),
            };
            return bytes(s, n);
        }
        5 => modexp(s),
        6 => bn_add(s),
        7 => bn_mul(s),
        8 => {
            return pairing(s);
        }
        9 => blake(s),
        _ => kzg(s),
    };
    dent(s, v)
}

pub fn pick_id(s: &mut Src) -> u64 {
    s.weighted(&[4, 2, 2, 2, 5, 4, 2, 1, 3, 0]) as u64 + 1
}

/// One call and logs of everything it returns.
fn call(s: &mut Src, a: &mut Asm, id: u64, inp: &[u8]) {
    // damaged pairs in a pairing input may have coordinates the oracle can't place:
    let kind = s.pick(&[0xf1u8, 0xfa, 0xf4, 0xf2]);
    let n = inp.len();
    if n > 0 {
        a.load_data(inp.to_vec(), 0x400);
    }
    let need = pc::gas(id, inp);
    let g: U256 = match need {
        Some(g) if g < 3_000_000 => match s.weighted(&[6, 2, 2, 1]) {
            0 => U256::from(g) + 100_000,
            1 => g.into(),
            2 => U256::from(g.saturating_sub(1)),
            _ => U256::from(s.below(g as usize + 1)),
        },
        _ => U256::from(100_000),
    };
    let (ro, rl) = (0x100usize, s.pick(&[0usize, 1, 32, 64, 33, 128]));
    // the output area holds something before
    a.push(U256::MAX / 7).mstore(ro).push(U256::MAX / 5).mstore(ro + 0x20);
    a.push(rl).push(ro).push(n).push(0x400);
    if kind == 0xf1 || kind == 0xf2 {
        a.push(if s.chance(1, 5) { 1 } else { 0 });
    }
    a.push(id).push(g).op(kind);
    // status ++ returndatasize ++ output area ++ return data
    a.mstore(0xc0).op(0x3d).mstore(0xe0);
    a.op(0x3d).push(0).push(0x180).op(0x3e);
    a.op(0x3d).push(0x180 - 0xc0).op(0x01).push(0xc0).op(0xa0);
    // clear the buffer
    a.op(0x3d).op(0x36).push(0x180).op(0x37);
}

pub fn gen(s: &mut Src, only: Option<u64>) -> (Block, Vec<u64>) {
    let mut b = Block::basic();
    env(s, &mut b);
    let (key, me) = keys()[0];
    b.pre.insert(me, Account { balance: ether(100), ..Default::default() });
    let mut ids = vec![];
    let mut tx = Tx::legacy(key);
    fee(s, &mut tx, &b);
    tx.gas = 3_000_000.into();
    let n = s.range(1, 6);
    let mut a = Asm::default();
    for _ in 0..n {
        let mut id = only.unwrap_or_else(|| pick_id(s));
        if ids.contains(&8) && id == 8 {
            id = 5;
        }
        let i = input(s, id);
        call(s, &mut a, id, &i);
        ids.push(id);
    }
    b.pre.insert(at(0xa1), Account { nonce: 1, balance: 10.into(), code: a.finish(), ..Default::default() });
    tx.to = Some(at(0xa1));
    b.txs.push(tx);
    (b, ids)
}

/// Transactions sent straight to precompiles, with ordinary ones around.
pub fn gen_eoa(s: &mut Src, only: Option<u64>) -> (Block, Vec<u64>) {
    let mut b = Block::basic();
    env(s, &mut b);
    let (key, me) = keys()[0];
    b.pre.insert(me, Account { balance: ether(100), ..Default::default() });
    let mut a = Asm::default();
    let id2 = s.range(2, 4) as u64;
    let i2 = input(s, id2);
    call(s, &mut a, id2, &i2);
    b.pre.insert(at(0xa1), Account { nonce: 1, balance: 10.into(), code: a.finish(), ..Default::default() });
    if s.bool() {
        b.pre.insert(at(s.range(1, 10) as u64), Account { balance: 3.into(), ..Default::default() });
    }
    let mut ids = vec![];
    for k in 0..s.range(1, 3) {
        let mut tx = Tx::legacy(key);
        fee(s, &mut tx, &b);
        while b.txs.iter().map(|t| t.blob_hashes.len()).sum::<usize>() + tx.blob_hashes.len() > 6 {
            tx.blob_hashes.clear();
            tx.ty = 2;
        }
        tx.nonce = k.into();
        if s.chance(1, 4) {
            tx.to = Some(at(0xa1));
            tx.gas = 200_000.into();
        } else {
            let id = only.unwrap_or_else(|| if s.chance(1, 12) { 8 } else { s.pick(&[1u64, 2, 3, 4, 5, 6, 7, 9]) });
            ids.push(id);
            tx.to = Some(at(id));
            tx.data = input(s, id);
            let need = pc::gas(id, &tx.data);
            let g = match need {
                Some(g) if g < 3_000_000 => match s.weighted(&[4, 2, 2, 1]) {
                    0 => g + 10_000,
                    1 => g,
                    2 => g.saturating_sub(1),
                    _ => s.below(g as usize + 1) as u64,
                },
                _ => 50_000,
            };
            tx.gas = (tx.intrinsic() + g).into();
        }
        tx.value = s.pick(&[0.into(), 0.into(), 1.into(), U256::from(1000)]);
        b.txs.push(tx);
    }
    (b, ids)
}
