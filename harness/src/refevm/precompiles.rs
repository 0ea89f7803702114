//! The Cancun precompiled contracts.
use ethereum_types::{U256, U512};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use sha2::Digest;

use super::ec::{self, bn254, Fp, Fp2, Pt};

pub type PResult = Option<Vec<u8>>;

fn rd(input: &[u8], off: usize, n: usize) -> Vec<u8> {
    (off..off + n).map(|i| input.get(i).copied().unwrap_or(0)).collect()
}
fn word(input: &[u8], off: usize) -> U256 {
    U256::from_big_endian(&rd(input, off, 32))
}
pub fn be32(x: U256) -> [u8; 32] {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    b
}
fn words(n: usize) -> u64 {
    n.div_ceil(32) as u64
}

/// Gas cost of a precompile; None: the cost exceeds any gas limit.
pub fn gas(id: u64, input: &[u8]) -> Option<u64> {
    Some(match id {
        1 => 3000,
        2 => 60 + 12 * words(input.len()),
        3 => 600 + 120 * words(input.len()),
        4 => 15 + 3 * words(input.len()),
        5 => return modexp_gas(input),
        6 => 150,
        7 => 6000,
        8 => 45000 + 34000 * (input.len() as u64 / 192),
        9 => {
            if input.len() == 213 {
                u32::from_be_bytes(input[..4].try_into().unwrap()) as u64
            } else {
                0
            }
        }
        10 => 50000,
        _ => unreachable!(),
    })
}

pub fn run(id: u64, input: &[u8]) -> PResult {
    match id {
        1 => Some(ecrecover(input)),
        2 => Some(sha2::Sha256::digest(input).to_vec()),
        3 => {
            let mut v = vec![0u8; 12];
            v.extend(ripemd::Ripemd160::digest(input));
            Some(v)
        }
        4 => Some(input.to_vec()),
        5 => Some(modexp(input)),
        6 => {
            let a = g1_in(input, 0)?;
            let b = g1_in(input, 64)?;
            Some(g1_out(&ec::add(&a, &b)))
        }
        7 => {
            let a = g1_in(input, 0)?;
            Some(g1_out(&ec::mul(&a, word(input, 64))))
        }
        8 => pairing(input),
        9 => blake2f(input),
        10 => kzg(input),
        _ => unreachable!(),
    }
}

fn ecrecover(input: &[u8]) -> Vec<u8> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let h = rd(input, 0, 32);
    let v = word(input, 32);
    let r = rd(input, 64, 32);
    let s = rd(input, 96, 32);
    if v != U256::from(27) && v != U256::from(28) {
        return vec![];
    }
    let mut odd = v == U256::from(28);
    let rr: [u8; 32] = r.try_into().unwrap();
    let ss: [u8; 32] = s.try_into().unwrap();
    let Ok(mut sig) = Signature::from_scalars(rr, ss) else {
        return vec![];
    };
    if let Some(n) = sig.normalize_s() {
        sig = n;
        odd = !odd;
    }
    let id = RecoveryId::new(odd, false);
    let Ok(k) = VerifyingKey::recover_from_prehash(&h, &sig, id) else {
        return vec![];
    };
    let e = k.to_encoded_point(false);
    let mut out = keccak_hash::keccak(&e.as_bytes()[1..]).0;
    out[..12].fill(0);
    out.to_vec()
}

fn modexp_head(input: &[u8]) -> (U256, U256, U256) {
    (word(input, 0), word(input, 32), word(input, 64))
}

fn modexp_gas(input: &[u8]) -> Option<u64> {
    let (bl, el, ml) = modexp_head(input);
    let lim = U256::from(1u64 << 40);
    let mx = bl.max(ml);
    if mx.is_zero() && (el <= U256::from(32) || true) && bl.is_zero() && ml.is_zero() {
        // complexity 0
        return Some(200);
    }
    if mx > lim {
        return None;
    }
    let w = (mx.as_u64() + 7) / 8;
    let complexity = (w as u128) * (w as u128);
    // the exponent's head
    let n = el.min(U256::from(32)).as_usize();
    let off = U256::from(96) + bl;
    let head = if off > U256::from(1u64 << 40) {
        U256::zero()
    } else {
        let off = off.as_usize();
        let b: Vec<u8> = (0..n).map(|i| input.get(off + i).copied().unwrap_or(0)).collect();
        let mut w = vec![0u8; 32 - n];
        w.extend(b);
        U256::from_big_endian(&w)
    };
    let bits = |x: U256| if x.is_zero() { 0u128 } else { x.bits() as u128 - 1 };
    let iter: u128 = if el <= U256::from(32) {
        bits(head)
    } else {
        if el > lim {
            return None;
        }
        8 * (el.as_u64() as u128 - 32) + bits(head)
    };
    let g = complexity.checked_mul(iter.max(1))? / 3;
    if g > 1u128 << 60 {
        return None;
    }
    Some((g as u64).max(200))
}

fn modexp(input: &[u8]) -> Vec<u8> {
    let (bl, el, ml) = modexp_head(input);
    if bl.is_zero() && ml.is_zero() {
        return vec![];
    }
    let (bl, el, ml) = (bl.as_usize(), el.as_usize(), ml.as_usize());
    let b = BigUint::from_bytes_be(&rd(input, 96, bl));
    let e = BigUint::from_bytes_be(&rd(input, 96 + bl, el));
    let m = BigUint::from_bytes_be(&rd(input, 96 + bl + el, ml));
    let r = if m.is_zero() {
        BigUint::zero()
    } else if m.is_one() {
        BigUint::zero()
    } else {
        b.modpow(&e, &m)
    };
    let rb = r.to_bytes_be();
    let mut out = vec![0u8; ml];
    if !r.is_zero() {
        out[ml - rb.len()..].copy_from_slice(&rb);
    }
    out
}

fn g1_in(input: &[u8], off: usize) -> Option<Pt<Fp>> {
    let p = bn254::p();
    let (x, y) = (word(input, off), word(input, off + 32));
    if x >= p || y >= p {
        return None;
    }
    if x.is_zero() && y.is_zero() {
        return Some(None);
    }
    let pt = Some((Fp::new(x, p), Fp::new(y, p)));
    ec::on_curve(&pt, &bn254::b1()).then_some(pt)
}
pub fn g1_out(p: &Pt<Fp>) -> Vec<u8> {
    match p {
        None => vec![0; 64],
        Some((x, y)) => [be32(x.v), be32(y.v)].concat(),
    }
}
pub fn g2_out(p: &Pt<Fp2>) -> Vec<u8> {
    match p {
        None => vec![0; 128],
        Some((x, y)) => [be32(x.b.v), be32(x.a.v), be32(y.b.v), be32(y.a.v)].concat(),
    }
}

std::thread_local! {
    /// Discrete logarithms of the G1 / G2 points the generators used, so that
    /// the pairing product can be decided by bilinearity.
    pub static DLOG: std::cell::RefCell<std::collections::HashMap<Vec<u8>, U256>> = Default::default();
}

pub fn register_dlog(enc: Vec<u8>, k: U256) {
    DLOG.with(|d| d.borrow_mut().insert(enc, k));
}

fn pairing(input: &[u8]) -> PResult {
    if input.len() % 192 != 0 {
        return None;
    }
    let p = bn254::p();
    let r = bn254::r();
    let mut sum = U256::zero();
    for c in input.chunks(192) {
        let a = g1_in(c, 0)?;
        let w: Vec<U256> = (0..4).map(|i| word(c, 64 + 32 * i)).collect();
        if w.iter().any(|x| *x >= p) {
            return None;
        }
        let b: Pt<Fp2> = if w.iter().all(|x| x.is_zero()) {
            None
        } else {
            let pt = Some((Fp2::new(w[1], w[0], p), Fp2::new(w[3], w[2], p)));
            if !ec::on_curve(&pt, &bn254::b2()) {
                return None;
            }
            pt
        };
        let kb = match &b {
            None => U256::zero(),
            Some(_) => match DLOG.with(|d| d.borrow().get(&c[64..192]).copied()) {
                Some(k) => k,
                None => {
                    // not one of ours: in the subgroup or not?
                    if ec::mul(&b, r).is_some() {
                        return None;
                    }
                    panic!("oracle: unknown discrete logarithm in G2");
                }
            },
        };
        let ka = match &a {
            None => U256::zero(),
            Some(_) => match DLOG.with(|d| d.borrow().get(&c[..64]).copied()) {
                Some(k) => k,
                None if b.is_none() => U256::zero(),
                None => panic!("oracle: unknown discrete logarithm in G1"),
            },
        };
        sum = ec::addmod(sum, ec::mulmod(ka, kb, r), r);
    }
    Some(be32(U256::from(sum.is_zero() as u64)).to_vec())
}

fn blake2f(input: &[u8]) -> PResult {
    if input.len() != 213 || input[212] > 1 {
        return None;
    }
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908,
        0xbb67ae8584caa73b,
        0x3c6ef372fe94f82b,
        0xa54ff53a5f1d36f1,
        0x510e527fade682d1,
        0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let rounds = u32::from_be_bytes(input[..4].try_into().unwrap());
    let le = |o: usize| u64::from_le_bytes(input[o..o + 8].try_into().unwrap());
    let mut h: Vec<u64> = (0..8).map(|i| le(4 + 8 * i)).collect();
    let m: Vec<u64> = (0..16).map(|i| le(68 + 8 * i)).collect();
    let t = [le(196), le(204)];
    let mut v: Vec<u64> = h.iter().copied().chain(IV).collect();
    v[12] ^= t[0];
    v[13] ^= t[1];
    if input[212] == 1 {
        v[14] = !v[14];
    }
    for i in 0..rounds as usize {
        let s = &SIGMA[i % 10];
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        g(0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
    Some(h.iter().flat_map(|x| x.to_le_bytes()).collect())
}

pub const KZG_INF: [u8; 48] = {
    let mut a = [0u8; 48];
    a[0] = 0xc0;
    a
};
/// The generator of G1, compressed.
pub const KZG_G1: [u8; 48] = hex_literal::hex!("97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb");
/// The generator times the secret of the ceremony, compressed.
pub const KZG_TAU: [u8; 48] = hex_literal::hex!("ad3eb50121139aa34db1d545093ac9374ab7bca2c0f3bf28e27c8dcd8fc7cb42d25926fc0c97b336e9f0fb35e5a04c81");

fn kzg(input: &[u8]) -> PResult {
    if input.len() != 192 {
        return None;
    }
    let m = U256::from_dec_str("52435875175126190479447740508185965837690552500527637822603658699938581184513").unwrap();
    let (z, y) = (word(input, 32), word(input, 64));
    let (comm, proof) = (&input[96..144], &input[144..192]);
    let mut h: [u8; 32] = <sha2::Sha256 as sha2::Digest>::digest(comm).into();
    h[0] = 1;
    if h != input[..32] || z >= m || y >= m {
        return None;
    }
    // The generators only make commitments to the polynomials 0, 1, x and -x;
    // the proofs of their values are theirs alone.
    let neg = |v: U256| if v.is_zero() { v } else { m - v };
    let flip = |p: [u8; 48]| {
        let mut p = p;
        p[0] ^= 0x20;
        p
    };
    let ok = if comm == KZG_INF {
        y.is_zero() && proof == KZG_INF
    } else if comm == KZG_G1 {
        y == U256::one() && proof == KZG_INF
    } else if comm == KZG_TAU {
        y == z && proof == KZG_G1
    } else if comm == flip(KZG_TAU) {
        y == neg(z) && proof == flip(KZG_G1)
    } else {
        let c = super::tower::Ctx::new(true);
        match c.decode_g1(comm) {
            Some(p) if c.mul_pt(&p, &c.r).is_none() => {
                panic!("commitment without an oracle: {}", hex::encode(comm))
            }
            _ => false,
        }
    };
    if !ok {
        return None;
    }
    Some([be32(U256::from(4096)), be32(m)].concat())
}

#[allow(dead_code)]
fn _unused(_: U512) {}
