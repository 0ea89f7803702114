//! C19: the field towers, curves and pairings against big-integer arithmetic.
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

use ethereum_types::U256;
use evm_arithmetization::verif_hooks::tower;
use num_bigint::BigUint;
use num_traits::{One, Zero};

use crate::fw::*;
use crate::refevm::tower::{Ctx, Pt, E12, E2};
use crate::{ensure_eq_prop, ensure_prop};

fn ctx(bls: bool) -> &'static Ctx {
    static C: OnceLock<[Ctx; 2]> = OnceLock::new();
    &C.get_or_init(|| [Ctx::new(false), Ctx::new(true)])[bls as usize]
}

// ---- stack words ----

fn words(bls: bool, x: &BigUint) -> Vec<U256> {
    let d = x.to_u64_digits();
    let d = |i: usize| d.get(i).copied().unwrap_or(0);
    let lo = U256([d(0), d(1), d(2), d(3)]);
    if bls {
        vec![lo, U256([d(4), d(5), d(6), d(7)])]
    } else {
        vec![lo]
    }
}

fn unword(w: &[U256]) -> BigUint {
    w.iter().rev().fold(BigUint::zero(), |a, w| {
        let mut b = [0; 32];
        w.to_big_endian(&mut b);
        (a << 256u32) + BigUint::from_bytes_be(&b)
    })
}

fn size(bls: bool) -> usize {
    1 + bls as usize
}

fn words2(bls: bool, x: &E2) -> Vec<U256> {
    [words(bls, &x[0]), words(bls, &x[1])].concat()
}

/// The order of the coefficients of an Fp12 element on the stack: the two
/// halves 1 and z over the basis 1, t = z^2, t^2.
const ORDER: [usize; 6] = [0, 2, 4, 1, 3, 5];

fn words12(bls: bool, x: &E12) -> Vec<U256> {
    ORDER.iter().flat_map(|i| words2(bls, &x[*i])).collect()
}
fn words6(bls: bool, x: &E12) -> Vec<U256> {
    words12(bls, x)[..6 * size(bls)].to_vec()
}

fn unwords(bls: bool, w: &[U256]) -> Vec<BigUint> {
    w.chunks(size(bls)).map(unword).collect()
}

fn unwords12(bls: bool, w: &[U256]) -> E12 {
    let v = unwords(bls, w);
    let mut out = vec![Ctx::zero2(); 6];
    for (k, c) in v.chunks(2).enumerate() {
        out[ORDER[k]] = [c[0].clone(), c[1].clone()];
    }
    out
}

// ---- generators ----

fn fp(s: &mut Src, bls: bool) -> BigUint {
    let c = ctx(bls);
    let one = BigUint::one();
    let limbs = if bls { 6 } else { 4 };
    let v = match s.weighted(&[3, 1, 1, 2, 2, 2, 2]) {
        0 => {
            let n: Vec<u8> = s.bytes(limbs * 8);
            BigUint::from_bytes_be(&n)
        }
        1 => BigUint::from(s.below(12)),
        2 => &c.p - 1u32 - BigUint::from(s.below(12)),
        3 => {
            // around a power of two
            let k = s.pick(&[31u32, 32, 63, 64, 65, 127, 128, 129, 191, 192, 252, 253, 254, 255, 256, 257, 320, 379, 380, 381]);
            let d = s.below(3);
            ((&one << k) + 1u32) - BigUint::from(d)
        }
        4 => {
            let d = s.below(3);
            ((&c.p >> 1) + 1u32) - BigUint::from(d)
        }
        5 => (0..limbs).fold(BigUint::zero(), |a, _| {
            (a << 64u32) + s.pick(&[0u64, 0, 1, u64::MAX, u64::MAX, 1 << 63])
        }),
        _ => {
            // with a structured half
            let k = s.pick(&[128u32, 256]);
            let x = BigUint::from_bytes_be(&s.bytes(limbs * 8));
            match s.below(3) {
                0 => x >> k << k,
                1 => x % (&one << k),
                _ => (x >> k << k) + ((&one << k) - 1u32),
            }
        }
    };
    v % &c.p
}

fn fp2(s: &mut Src, bls: bool) -> E2 {
    match s.weighted(&[6, 1, 1, 1]) {
        0 => [fp(s, bls), fp(s, bls)],
        1 => [fp(s, bls), BigUint::zero()],
        2 => [BigUint::zero(), fp(s, bls)],
        _ => {
            let x = fp(s, bls);
            [x.clone(), x]
        }
    }
}

fn fp12(s: &mut Src, bls: bool) -> E12 {
    let mask = match s.weighted(&[4, 2, 1]) {
        0 => 63,
        1 => s.below(64),
        _ => 1 << s.below(6),
    };
    (0..6)
        .map(|i| if mask >> i & 1 == 1 { fp2(s, bls) } else { Ctx::zero2() })
        .collect()
}

fn evens(x: E12) -> E12 {
    x.into_iter()
        .enumerate()
        .map(|(i, c)| if i % 2 == 0 { c } else { Ctx::zero2() })
        .collect()
}

fn call(bls: bool, kind: &str, op: &str, a: &[Vec<U256>], n: i64) -> Result<Vec<U256>, Fail> {
    match guarded(|| tower(bls, kind, op, a, n)) {
        Ok(Some(v)) => Ok(v),
        Ok(None) => fail(format!("{kind}-{op}-none"), format!("{op} over {kind} of {a:?} gave no result")),
        Err(e) => fail(format!("{kind}-{op}-panic"), format!("{op} over {kind} of {a:?}: {e}")),
    }
}

fn name(bls: bool) -> &'static str {
    ["BN254", "BLS12-381"][bls as usize]
}

// ---- the fields ----

fn base(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let bls = s.bool();
    let c = ctx(bls);
    let (a, b) = (fp(s, bls), fp(s, bls));
    let b = match s.below(8) {
        0 => a.clone(),
        1 => c.sub(&BigUint::zero(), &a),
        _ => b,
    };
    rec.nontrivial(&(bls, words(bls, &a), words(bls, &b)));
    let w = |x: &BigUint| words(bls, x);
    let (wa, wb) = (w(&a), w(&b));
    let is = |op: &str, args: &[Vec<U256>], n: i64, want: &BigUint| -> CaseResult {
        let got = call(bls, "1", op, args, n)?;
        ensure_eq_prop!(got, w(want), format!("base-{op}"), "{} {op} {a} {b}", name(bls));
        Ok(())
    };
    is("zero", &[], 0, &BigUint::zero())?;
    is("unit", &[], 0, &BigUint::one())?;
    let k = s.u64() >> s.below(64) & (i64::MAX as u64);
    is("new", &[], k as i64, &BigUint::from(k))?;
    is("stack", &[wa.clone()], 0, &a)?;
    is("add", &[wa.clone(), wb.clone()], 0, &c.add(&a, &b))?;
    is("sub", &[wa.clone(), wb.clone()], 0, &c.sub(&a, &b))?;
    is("neg", &[wa.clone()], 0, &c.sub(&BigUint::zero(), &a))?;
    is("mul", &[wa.clone(), wb.clone()], 0, &c.mul(&a, &b))?;
    if !b.is_zero() {
        let i = c.inv(&b);
        is("inv", &[wb.clone()], 0, &i)?;
        is("div", &[wa.clone(), wb.clone()], 0, &c.mul(&a, &i))?;
    }
    rec.evals += 10;
    if bls {
        let largest = a > c.sub(&BigUint::zero(), &a);
        let got = call(bls, "1", "largest", &[wa.clone()], 0)?;
        ensure_eq_prop!(got, vec![U256::from(largest as u64)], "largest", "lexicographically largest {a}");
        for x in [a.clone(), c.mul(&a, &a)] {
            let got = tower(true, "1", "sqrt", &[w(&x)], 0).map(|v| unword(&v));
            match (c.sqrt(&x), got) {
                (None, None) => rec.label("non-residue"),
                (Some(_), Some(y)) => {
                    ensure_prop!(y < c.p && &y * &y % &c.p == x, "sqrt", "sqrt({x}) = {y}");
                }
                (want, got) => return fail("sqrt", format!("sqrt({x}): {got:?}, should be {want:?}")),
            }
        }
    }
    rec.label(name(bls));
    Ok(())
}

fn quadratic(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let bls = s.bool();
    let c = ctx(bls);
    let (a, b) = (fp2(s, bls), fp2(s, bls));
    let k = fp(s, bls);
    let (wa, wb) = (words2(bls, &a), words2(bls, &b));
    rec.nontrivial(&(bls, &wa, &wb));
    let is = |op: &str, args: &[Vec<U256>], want: &E2| -> CaseResult {
        let got = call(bls, "2", op, args, 0)?;
        ensure_eq_prop!(got, words2(bls, want), format!("fp2-{op}"), "{} {op} {a:?} {b:?} {k}", name(bls));
        Ok(())
    };
    is("zero", &[], &Ctx::zero2())?;
    is("unit", &[], &[BigUint::one(), BigUint::zero()])?;
    is("stack", &[wa.clone()], &a)?;
    is("add", &[wa.clone(), wb.clone()], &c.add2(&a, &b))?;
    is("sub", &[wa.clone(), wb.clone()], &c.sub2(&a, &b))?;
    is("neg", &[wa.clone()], &c.sub2(&Ctx::zero2(), &a))?;
    is("mul", &[wa.clone(), wb.clone()], &c.mul2(&a, &b))?;
    is("conj", &[wa.clone()], &c.conj2(&a))?;
    is("mul_adj", &[wa.clone()], &c.mul2(&a, &c.xi()))?;
    is("scale", &[wa.clone(), words(bls, &k)], &c.mul2(&a, &[k.clone(), BigUint::zero()]))?;
    if b != Ctx::zero2() {
        let i = c.inv2(&b);
        is("inv", &[wb.clone()], &i)?;
        is("div", &[wa, wb], &c.mul2(&a, &i))?;
    }
    rec.evals += 12;
    rec.label(name(bls));
    Ok(())
}

/// x^(p^n), from the conjugates of the coefficients and the power of z.
fn frobenius(bls: bool, x: &E12, n: usize) -> E12 {
    static Z: OnceLock<Mutex<HashMap<(bool, usize), E12>>> = OnceLock::new();
    let c = ctx(bls);
    let m = Z.get_or_init(Default::default);
    let cached = m.lock().unwrap().get(&(bls, n)).cloned();
    let z = cached.unwrap_or_else(|| {
        let mut z = vec![Ctx::zero2(); 6];
        z[1][0] = BigUint::one();
        for _ in 0..n {
            z = c.pow12(&z, &c.p);
        }
        m.lock().unwrap().insert((bls, n), z.clone());
        z
    });
    let mut acc = vec![Ctx::zero2(); 6];
    for k in (0..6).rev() {
        acc = c.mul12(&acc, &z);
        let a = if n % 2 == 1 { c.conj2(&x[k]) } else { x[k].clone() };
        acc[0] = c.add2(&acc[0], &a);
    }
    acc
}

fn twelve(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let bls = s.bool();
    let c = ctx(bls);
    let six = s.bool();
    let kind = if six { "6" } else { "12" };
    let (mut a, mut b) = (fp12(s, bls), fp12(s, bls));
    if six {
        (a, b) = (evens(a), evens(b));
    }
    let w = |x: &E12| if six { words6(bls, x) } else { words12(bls, x) };
    let (wa, wb) = (w(&a), w(&b));
    rec.nontrivial(&(bls, &wa, &wb));
    let is = |op: &str, args: &[Vec<U256>], n: i64, want: &E12| -> CaseResult {
        let got = call(bls, kind, op, args, n)?;
        ensure_eq_prop!(got, w(want), format!("fp{kind}-{op}"), "{} {op} {n} {a:?} {b:?}", name(bls));
        Ok(())
    };
    let zero = vec![Ctx::zero2(); 6];
    is("zero", &[], 0, &zero)?;
    is("unit", &[], 0, &Ctx::one12())?;
    is("stack", &[wa.clone()], 0, &a)?;
    is("add", &[wa.clone(), wb.clone()], 0, &c.add12(&a, &b))?;
    is("sub", &[wa.clone(), wb.clone()], 0, &c.sub12(&a, &b))?;
    is("neg", &[wa.clone()], 0, &c.sub12(&zero, &a))?;
    is("mul", &[wa.clone(), wb.clone()], 0, &c.mul12(&a, &b))?;
    let n = s.below(26);
    is("frob", &[wa.clone()], n as i64, &frobenius(bls, &a, n % 12))?;
    let (e, f, g) = (fp2(s, bls), fp2(s, bls), fp2(s, bls));
    let at = |cs: &[(usize, &E2)]| -> E12 {
        let mut v = zero.clone();
        for (i, x) in cs {
            v[*i] = (*x).clone();
        }
        v
    };
    let w2 = |x: &E2| words2(bls, x);
    if six {
        is("scale", &[wa.clone(), w2(&e)], 0, &c.mul12(&a, &at(&[(0, &e)])))?;
        is("mul_by_1", &[wa.clone(), w2(&e)], 0, &c.mul12(&a, &at(&[(2, &e)])))?;
        is("mul_by_01", &[wa.clone(), w2(&e), w2(&f)], 0, &c.mul12(&a, &at(&[(0, &e), (2, &f)])))?;
    } else {
        let h = evens(b.clone());
        is("scale", &[wa.clone(), words6(bls, &h)], 0, &c.mul12(&a, &h))?;
        is("conj", &[wa.clone()], 0, &frobenius(bls, &a, 6))?;
        is("mul_by_014", &[wa.clone(), w2(&e), w2(&f), w2(&g)], 0, &c.mul12(&a, &at(&[(0, &e), (2, &f), (3, &g)])))?;
    }
    if b != zero {
        let i = call(bls, kind, "inv", &[wb.clone()], 0)?;
        let i = if six { [i.clone(), vec![U256::zero(); i.len()]].concat() } else { i };
        ensure_prop!(unwords(bls, &i).iter().all(|x| *x < c.p), "reduced", "{} inverse of {b:?} isn't reduced: {i:?}", name(bls));
        let i = unwords12(bls, &i);
        ensure_eq_prop!(c.mul12(&b, &i), Ctx::one12(), format!("fp{kind}-inv"), "{} inverse of {b:?}", name(bls));
        is("div", &[wa, wb], 0, &c.mul12(&a, &i))?;
        rec.label("inverse");
    }
    rec.evals += 13;
    rec.label(format!("{} Fp{kind}", name(bls)));
    Ok(())
}

// ---- curves ----

fn enc(bls: bool, g2: bool, p: &Pt) -> Vec<U256> {
    let (x, y) = p.clone().unwrap_or((Ctx::zero2(), Ctx::zero2()));
    if g2 {
        [words2(bls, &x), words2(bls, &y)].concat()
    } else {
        [words(bls, &x[0]), words(bls, &y[0])].concat()
    }
}

fn dec(bls: bool, g2: bool, w: &[U256]) -> Pt {
    let v = unwords(bls, w);
    if v.iter().all(|x| x.is_zero()) {
        return None;
    }
    Some(if g2 {
        ([v[0].clone(), v[1].clone()], [v[2].clone(), v[3].clone()])
    } else {
        ([v[0].clone(), BigUint::zero()], [v[1].clone(), BigUint::zero()])
    })
}

/// The standard generators.
fn generator(bls: bool, g2: bool) -> Pt {
    let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    let z = BigUint::zero();
    Some(match (bls, g2) {
        (false, false) => ([BigUint::one(), z.clone()], [2u32.into(), z]),
        (false, true) => (
            [
                h("1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed"),
                h("198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2"),
            ],
            [
                h("12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa"),
                h("090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"),
            ],
        ),
        (true, false) => (
            [h("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), z.clone()],
            [h("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), z],
        ),
        (true, true) => (
            [
                h("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
                h("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"),
            ],
            [
                h("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
                h("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"),
            ],
        ),
    })
}

fn scalar(s: &mut Src, bls: bool) -> BigUint {
    let r = &ctx(bls).r;
    match s.weighted(&[3, 2, 1]) {
        0 => BigUint::from_bytes_be(&s.bytes(32)) % (r - 1u32) + 1u32,
        1 => BigUint::from(s.range(1, 12)),
        _ => r - s.range(1, 3) as u32,
    }
}

fn curves(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (bls, g2) = (s.bool(), s.bool());
    let c = ctx(bls);
    let kind = if g2 { "g2" } else { "g1" };
    let g = generator(bls, g2);
    let gen = call(bls, kind, "generator", &[], 0)?;
    ensure_eq_prop!(gen, enc(bls, g2, &g), format!("{kind}-generator"), "{} generator", name(bls));
    let pt = |s: &mut Src| match s.below(8) {
        0 => None,
        1 => g.clone(),
        _ => c.mul_pt(&g, &scalar(s, bls)),
    };
    let p = pt(s);
    let q = match s.below(6) {
        0 => p.clone(),
        1 => c.neg_pt(&p),
        2 => None,
        // the image of p under the endomorphism of order 3 or 6: x alone differs
        _ => pt(s),
    };
    let t = pt(s);
    let e = |x: &Pt| enc(bls, g2, x);
    rec.nontrivial(&(bls, g2, e(&p), e(&q)));
    let is = |op: &str, args: &[Vec<U256>], n: i64, want: &Pt| -> CaseResult {
        let got = call(bls, kind, op, args, n)?;
        ensure_eq_prop!(dec(bls, g2, &got), want.clone(), format!("{kind}-{op}"), "{} {op} {n} {p:?} {q:?}", name(bls));
        Ok(())
    };
    is("unit", &[], 0, &None)?;
    is("stack", &[e(&p)], 0, &p)?;
    is("neg", &[e(&p)], 0, &c.neg_pt(&p))?;
    let sum = c.add_pt(&p, &q);
    is("add", &[e(&p), e(&q)], 0, &sum)?;
    is("add", &[e(&q), e(&p)], 0, &sum)?;
    ensure_prop!(c.on_curve(&sum, g2), "reference", "the reference's sum is off the curve");
    // associativity, in the code's own arithmetic
    let pq = call(bls, kind, "add", &[e(&p), e(&q)], 0)?;
    let qt = call(bls, kind, "add", &[e(&q), e(&t)], 0)?;
    ensure_eq_prop!(
        call(bls, kind, "add", &[pq, e(&t)], 0)?,
        call(bls, kind, "add", &[e(&p), qt], 0)?,
        format!("{kind}-assoc"),
        "{} {p:?} {q:?} {t:?}",
        name(bls)
    );
    let k = match s.weighted(&[3, 3, 1]) {
        0 => s.below(40) as i64 - 20,
        1 => s.raw() as i32 as i64,
        _ => s.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, 1 << 30, -1, 256]) as i64,
    };
    let kp = c.mul_pt(&p, &BigUint::from(k.unsigned_abs()));
    let kp = if k < 0 { c.neg_pt(&kp) } else { kp };
    is("mul", &[e(&p)], k, &kp)?;
    rec.evals += 8;
    rec.label(format!("{} {kind}", name(bls)));
    if sum.is_none() || p == q {
        rec.label("special sum");
    }
    Ok(())
}

fn decode(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let c = ctx(true);
    let g = generator(true, false);
    let mut b = match s.below(5) {
        0 => {
            // any x, near the edges too
            let x = match s.below(3) {
                0 => fp(s, true),
                1 => &c.p + s.below(4),
                _ => (BigUint::one() << 381u32) - 1u32 - BigUint::from(s.below(4)),
            };
            let v = x.to_bytes_be();
            let mut b = vec![0; 48 - v.len()];
            b.extend(v);
            b[0] |= s.pick(&[0x80, 0xa0]);
            b
        }
        1 => c.encode_g1(&None).to_vec(),
        2 => s.bytes(48),
        _ => c.encode_g1(&c.mul_pt(&g, &scalar(s, true))).to_vec(),
    };
    match s.weighted(&[4, 2, 1]) {
        0 => {}
        1 => b[0] ^= s.pick(&[0x20, 0x40, 0x80, 0x60, 0xa0, 0xc0, 0xe0]),
        _ => {
            let i = s.below(48);
            b[i] ^= 1 << s.below(8);
        }
    }
    rec.nontrivial(&b);
    let a: Vec<U256> = b.iter().map(|x| U256::from(*x)).collect();
    let got = guarded(|| tower(true, "g1", "decode", &[a], 0)).or_else(|e| fail("decode-panic", e))?;
    let want = c.decode_g1(&b);
    rec.label(match &want {
        None => "no point",
        Some(None) => "infinity",
        Some(Some(_)) => "point",
    });
    let got = got.map(|w| dec(true, false, &w));
    ensure_eq_prop!(got, want, "decode", "encoding {}", hex::encode(&b));
    if let Some(p) = want {
        if !p.is_none() {
            ensure_eq_prop!(c.encode_g1(&p).to_vec(), b, "reference", "the reference's own encoding");
        }
    }
    Ok(())
}

fn pairings(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let bls = s.bool();
    let c = ctx(bls);
    let (g1, g2) = (generator(bls, false), generator(bls, true));
    let (a, b, d) = (scalar(s, bls), scalar(s, bls), scalar(s, bls));
    rec.nontrivial(&(bls, words(bls, &a), words(bls, &b)));
    let e = |p: &Pt, q: &Pt| -> Result<E12, Fail> {
        let w = call(bls, "gt", "pairing", &[enc(bls, false, p), enc(bls, true, q)], 0)?;
        ensure_prop!(unwords(bls, &w).iter().all(|x| *x < c.p), "reduced", "pairing value not reduced");
        Ok(unwords12(bls, &w))
    };
    let (p, q) = (c.mul_pt(&g1, &a), c.mul_pt(&g2, &b));
    let base = e(&g1, &g2)?;
    ensure_prop!(base != Ctx::one12(), "degenerate", "{}: e(G1, G2) = 1", name(bls));
    ensure_eq_prop!(c.pow12(&base, &c.r), Ctx::one12(), "order", "{}: e(G1, G2)^r", name(bls));
    let ab = &a * &b % &c.r;
    let pq = e(&p, &q)?;
    ensure_eq_prop!(pq, c.pow12(&base, &ab), "bilinear", "{}: e({a} G1, {b} G2)", name(bls));
    // additivity in the first argument
    let t = c.mul_pt(&g1, &d);
    let sum = c.add_pt(&p, &t);
    if sum.is_some() {
        ensure_eq_prop!(e(&sum, &q)?, c.mul12(&pq, &e(&t, &q)?), "additive", "{}: {a} {b} {d}", name(bls));
    }
    if bls {
        // a commitment to the zero polynomial is paired too
        ensure_eq_prop!(e(&None, &q)?, Ctx::one12(), "infinity", "e(0, {b} G2)");
    }
    rec.evals += 5;
    rec.label(name(bls));
    Ok(())
}

pub fn c19() -> Check {
    Check {
        property: "C19",
        level: "exploration",
        assumptions: vec![
            "oracle: arithmetic on big integers in Fp, Fp[i]/(i^2+1) and Fp2[z]/(z^6-xi), affine group law".into(),
            "elements are reduced; points are of the prime-order groups; the BN254 pairing (compiled for tests only) isn't called with the point at infinity".into(),
        ],
        facets: vec![
            Facet::new("base", "every pair of base field elements", 20_000, 600_000, 60, base),
            Facet::new("quadratic", "every pair of Fp2 elements", 20_000, 600_000, 120, quadratic),
            Facet::new("extensions", "every pair of Fp6 or Fp12 elements", 6_000, 200_000, 500, twelve),
            Facet::new("curves", "every pair of points", 1_500, 60_000, 120, curves),
            Facet::new("decode", "every 48 byte string", 4_000, 200_000, 100, decode),
            Facet::new("pairings", "every pair of scalars", 200, 6_000, 60, pairings),
        ],
    }
}
