//! Elliptic-curve arithmetic over prime fields and quadratic extensions,
//! written from the textbook formulas (Jacobian coordinates).
use ethereum_types::{U256, U512};

pub trait Fld: Clone + PartialEq {
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Self;
    fn zero(&self) -> Self;
    fn one(&self) -> Self;
    fn is_zero(&self) -> bool;
    fn neg(&self) -> Self {
        self.zero().sub(self)
    }
}

pub fn mulmod(a: U256, b: U256, m: U256) -> U256 {
    let r: U512 = a.full_mul(b) % U512::from(m);
    let mut by = [0u8; 64];
    r.to_big_endian(&mut by);
    U256::from_big_endian(&by[32..])
}
pub fn addmod(a: U256, b: U256, m: U256) -> U256 {
    let r: U512 = (U512::from(a) + U512::from(b)) % U512::from(m);
    let mut by = [0u8; 64];
    r.to_big_endian(&mut by);
    U256::from_big_endian(&by[32..])
}
pub fn powmod(b: U256, e: U256, m: U256) -> U256 {
    let mut r = U256::one() % m;
    for i in (0..e.bits()).rev() {
        r = mulmod(r, r, m);
        if e.bit(i) {
            r = mulmod(r, b, m);
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fp {
    pub v: U256,
    pub p: U256,
}
impl Fp {
    pub fn new(v: U256, p: U256) -> Self {
        Fp { v: v % p, p }
    }
}
impl Fld for Fp {
    fn add(&self, o: &Self) -> Self {
        Fp { v: addmod(self.v, o.v, self.p), p: self.p }
    }
    fn sub(&self, o: &Self) -> Self {
        Fp { v: addmod(self.v, self.p - o.v, self.p), p: self.p }
    }
    fn mul(&self, o: &Self) -> Self {
        Fp { v: mulmod(self.v, o.v, self.p), p: self.p }
    }
    fn inv(&self) -> Self {
        Fp { v: powmod(self.v, self.p - 2, self.p), p: self.p }
    }
    fn zero(&self) -> Self {
        Fp { v: U256::zero(), p: self.p }
    }
    fn one(&self) -> Self {
        Fp { v: U256::one(), p: self.p }
    }
    fn is_zero(&self) -> bool {
        self.v.is_zero()
    }
}

/// Fp[i]/(i^2+1)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fp2 {
    pub a: Fp,
    pub b: Fp,
}
impl Fp2 {
    pub fn new(a: U256, b: U256, p: U256) -> Self {
        Fp2 { a: Fp::new(a, p), b: Fp::new(b, p) }
    }
    pub fn pow(&self, e: U512) -> Self {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = r.mul(&r);
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    /// Square root for p = 3 mod 4, if there is one.
    pub fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        let p = self.a.p;
        let a1 = self.pow(U512::from((p - 3) / 4));
        let alpha = a1.mul(&a1).mul(self);
        let x0 = a1.mul(self);
        let minus_one = self.zero().sub(&self.one());
        let r = if alpha == minus_one {
            Fp2 { a: x0.b.neg(), b: x0.a }
        } else {
            let b = self.one().add(&alpha).pow(U512::from((p - 1) / 2));
            b.mul(&x0)
        };
        (r.mul(&r) == *self).then_some(r)
    }
}
impl Fld for Fp2 {
    fn add(&self, o: &Self) -> Self {
        Fp2 { a: self.a.add(&o.a), b: self.b.add(&o.b) }
    }
    fn sub(&self, o: &Self) -> Self {
        Fp2 { a: self.a.sub(&o.a), b: self.b.sub(&o.b) }
    }
    fn mul(&self, o: &Self) -> Self {
        Fp2 {
            a: self.a.mul(&o.a).sub(&self.b.mul(&o.b)),
            b: self.a.mul(&o.b).add(&self.b.mul(&o.a)),
        }
    }
    fn inv(&self) -> Self {
        let n = self.a.mul(&self.a).add(&self.b.mul(&self.b)).inv();
        Fp2 { a: self.a.mul(&n), b: self.b.neg().mul(&n) }
    }
    fn zero(&self) -> Self {
        Fp2 { a: self.a.zero(), b: self.a.zero() }
    }
    fn one(&self) -> Self {
        Fp2 { a: self.a.one(), b: self.a.zero() }
    }
    fn is_zero(&self) -> bool {
        self.a.is_zero() && self.b.is_zero()
    }
}

/// An affine point; None is the point at infinity. Curves y^2 = x^3 + b (a = 0).
pub type Pt<F> = Option<(F, F)>;

pub fn on_curve<F: Fld>(p: &Pt<F>, b: &F) -> bool {
    match p {
        None => true,
        Some((x, y)) => y.mul(y) == x.mul(x).mul(x).add(b),
    }
}

pub fn neg<F: Fld>(p: &Pt<F>) -> Pt<F> {
    p.as_ref().map(|(x, y)| (x.clone(), y.neg()))
}

#[derive(Clone)]
struct Jac<F> {
    x: F,
    y: F,
    z: F,
}

fn jdbl<F: Fld>(p: &Jac<F>) -> Jac<F> {
    if p.z.is_zero() || p.y.is_zero() {
        return Jac { x: p.x.one(), y: p.x.one(), z: p.x.zero() };
    }
    let y2 = p.y.mul(&p.y);
    let s = {
        let t = p.x.mul(&y2);
        let t = t.add(&t);
        t.add(&t)
    };
    let x2 = p.x.mul(&p.x);
    let m = x2.add(&x2).add(&x2);
    let x = m.mul(&m).sub(&s).sub(&s);
    let y4 = {
        let t = y2.mul(&y2);
        let t = t.add(&t);
        let t = t.add(&t);
        t.add(&t)
    };
    let y = m.mul(&s.sub(&x)).sub(&y4);
    let yz = p.y.mul(&p.z);
    Jac { x, y, z: yz.add(&yz) }
}

fn jadd<F: Fld>(p: &Jac<F>, q: &Jac<F>) -> Jac<F> {
    if p.z.is_zero() {
        return q.clone();
    }
    if q.z.is_zero() {
        return p.clone();
    }
    let z1 = p.z.mul(&p.z);
    let z2 = q.z.mul(&q.z);
    let u1 = p.x.mul(&z2);
    let u2 = q.x.mul(&z1);
    let s1 = p.y.mul(&z2).mul(&q.z);
    let s2 = q.y.mul(&z1).mul(&p.z);
    if u1 == u2 {
        if s1 == s2 {
            return jdbl(p);
        }
        return Jac { x: p.x.one(), y: p.x.one(), z: p.x.zero() };
    }
    let h = u2.sub(&u1);
    let r = s2.sub(&s1);
    let h2 = h.mul(&h);
    let h3 = h2.mul(&h);
    let u1h2 = u1.mul(&h2);
    let x = r.mul(&r).sub(&h3).sub(&u1h2).sub(&u1h2);
    let y = r.mul(&u1h2.sub(&x)).sub(&s1.mul(&h3));
    Jac { x, y, z: h.mul(&p.z).mul(&q.z) }
}

fn to_aff<F: Fld>(p: &Jac<F>) -> Pt<F> {
    if p.z.is_zero() {
        return None;
    }
    let zi = p.z.inv();
    let zi2 = zi.mul(&zi);
    Some((p.x.mul(&zi2), p.y.mul(&zi2).mul(&zi)))
}
fn to_jac<F: Fld>(p: &(F, F)) -> Jac<F> {
    Jac { x: p.0.clone(), y: p.1.clone(), z: p.0.one() }
}

pub fn add<F: Fld>(a: &Pt<F>, b: &Pt<F>) -> Pt<F> {
    match (a, b) {
        (None, _) => b.clone(),
        (_, None) => a.clone(),
        (Some(x), Some(y)) => to_aff(&jadd(&to_jac(x), &to_jac(y))),
    }
}

pub fn mul<F: Fld>(a: &Pt<F>, k: U256) -> Pt<F> {
    let Some(p) = a else { return None };
    let base = to_jac(p);
    let mut acc = Jac { x: base.x.one(), y: base.x.one(), z: base.x.zero() };
    for i in (0..k.bits()).rev() {
        acc = jdbl(&acc);
        if k.bit(i) {
            acc = jadd(&acc, &base);
        }
    }
    to_aff(&acc)
}

pub mod bn254 {
    use super::*;
    pub fn p() -> U256 {
        U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
    }
    pub fn r() -> U256 {
        U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap()
    }
    pub fn b1() -> Fp {
        Fp::new(U256::from(3), p())
    }
    pub fn b2() -> Fp2 {
        // 3 / (9 + i)
        Fp2::new(U256::from(3), U256::zero(), p()).mul(&Fp2::new(U256::from(9), U256::one(), p()).inv())
    }
    pub fn g1() -> Pt<Fp> {
        Some((Fp::new(U256::one(), p()), Fp::new(U256::from(2), p())))
    }
    pub fn g2() -> Pt<Fp2> {
        let d = |s: &str| U256::from_dec_str(s).unwrap();
        Some((
            Fp2::new(
                d("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                d("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
                p(),
            ),
            Fp2::new(
                d("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                d("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
                p(),
            ),
        ))
    }
}
