//! Reference arithmetic for the fields and curves of the two pairings: Fp2 is
//! Fp[i]/(i^2+1) and Fp12 is Fp2[z]/(z^6-xi), on big integers.
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub struct Ctx {
    pub bls: bool,
    pub p: BigUint,
    pub r: BigUint,
    /// xi = re + i
    xi_re: u32,
}

fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}

pub type E2 = [BigUint; 2];
/// Coefficients of 1, z, ..., z^5.
pub type E12 = Vec<E2>;

impl Ctx {
    pub fn new(bls: bool) -> Self {
        if bls {
            Ctx {
                bls,
                p: dec("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"),
                r: dec("52435875175126190479447740508185965837690552500527637822603658699938581184513"),
                xi_re: 1,
            }
        } else {
            Ctx {
                bls,
                p: dec("21888242871839275222246405745257275088696311157297823662689037894645226208583"),
                r: dec("21888242871839275222246405745257275088548364400416034343698204186575808495617"),
                xi_re: 9,
            }
        }
    }
    pub fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + b) % &self.p
    }
    pub fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    pub fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        a * b % &self.p
    }
    pub fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.p - 2u32), &self.p)
    }
    pub fn sqrt(&self, a: &BigUint) -> Option<BigUint> {
        let y = a.modpow(&((&self.p + 1u32) >> 2), &self.p);
        (&y * &y % &self.p == *a).then_some(y)
    }

    pub fn add2(&self, a: &E2, b: &E2) -> E2 {
        [self.add(&a[0], &b[0]), self.add(&a[1], &b[1])]
    }
    pub fn sub2(&self, a: &E2, b: &E2) -> E2 {
        [self.sub(&a[0], &b[0]), self.sub(&a[1], &b[1])]
    }
    pub fn mul2(&self, a: &E2, b: &E2) -> E2 {
        [
            (&a[0] * &b[0] + &self.p * &self.p - &a[1] * &b[1]) % &self.p,
            (&a[0] * &b[1] + &a[1] * &b[0]) % &self.p,
        ]
    }
    pub fn inv2(&self, a: &E2) -> E2 {
        let n = self.inv(&((&a[0] * &a[0] + &a[1] * &a[1]) % &self.p));
        [self.mul(&a[0], &n), self.sub(&BigUint::zero(), &self.mul(&a[1], &n))]
    }
    pub fn conj2(&self, a: &E2) -> E2 {
        [a[0].clone(), self.sub(&BigUint::zero(), &a[1])]
    }
    pub fn xi(&self) -> E2 {
        [self.xi_re.into(), BigUint::one()]
    }

    pub fn add12(&self, a: &E12, b: &E12) -> E12 {
        (0..6).map(|i| self.add2(&a[i], &b[i])).collect()
    }
    pub fn sub12(&self, a: &E12, b: &E12) -> E12 {
        (0..6).map(|i| self.sub2(&a[i], &b[i])).collect()
    }
    pub fn zero2() -> E2 {
        [BigUint::zero(), BigUint::zero()]
    }
    pub fn one12() -> E12 {
        let mut v = vec![Self::zero2(); 6];
        v[0][0] = BigUint::one();
        v
    }
    pub fn mul12(&self, a: &E12, b: &E12) -> E12 {
        let mut c = vec![Self::zero2(); 11];
        for i in 0..6 {
            for j in 0..6 {
                c[i + j] = self.add2(&c[i + j], &self.mul2(&a[i], &b[j]));
            }
        }
        for k in (6..11).rev() {
            let m = self.mul2(&c[k], &self.xi());
            c[k - 6] = self.add2(&c[k - 6], &m);
        }
        c.truncate(6);
        c
    }
    pub fn pow12(&self, a: &E12, e: &BigUint) -> E12 {
        let mut r = Self::one12();
        for k in (0..e.bits()).rev() {
            r = self.mul12(&r, &r);
            if e.bit(k) {
                r = self.mul12(&r, a);
            }
        }
        r
    }
}

/// A point of G1 or G2 (coordinates in Fp2, those of G1 are real); `None` is
/// the point at infinity.
pub type Pt = Option<(E2, E2)>;

impl Ctx {
    pub fn b(&self, g2: bool) -> E2 {
        let b = |n: u32| [BigUint::from(n), BigUint::zero()];
        match (self.bls, g2) {
            (true, false) => b(4),
            (true, true) => self.mul2(&b(4), &self.xi()),
            (false, false) => b(3),
            (false, true) => self.mul2(&b(3), &self.inv2(&self.xi())),
        }
    }
    pub fn on_curve(&self, p: &Pt, g2: bool) -> bool {
        match p {
            None => true,
            Some((x, y)) => {
                self.mul2(y, y) == self.add2(&self.mul2(&self.mul2(x, x), x), &self.b(g2))
            }
        }
    }
    pub fn neg_pt(&self, p: &Pt) -> Pt {
        p.as_ref()
            .map(|(x, y)| (x.clone(), self.sub2(&Self::zero2(), y)))
    }
    pub fn add_pt(&self, p: &Pt, q: &Pt) -> Pt {
        let ((x1, y1), (x2, y2)) = match (p, q) {
            (None, _) => return q.clone(),
            (_, None) => return p.clone(),
            (Some(a), Some(b)) => (a, b),
        };
        let (num, den) = if x1 == x2 {
            if self.add2(y1, y2) == Self::zero2() {
                return None;
            }
            let xx = self.mul2(x1, x1);
            (self.add2(&self.add2(&xx, &xx), &xx), self.add2(y1, y1))
        } else {
            (self.sub2(y2, y1), self.sub2(x2, x1))
        };
        let m = self.mul2(&num, &self.inv2(&den));
        let x = self.sub2(&self.sub2(&self.mul2(&m, &m), x1), x2);
        let y = self.sub2(&self.mul2(&m, &self.sub2(x1, &x)), y1);
        Some((x, y))
    }
    pub fn mul_pt(&self, p: &Pt, k: &BigUint) -> Pt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add_pt(&r, &r);
            if k.bit(i) {
                r = self.add_pt(&r, p);
            }
        }
        r
    }

    /// The BLS12-381 point of a compressed encoding (of the curve, not
    /// necessarily of the subgroup).
    pub fn decode_g1(&self, b: &[u8]) -> Option<Pt> {
        let (c, inf, sort) = (b[0] & 0x80 != 0, b[0] & 0x40 != 0, b[0] & 0x20 != 0);
        let mut b = b.to_vec();
        b[0] &= 0x1f;
        let x = BigUint::from_bytes_be(&b);
        if !c || x >= self.p {
            return None;
        }
        if inf {
            return (!sort && x.is_zero()).then_some(None);
        }
        let y = self.sqrt(&self.add(&(&x * &x * &x % &self.p), &4u32.into()))?;
        let other = self.sub(&BigUint::zero(), &y);
        let (lo, hi) = if y < other { (y, other) } else { (other, y) };
        let e = |v| [v, BigUint::zero()];
        Some(Some((e(x), e(if sort { hi } else { lo }))))
    }
    pub fn encode_g1(&self, p: &Pt) -> [u8; 48] {
        let mut out = [0; 48];
        match p {
            None => out[0] = 0xc0,
            Some((x, y)) => {
                let v = x[0].to_bytes_be();
                out[48 - v.len()..].copy_from_slice(&v);
                out[0] |= 0x80;
                if y[0] > self.sub(&BigUint::zero(), &y[0]) {
                    out[0] |= 0x20;
                }
            }
        }
        out
    }
}
