//! C15: the sparse Merkle tree against a map and a recursive reference root.
use std::collections::{BTreeMap, BTreeSet};

use alloy::primitives::U256 as AU256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use smt_trie::bits::Bits;
use smt_trie::db::MemoryDb;
use smt_trie::smt::{hash_serialize, hash_serialize_u256, Key, Smt};
use smt_trie::utils::{hashout2u, key2u};

use crate::fw::*;
use crate::{ensure_eq_prop, ensure_prop};

const P: u64 = 0xffff_ffff_0000_0001;

fn key(k: [u64; 4]) -> Key {
    Key(k.map(F::from_canonical_u64))
}

/// Bit i of the path: round robin over the four words, least significant first.
pub fn bit(k: &[u64; 4], i: usize) -> bool {
    k[i % 4] >> (i / 4) & 1 == 1
}

fn rem(k: &[u64; 4], n: usize) -> [u64; 4] {
    std::array::from_fn(|j| {
        let used = (n + 3 - j) / 4;
        if used >= 64 {
            0
        } else {
            k[j] >> used
        }
    })
}

pub fn hash(x: [u64; 8], cap: u64) -> [u64; 4] {
    let mut a = [F::ZERO; 12];
    for i in 0..8 {
        a[i] = F::from_canonical_u64(x[i]);
    }
    a[8] = F::from_canonical_u64(cap);
    let h = F::poseidon(a);
    std::array::from_fn(|i| h[i].to_canonical_u64())
}

pub fn root_ref(kv: &[(&[u64; 4], &AU256)], depth: usize) -> [u64; 4] {
    match kv {
        [] => [0; 4],
        [(k, v)] => {
            let mut limbs = [0u64; 8];
            for (i, l) in v.as_limbs().iter().enumerate() {
                limbs[2 * i] = l & 0xffff_ffff;
                limbs[2 * i + 1] = l >> 32;
            }
            let vh = hash(limbs, 0);
            let r = rem(k, depth);
            hash([r[0], r[1], r[2], r[3], vh[0], vh[1], vh[2], vh[3]], 1)
        }
        _ => {
            let (l, r): (Vec<_>, Vec<_>) = kv.iter().partition(|(k, _)| !bit(k, depth));
            let a = root_ref(&l, depth + 1);
            let b = root_ref(&r, depth + 1);
            hash([a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]], 0)
        }
    }
}

type M = BTreeMap<[u64; 4], AU256>;

fn root(m: &M) -> [u64; 4] {
    root_ref(&m.iter().collect::<Vec<_>>(), 0)
}

fn pool(s: &mut Src) -> Vec<[u64; 4]> {
    let n = s.range(1, 14);
    let style = s.below(4);
    let mut out = BTreeSet::new();
    let base: [u64; 4] = std::array::from_fn(|_| s.u64() % P);
    for _ in 0..n {
        let k: [u64; 4] = match style {
            0 => std::array::from_fn(|_| s.u64() % P),
            1 => std::array::from_fn(|_| s.below(4) as u64),
            2 => {
                // long shared prefix with the base
                let mut k = base;
                for _ in 0..s.range(1, 2) {
                    let (w, b) = (s.below(4), s.below(64));
                    k[w] ^= 1 << b;
                    k[w] %= P;
                }
                k
            }
            _ => {
                let mut k = [0; 4];
                for _ in 0..s.range(0, 3) {
                    let w = s.below(4);
                    k[w] = (k[w] | 1 << s.pick(&[0u64, 1, 2, 5, 31, 32, 62, 63])) % P;
                }
                k
            }
        };
        out.insert(k);
    }
    out.into_iter().collect()
}

fn val(s: &mut Src) -> AU256 {
    AU256::from_limbs(s.word().0)
}

fn hx(h: [u64; 4]) -> [u64; 4] {
    h
}

fn check(t: &Smt<MemoryDb>, m: &M, log: &[String]) -> CaseResult {
    let got: [u64; 4] = t.root.elements.map(|x| x.to_canonical_u64());
    ensure_eq_prop!(got, hx(root(m)), "root", "root after {log:?}");
    Ok(())
}

fn ops(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let pool = pool(s);
    let mut t = Smt::<MemoryDb>::default();
    let mut m = M::new();
    let mut log = vec![];
    let (mut dels, mut big) = (0, 0);
    for _ in 0..s.range(1, 30) {
        let k = if !m.is_empty() && s.chance(1, 3) {
            *m.keys().nth(s.below(m.len())).unwrap()
        } else {
            s.pick(&pool)
        };
        match s.weighted(&[6, 3, 1, 2]) {
            0 => {
                let v = val(s);
                log.push(format!("set {k:x?} = {v:#x}"));
                t.set(key(k), v);
                if v.is_zero() {
                    dels += m.remove(&k).is_some() as usize;
                } else {
                    m.insert(k, v);
                }
            }
            1 => {
                log.push(format!("delete {k:x?}"));
                t.delete(key(k));
                dels += m.remove(&k).is_some() as usize;
            }
            2 => {
                log.push(format!("set {k:x?} = 0"));
                t.set(key(k), AU256::ZERO);
                dels += m.remove(&k).is_some() as usize;
            }
            _ => {
                log.push(format!("get {k:x?}"));
                let g = t.get(key(k));
                ensure_eq_prop!(g, m.get(&k).copied().unwrap_or(AU256::ZERO), "get", "{log:?}");
            }
        }
        big = big.max(m.len());
        check(&t, &m, &log)?;
    }
    for k in &pool {
        let g = t.get(key(*k));
        ensure_eq_prop!(g, m.get(k).copied().unwrap_or(AU256::ZERO), "get", "final get {k:x?}; {log:?}");
    }
    // serialisation keeps the root, whatever is pruned
    let u = hashout2u(t.root);
    ensure_eq_prop!(hash_serialize_u256(&t.serialize()), u, "serialize", "{log:?}");
    ensure_eq_prop!(hash_serialize(&t.serialize()), t.root, "serialize", "{log:?}");
    let keep: Vec<Key> = pool.iter().filter(|_| s.bool()).map(|k| key(*k)).collect();
    let ser = t.serialize_and_prune(keep.iter());
    ensure_eq_prop!(hash_serialize_u256(&ser), u, "prune-root", "kept {} of {}; {log:?}", keep.len(), pool.len());
    // kept keys are reachable in the pruned serialisation with their value
    for k in pool.iter().filter(|k| keep.contains(&key(**k))) {
        let got = lookup(&ser, k);
        ensure_eq_prop!(got, Ok(m.get(k).copied()), "prune-get", "kept key {k:x?}; {log:?}");
    }
    if dels > 0 && big >= 2 {
        rec.nontrivial(&log);
    }
    rec.sample(log.join("; "));
    Ok(())
}

/// Looks a key up in the documented serialisation format.
fn lookup(v: &[AU256], k: &[u64; 4]) -> Result<Option<AU256>, String> {
    let mut p = 2usize;
    let mut d = 0;
    loop {
        match v[p].to::<u64>() {
            0 => {
                return if v[p + 1].is_zero() {
                    Ok(None)
                } else {
                    Err(format!("hashed out at depth {d}"))
                }
            }
            1 => {
                p = v[p + 1 + bit(k, d) as usize].to::<usize>();
                d += 1;
            }
            2 => {
                let r = key2u(key(rem(k, d)));
                return Ok((v[p + 1] == r).then_some(v[p + 2]));
            }
            x => return Err(format!("node type {x}")),
        }
    }
}

/// Key <-> bits, and the Bits type against a Vec<bool>.
fn bits(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let p = pool(s);
    let k = s.pick(&p);
    rec.nontrivial(&k);
    rec.sample(format!("{k:x?}"));
    let b = key(k).split();
    ensure_eq_prop!(b.count, 256, "split-len", "");
    let v: Vec<bool> = (0..256).map(|i| b.get_bit(i)).collect();
    let w: Vec<bool> = (0..256).map(|i| bit(&k, i)).collect();
    ensure_eq_prop!(v, w, "split", "{k:x?}");
    let n = s.below(257);
    let mut pre = Bits::empty();
    for x in &w[..n] {
        pre.push_bit(*x);
    }
    let back = Key::join(pre, key(rem(&k, n)));
    ensure_eq_prop!(back, key(k), "join", "{k:x?} at {n}");
    let mut popped = pre;
    for i in (0..n).rev() {
        ensure_eq_prop!(popped.pop_next_bit(), w[i], "pop", "{k:x?} at {i}");
    }
    ensure_prop!(popped.is_empty(), "pop-empty", "");
    let j = s.below(n + 1);
    let mut a = Bits::empty();
    let mut c = Bits::empty();
    for (i, x) in w[..n].iter().enumerate() {
        if i < j {
            a.push_bit(*x)
        } else {
            c = c.add_bit(*x)
        }
    }
    ensure_eq_prop!(a + c, pre, "concat", "{k:x?} {n} {j}");
    // common prefix with a relative
    let mut z = w[..n].to_vec();
    if n > 0 && s.bool() {
        let i = s.below(n);
        z[i] = !z[i];
    }
    z.truncate(s.below(n + 1).max(z.len() / 2));
    let mut zb = Bits::empty();
    z.iter().for_each(|x| zb.push_bit(*x));
    let (p, d) = pre.common_prefix(&zb);
    let cp = w[..n].iter().zip(&z).take_while(|(a, b)| a == b).count();
    ensure_eq_prop!(p.count, cp, "common", "{k:x?}");
    for i in 0..cp {
        ensure_eq_prop!(p.get_bit(i), w[i], "common-bits", "{k:x?}");
    }
    let want = if cp == n.min(z.len()) { None } else { Some((w[cp], z[cp])) };
    ensure_eq_prop!(d, want, "common-div", "{k:x?}");
    Ok(())
}

/// A tree whose subtrees were replaced by hash nodes has the same root and
/// accepts updates of the untouched part.
fn set_hash(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let pool = pool(s);
    let mut m = M::new();
    let mut t = Smt::<MemoryDb>::default();
    for k in &pool {
        let v = val(s);
        if !v.is_zero() {
            t.set(key(*k), v);
            m.insert(*k, v);
        }
    }
    if m.len() < 2 {
        return Ok(());
    }
    // choose hashed-out prefixes: subtrees (with at least 2 keys) none of the
    // kept keys passes through
    let keep: BTreeSet<[u64; 4]> = m.keys().filter(|_| s.chance(1, 3)).copied().collect();
    let mut hashed = vec![];
    collect(&m.iter().collect::<Vec<_>>(), 0, &keep, &mut hashed);
    let mut p = Smt::<MemoryDb>::default();
    for (bits, h) in &hashed {
        let mut b = Bits::empty();
        bits.iter().for_each(|x| b.push_bit(*x));
        p.set_hash(
            b,
            smt_trie::smt::HashOut {
                elements: h.map(F::from_canonical_u64),
            },
        );
    }
    let mut left = m.clone();
    for (bits, _) in &hashed {
        left.retain(|k, _| !bits.iter().enumerate().all(|(i, b)| bit(k, i) == *b));
    }
    for (k, v) in &left {
        p.set(key(*k), *v);
    }
    let what = format!("{} keys, {} hashed-out subtrees: {m:x?} keep {keep:x?}", m.len(), hashed.len());
    ensure_eq_prop!(p.root, t.root, "set_hash", "{what}");
    for (k, v) in &left {
        ensure_eq_prop!(p.get(key(*k)), *v, "set_hash-get", "{what}");
    }
    // update kept keys on both
    for (k, _) in left.clone() {
        let v = val(s);
        if v.is_zero() {
            continue;
        }
        p.set(key(k), v);
        t.set(key(k), v);
        ensure_eq_prop!(p.root, t.root, "set_hash-update", "{what} set {k:x?}");
    }
    if !hashed.is_empty() && !left.is_empty() {
        rec.nontrivial(&what);
    }
    rec.sample(what);
    Ok(())
}

fn collect(kv: &[(&[u64; 4], &AU256)], d: usize, keep: &BTreeSet<[u64; 4]>, out: &mut Vec<(Vec<bool>, [u64; 4])>) {
    if kv.len() < 2 {
        return;
    }
    if d > 0 && !kv.iter().any(|(k, _)| keep.contains(*k)) {
        let bits = (0..d).map(|i| bit(kv[0].0, i)).collect();
        out.push((bits, root_ref(kv, d)));
        return;
    }
    let (l, r): (Vec<_>, Vec<_>) = kv.iter().partition(|(k, _)| !bit(k, d));
    collect(&l, d + 1, keep, out);
    collect(&r, d + 1, keep, out);
}

pub fn c15() -> Check {
    Check {
        property: "C15",
        level: "exploration",
        assumptions: vec!["plonky2's Poseidon permutation is trusted; key words are canonical field elements".into()],
        facets: vec![
            Facet::new("ops", "set/delete/get sequences over related keys against a map and a recursive reference root, then (pruned) serialisation; non-trivial = a present key removed and 2 keys at once", 40_000, 600_000, 500, ops),
            Facet::new("bits", "key/bit-path conversions against a Vec<bool>", 200_000, 2_000_000, 80, bits),
            Facet::new("set_hash", "trees rebuilt with hashed-out subtrees; non-trivial = some subtree hashed and some key kept", 25_000, 400_000, 300, set_hash),
        ],
    }
}
