//! C14: Nibbles against a vector of nibbles.
use std::str::FromStr;

use ethereum_types::{H256, U128, U256};
use mpt_trie::nibbles::{Nibbles, NibblesIntern, ToNibbles};

use super::mpt::{nib, unnib};
use crate::fw::*;
use crate::refevm::mpt::{hex_prefix, to_nibbles};
use crate::{ensure_eq_prop, ensure_prop};

fn seq(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.range(0, max.min(10)),
        1 => s.range(0, max),
        _ => max,
    };
    let style = s.below(4);
    (0..n)
        .map(|_| match style {
            0 => s.below(16) as u8,
            1 => 0,
            2 => 15,
            _ => s.pick(&[0u8, 0, 1, 8, 15]),
        })
        .collect()
}

fn pack(v: &[u8]) -> NibblesIntern {
    let mut x = NibblesIntern::zero();
    for n in v {
        x = (x << 4) | NibblesIntern::from(*n as u64);
    }
    x
}

fn is(n: &Nibbles, v: &[u8], what: &str, log: &[String]) -> CaseResult {
    ensure_eq_prop!(n.count, v.len(), "count", "{what}: count; {log:?}");
    ensure_eq_prop!(n.packed, pack(v), "packed", "{what}: packed; {log:?}");
    ensure_eq_prop!(unnib(n), v.to_vec(), "nibbles", "{what}; {log:?}");
    ensure_eq_prop!(n.is_empty(), v.is_empty(), "empty", "{what}; {log:?}");
    ensure_eq_prop!(n.min_bytes(), (v.len() + 1) / 2, "min_bytes", "{what}");
    Ok(())
}

fn ops(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let mut v = seq(s, 64);
    let mut n = nib(&v);
    let mut log = vec![format!("start {v:?}")];
    is(&n, &v, "start", &log)?;
    for _ in 0..s.range(1, 25) {
        let o = seq(s, 20);
        let x = s.below(16) as u8;
        match s.below(22) {
            0 if v.len() < 64 => {
                log.push(format!("push_front {x}"));
                n.push_nibble_front(x);
                v.insert(0, x);
            }
            1 if v.len() < 64 => {
                log.push(format!("push_back {x}"));
                n.push_nibble_back(x);
                v.push(x);
            }
            2 if v.len() + o.len() <= 64 => {
                log.push(format!("push_nibbles_front {o:?}"));
                n.push_nibbles_front(&nib(&o));
                v = [o, v].concat();
            }
            3 if v.len() + o.len() <= 64 => {
                log.push(format!("push_nibbles_back {o:?}"));
                n.push_nibbles_back(&nib(&o));
                v.extend(o);
            }
            4 if !v.is_empty() => {
                log.push("pop_front".into());
                ensure_eq_prop!(n.pop_next_nibble_front(), v.remove(0), "pop_front", "{log:?}");
            }
            5 if !v.is_empty() => {
                log.push("pop_back".into());
                ensure_eq_prop!(n.pop_next_nibble_back(), v.pop().unwrap(), "pop_back", "{log:?}");
            }
            6 => {
                let k = s.below(v.len() + 1);
                log.push(format!("pop_nibbles_front {k}"));
                let r = n.pop_nibbles_front(k);
                let w: Vec<u8> = v.drain(..k).collect();
                is(&r, &w, "popped", &log)?;
            }
            7 => {
                let k = s.below(v.len() + 1);
                log.push(format!("pop_nibbles_back {k}"));
                let r = n.pop_nibbles_back(k);
                let mut w = v.split_off(v.len() - k);
                w.reverse();
                is(&r, &w, "popped", &log)?;
            }
            8 => {
                let k = s.below(v.len() + 4);
                log.push(format!("truncate_front {k}"));
                let w = v[k.min(v.len())..].to_vec();
                is(&n.truncate_n_nibbles_front(k), &w, "truncate_front", &log)?;
                n.truncate_n_nibbles_front_mut(k);
                v = w;
            }
            9 => {
                let k = s.below(v.len() + 4);
                log.push(format!("truncate_back {k}"));
                let w = v[..v.len() - k.min(v.len())].to_vec();
                is(&n.truncate_n_nibbles_back(k), &w, "truncate_back", &log)?;
                n.truncate_n_nibbles_back_mut(k);
                v = w;
            }
            10 => {
                let a = s.below(v.len() + 1);
                let b = a + s.below(v.len() - a + 1);
                log.push(format!("range {a}..{b}"));
                is(&n.get_nibble_range(a..b), &v[a..b], "range", &log)?;
                is(&n.get_next_nibbles(b), &v[..b], "next", &log)?;
            }
            11 => {
                let i = s.below(v.len() + 1);
                log.push(format!("split {i}"));
                let (a, b) = n.split_at_idx(i);
                is(&a, &v[..i], "split pre", &log)?;
                is(&b, &v[i..], "split post", &log)?;
                is(&n.split_at_idx_prefix(i), &v[..i], "split prefix", &log)?;
                is(&n.split_at_idx_postfix(i), &v[i..], "split postfix", &log)?;
                is(&a.merge_nibbles(&b), &v, "merge of split", &log)?;
            }
            12 if v.len() < 64 => {
                log.push(format!("merge_nibble {x}"));
                let mut w = v.clone();
                w.push(x);
                is(&n.merge_nibble(x), &w, "merge_nibble", &log)?;
            }
            13 if v.len() + o.len() <= 64 => {
                log.push(format!("merge_nibbles {o:?}"));
                is(&n.merge_nibbles(&nib(&o)), &[v.clone(), o].concat(), "merge_nibbles", &log)?;
            }
            14 => {
                log.push("reverse".into());
                v.reverse();
                n = n.reverse();
            }
            15 => {
                // comparison with a relative
                let mut w = v.clone();
                if s.bool() {
                    w.truncate(s.below(v.len() + 1));
                }
                if !w.is_empty() && s.bool() {
                    let i = s.below(w.len());
                    w[i] ^= 1 << s.below(4);
                }
                log.push(format!("compare with {w:?}"));
                let m = nib(&w);
                let diff = v.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(v.len().min(w.len()));
                ensure_eq_prop!(
                    Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&n, &m),
                    diff,
                    "differs",
                    "{log:?}"
                );
                if v.len() == w.len() {
                    ensure_eq_prop!(
                        Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&m, &n),
                        diff,
                        "differs-eq",
                        "{log:?}"
                    );
                }
                ensure_eq_prop!(
                    n.nibbles_are_identical_up_to_smallest_count(&m),
                    diff == v.len().min(w.len()),
                    "identical",
                    "{log:?}"
                );
                ensure_eq_prop!(n == m, v == w, "eq", "{log:?}");
            }
            16 => {
                let leaf = s.bool();
                log.push(format!("hex_prefix {leaf}"));
                let e = n.to_hex_prefix_encoding(leaf);
                ensure_eq_prop!(e.to_vec(), hex_prefix(&v, leaf), "hex-prefix", "{log:?}");
                let d = Nibbles::from_hex_prefix_encoding(&e);
                let mut w = v.clone();
                if leaf {
                    w.extend([1, 0]); // the terminator byte
                }
                match d {
                    Ok(d) => {
                        ensure_eq_prop!(unnib(&d), w, "hex-prefix-decode", "{log:?}");
                    }
                    Err(e) => return fail("hex-prefix-decode", format!("{e}; {log:?}")),
                }
            }
            17 => {
                log.push("display".into());
                let mut h: String = v.iter().map(|x| char::from_digit(*x as u32, 16).unwrap()).collect();
                h.insert_str(0, "0x");
                ensure_eq_prop!(format!("{n}"), h, "display", "{log:?}");
                ensure_eq_prop!(format!("{n:x}"), h, "lower", "{log:?}");
                ensure_eq_prop!(format!("{n:X}"), format!("0x{}", h[2..].to_uppercase()), "upper", "{log:?}");
                if !v.is_empty() {
                    for t in [h.clone(), h[2..].to_string()] {
                        match Nibbles::from_str(&t) {
                            Ok(p) => is(&p, &v, "from_str", &log)?,
                            Err(e) => return fail("from_str", format!("{e:?} {t}")),
                        }
                    }
                }
            }
            18 => {
                log.push("bytes_be".into());
                let mut w = v.clone();
                if w.len() % 2 == 1 {
                    w.insert(0, 0);
                }
                let b: Vec<u8> = w.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
                ensure_eq_prop!(n.bytes_be(), b, "bytes_be", "{log:?}");
                let mut full = vec![0u8; 32 - b.len()];
                full.extend(&b);
                ensure_eq_prop!(H256::from(n), H256::from_slice(&full), "h256", "{log:?}");
                let u: Result<U256, _> = n.try_into();
                ensure_eq_prop!(u.ok(), Some(U256::from_big_endian(&b)), "u256", "{log:?}");
                if !b.is_empty() {
                    is(&Nibbles::from_bytes_be(&b).unwrap(), &to_nibbles(&b), "from_bytes_be", &log)?;
                    let rev: Vec<u8> = b.iter().rev().copied().collect();
                    is(&Nibbles::from_bytes_le(&rev).unwrap(), &to_nibbles(&b), "from_bytes_le", &log)?;
                }
            }
            19 => {
                let j = serde_json::to_string(&n).unwrap();
                let b: Nibbles = serde_json::from_str(&j).unwrap();
                is(&b, &v, "serde", &log)?;
            }
            _ => {}
        }
        is(&n, &v, "current", &log)?;
    }
    if log.len() > 3 {
        rec.nontrivial(&log);
    }
    rec.sample(log.join("; "));
    Ok(())
}

fn ints(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let x = s.word();
    rec.nontrivial(&x.0);
    rec.sample(format!("{x:#x}"));
    let min = |b: &[u8]| -> Vec<u8> { to_nibbles(b).into_iter().skip_while(|z| *z == 0).collect() };
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    let log = vec![format!("{x:#x}")];
    let padded = |v: &[u8]| -> Vec<u8> {
        let mut v = v.to_vec();
        if v.len() % 2 == 1 {
            v.insert(0, 0);
        }
        v
    };
    let w = min(&b);
    is(&Nibbles::from(x), &w, "U256", &log)?;
    is(&x.to_nibbles_byte_padded(), &padded(&w), "U256 padded", &log)?;
    ensure_eq_prop!(NibblesIntern::from(x), pack(&w), "intern", "{x}");
    ensure_eq_prop!(Nibbles::get_num_nibbles_in_key(&NibblesIntern::from(x)), w.len(), "num", "{x}");
    let l = x.low_u128();
    is(&Nibbles::from(U128::from(l)), &min(&l.to_be_bytes()), "U128", &log)?;
    let l = x.low_u64();
    let w = min(&l.to_be_bytes());
    is(&Nibbles::from(l), &w, "u64", &log)?;
    is(&l.to_nibbles_byte_padded(), &padded(&w), "u64 padded", &log)?;
    is(&Nibbles::from(l as usize), &w, "usize", &log)?;
    is(&Nibbles::from(l as u32), &min(&(l as u32).to_be_bytes()), "u32", &log)?;
    is(&Nibbles::from(l as u16), &min(&(l as u16).to_be_bytes()), "u16", &log)?;
    is(&Nibbles::from(l as u8), &min(&[l as u8]), "u8", &log)?;
    let h = H256(b);
    is(&Nibbles::from_h256_be(h), &to_nibbles(&b), "h256 be", &log)?;
    let rev: Vec<u8> = b.iter().rev().copied().collect();
    is(&Nibbles::from_h256_le(h), &to_nibbles(&rev), "h256 le", &log)?;
    ensure_eq_prop!(H256::from(Nibbles::from_h256_be(h)), h, "h256 roundtrip", "{h:?}");
    let f = (x.low_u32() & 15) as u8;
    is(&Nibbles::from_nibble(f), &[f], "from_nibble", &log)?;
    Ok(())
}

/// Malformed inputs are refused with an error, never a panic.
fn malformed(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let n = s.range(1, 45);
    let mut b = s.bytes(n);
    if s.bool() {
        b[0] &= 0x3f;
    }
    rec.nontrivial(&b);
    rec.sample(hex::encode(&b));
    let flag = b[0] >> 4;
    let r = Nibbles::from_hex_prefix_encoding(&b);
    if b.len() > 33 || flag > 3 {
        ensure_prop!(r.is_err(), "bad-accepted", "accepted {}", hex::encode(&b));
    } else {
        ensure_prop!(r.is_ok(), "good-refused", "refused {}: {r:?}", hex::encode(&b));
    }
    ensure_eq_prop!(Nibbles::from_bytes_be(&b).is_ok(), b.len() <= 33, "bytes-len", "{}", b.len());
    ensure_prop!(Nibbles::from_bytes_be(&[]).is_err(), "bytes-empty", "empty accepted");
    Ok(())
}

pub fn c14() -> Check {
    Check {
        property: "C14",
        level: "exploration",
        assumptions: vec!["sequences of at most 64 nibbles (the documented limit)".into()],
        facets: vec![
            Facet::new("ops", "operation sequences on a nibble sequence against a Vec<u8> model; non-trivial = at least 3 applied operations, distinct by log", 1_000_000, 20_000_000, 700, ops),
            Facet::new("ints", "conversions of boundary-biased integers and hashes; distinct by value", 300_000, 4_000_000, 16, ints),
            Facet::new("malformed", "hex-prefix and byte inputs of any length/flag: refused exactly when malformed", 200_000, 2_000_000, 16, malformed),
        ],
    }
}
