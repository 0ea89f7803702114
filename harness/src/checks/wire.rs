//! C17: the compact witness, read back.
use std::collections::{BTreeMap, BTreeSet};

use alloy::primitives::U256 as AU256;
use ethereum_types::{Address, H256, U256};
use evm_arithmetization::tries::SmtKey;
use evm_arithmetization::world::{Type1World, Type2Entry, Type2World, World as _};
use keccak_hash::keccak;
use mpt_trie::partial_trie::PartialTrie;
use mpt_trie::trie_ops::ValOrHash;
use nunny::NonEmpty;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use trace_decoder::verif_hooks::{parse, type1, type2, Instruction, SmtLeaf, SmtLeafType};
use u4::U4;

use super::mpt::{same_structure, unnib};
use super::smt::{bit, root_ref};
use crate::evmgen::ops::at;
use crate::fw::{fail, guarded, CaseResult, Check, Facet, Rec, Src};
use crate::refevm::block::{account_rlp, addr_key, slot_key, state_map, storage_map};
use crate::refevm::compact::{self, be_trim, cbor_array, cbor_bytes, cbor_uint, key_bytes, Keep};
use crate::refevm::evm::{Account, World};
use crate::refevm::mpt::{self, RNode};
use crate::refevm::rlp;

// ---- instructions, as a plain type of our own ----

#[derive(Clone, Debug, PartialEq)]
enum I {
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>),
    Branch(u64),
    Hash([u8; 32]),
    Code(Vec<u8>),
    /// key, nonce, balance, has code, has storage
    Account(Vec<u8>, Option<u64>, Option<U256>, bool, bool),
    Smt(u8, Vec<u8>, Vec<u8>, Vec<u8>),
    Empty,
    New,
}

fn theirs(i: &Instruction) -> I {
    let k = |k: &NonEmpty<Vec<U4>>| k.iter().map(|x| *x as u8).collect::<Vec<u8>>();
    match i {
        Instruction::Leaf { key, value } => I::Leaf(k(key), value.to_vec()),
        Instruction::Extension { key } => I::Ext(k(key)),
        Instruction::Branch { mask } => I::Branch(*mask),
        Instruction::Hash { raw_hash } => I::Hash(*raw_hash),
        Instruction::Code { raw_code } => I::Code(raw_code.to_vec()),
        Instruction::AccountLeaf { key, nonce, balance, has_code, has_storage } => {
            I::Account(k(key), *nonce, *balance, *has_code, *has_storage)
        }
        Instruction::SmtLeaf(SmtLeaf { node_type, address, value }) => {
            let (t, slot) = match node_type {
                SmtLeafType::Balance => (0, vec![]),
                SmtLeafType::Nonce => (1, vec![]),
                SmtLeafType::Code => (2, vec![]),
                SmtLeafType::Storage(s) => (3, s.to_vec()),
                SmtLeafType::CodeLength => (4, vec![]),
            };
            I::Smt(t, address.to_vec(), slot, value.to_vec())
        }
        Instruction::EmptyRoot => I::Empty,
        Instruction::NewTrie => I::New,
    }
}

fn put_bytes(s: &mut Src, b: &[u8], out: &mut Vec<u8>) {
    if s.chance(1, 4) {
        cbor_array(b, out)
    } else {
        cbor_bytes(b, out)
    }
}
fn put_key(s: &mut Src, k: &[u8], out: &mut Vec<u8>) {
    let b = key_bytes(k, s.bool(), s.bool());
    put_bytes(s, &b, out)
}
fn put(s: &mut Src, i: &I, out: &mut Vec<u8>) {
    match i {
        I::Leaf(k, v) => {
            out.push(0);
            put_key(s, k, out);
            put_bytes(s, v, out);
        }
        I::Ext(k) => {
            out.push(1);
            put_key(s, k, out);
        }
        I::Branch(m) => {
            out.push(2);
            cbor_uint(*m, out);
        }
        I::Hash(h) => {
            out.push(3);
            out.extend(h);
        }
        I::Code(c) => {
            out.push(4);
            put_bytes(s, c, out);
        }
        I::Account(k, n, b, c, st) => {
            out.push(5);
            put_key(s, k, out);
            out.push(*c as u8 | (*st as u8) << 1 | (n.is_some() as u8) << 2 | (b.is_some() as u8) << 3);
            if let Some(n) = n {
                cbor_uint(*n, out);
            }
            if let Some(b) = b {
                let mut v = be_trim(*b);
                // (leading zeros do not matter)
                while s.chance(1, 6) && v.len() < 32 {
                    v.insert(0, 0);
                }
                put_bytes(s, &v, out);
            }
            if *c {
                cbor_uint(s.below(30000) as u64, out);
            }
        }
        I::Smt(t, a, sl, v) => {
            out.push(7);
            out.push(*t);
            put_bytes(s, a, out);
            if *t == 3 {
                put_bytes(s, sl, out);
            }
            put_bytes(s, v, out);
        }
        I::Empty => out.push(6),
        I::New => out.push(0xbb),
    }
}

// ---- a lenient reader of our own (CBOR fields through ciborium) ----

fn cb<T: serde::de::DeserializeOwned>(x: &mut &[u8]) -> Option<T> {
    ciborium::from_reader::<T, _>(&mut *x).ok()
}
fn cbytes(x: &mut &[u8]) -> Option<Vec<u8>> {
    cb::<Vec<u8>>(x).filter(|v| !v.is_empty())
}
fn byte(x: &mut &[u8]) -> Option<u8> {
    let (a, b) = x.split_first()?;
    *x = b;
    Some(*a)
}
fn ckey(x: &mut &[u8]) -> Option<Vec<u8>> {
    let b = cbytes(x)?;
    if b.len() == 1 {
        return (b[0] < 16).then(|| b);
    }
    if b[0] > 3 {
        return None;
    }
    let mut n = mpt::to_nibbles(&b[1..]);
    if b[0] & 1 == 1 && n.pop() != Some(0) {
        return None;
    }
    Some(n)
}
fn read(b: &[u8]) -> Option<Vec<I>> {
    let x = &mut &b[..];
    if byte(x)? > 1 {
        return None;
    }
    let mut out = vec![];
    while !x.is_empty() {
        out.push(match byte(x)? {
            0 => {
                let k = ckey(x)?;
                I::Leaf(k, cbytes(x)?)
            }
            1 => I::Ext(ckey(x)?),
            2 => I::Branch(cb(x)?),
            3 => {
                let h = x.get(..32)?.try_into().unwrap();
                *x = &x[32..];
                I::Hash(h)
            }
            4 => I::Code(cbytes(x)?),
            5 => {
                let k = ckey(x)?;
                let f = byte(x)?;
                if f > 15 {
                    return None;
                }
                let n = if f & 4 != 0 { Some(cb::<u64>(x)?) } else { None };
                let b = if f & 8 != 0 {
                    let v: Vec<u8> = cb(x)?;
                    if v.len() > 32 {
                        return None;
                    }
                    Some(U256::from_big_endian(&v))
                } else {
                    None
                };
                if f & 1 != 0 {
                    cb::<u64>(x)?;
                }
                I::Account(k, n, b, f & 1 != 0, f & 2 != 0)
            }
            6 => I::Empty,
            7 => {
                let t = byte(x)?;
                let a = cbytes(x)?;
                let sl = match t {
                    3 => cbytes(x)?,
                    0..=4 => vec![],
                    _ => return None,
                };
                I::Smt(t, a, sl, cbytes(x)?)
            }
            0xbb => I::New,
            _ => return None,
        });
    }
    (!out.is_empty()).then_some(out)
}

fn check_parse(bytes: &[u8], what: &str) -> Result<Option<(NonEmpty<Vec<Instruction>>, Vec<I>)>, crate::fw::Fail> {
    let want = read(bytes);
    let got = match guarded(|| parse(bytes)) {
        Ok(r) => r.ok(),
        Err(p) => return fail("parse-panic", format!("{what}: {p}\n    {}", hex::encode(bytes))),
    };
    let g: Option<Vec<I>> = got.as_ref().map(|v| v.iter().map(theirs).collect());
    if g != want {
        return fail(
            format!("parse:{}", if want.is_some() { "not as encoded" } else { "accepted" }),
            format!("{what}: parsed {g:?}\n    expected {want:?}\n    {}", hex::encode(bytes)),
        );
    }
    Ok(got.zip(want))
}

fn nibs(s: &mut Src, lo: usize, hi: usize) -> Vec<u8> {
    (0..s.range(lo, hi)).map(|_| s.below(16) as u8).collect()
}
fn some_bytes(s: &mut Src, lo: usize) -> Vec<u8> {
    let n = match s.below(6) {
        0 => s.pick(&[23usize, 24, 25, 255, 256, 257]),
        1 => s.range(lo, 70),
        _ => s.range(lo, 12),
    };
    s.bytes(n)
}

fn instr(s: &mut Src) -> I {
    let n = s.pick(&[4usize, 8, 64, 66]);
    match s.below(9) {
        0 => I::Leaf(nibs(s, 1, n), some_bytes(s, 1)),
        1 => I::Ext(nibs(s, 1, n)),
        2 => I::Branch(match s.below(3) {
            0 => s.below(4) as u64,
            1 => s.below(65536) as u64,
            _ => s.u64() >> s.below(64),
        }),
        3 => I::Hash(s.h256().0),
        4 => I::Code(some_bytes(s, 1)),
        5 => I::Account(
            nibs(s, 1, n),
            s.bool().then(|| s.u64() >> s.below(64)),
            s.bool().then(|| s.word()),
            s.bool(),
            s.bool(),
        ),
        6 => {
            let t = s.below(5) as u8;
            let k = s.pick(&[20usize, 20, 20, 1, 32, 33]);
            let sl = if t == 3 { some_bytes(s, 1) } else { vec![] };
            I::Smt(t, s.bytes(k), sl, some_bytes(s, 1))
        }
        7 => I::Empty,
        _ => I::New,
    }
}

fn c17_parse(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let n = s.range(1, 12);
    let is: Vec<I> = (0..n).map(|_| instr(s)).collect();
    let mut b = vec![s.below(2) as u8];
    for i in &is {
        put(s, i, &mut b);
    }
    let what = format!("{is:?}");
    match check_parse(&b, &what)? {
        Some((_, v)) if v == is => {}
        r => return fail("parse:not as encoded", format!("{what}: read {:?}", r.map(|x| x.1))),
    }
    rec.nontrivial(&b);
    rec.sample(what.chars().take(300).collect());
    // damage, and what's left of it
    for _ in 0..3 {
        rec.evals += 1;
        let (d, k) = damage(s, &b);
        rec.label(k);
        check_parse(&d, &format!("{k} of {what}"))?;
    }
    Ok(())
}

fn damage(s: &mut Src, b: &[u8]) -> (Vec<u8>, &'static str) {
    let mut d = b.to_vec();
    let k = match s.weighted(&[3, 3, 2, 3, 2, 2, 1]) {
        0 => {
            let i = s.below(d.len());
            d[i] ^= 1 << s.below(8);
            "a bit flipped"
        }
        1 => {
            d.truncate(s.below(d.len()));
            "cut short"
        }
        2 => {
            let i = s.below(d.len());
            d.remove(i);
            "a byte removed"
        }
        3 => {
            let i = s.below(d.len() + 1);
            let x = if s.bool() { s.below(8) as u8 } else { s.u8() };
            d.insert(i, x);
            "a byte inserted"
        }
        4 => {
            for _ in 0..s.range(1, 3) {
                let e = instr(s);
                put(s, &e, &mut d);
            }
            "more at the end"
        }
        5 => {
            let i = s.below(d.len());
            d[i] = if s.bool() { s.below(10) as u8 } else { s.u8() };
            "a byte replaced"
        }
        _ => {
            let i = s.below(d.len());
            let j = s.range(i, d.len() - 1);
            let x = d[i..j].to_vec();
            let p = s.below(d.len());
            d.splice(p..p, x);
            "a part repeated"
        }
    };
    (d, k)
}

// ---- MPT ----

/// What a witness says, by a direct reading of its instructions.
#[derive(Default, Debug, PartialEq, Clone)]
struct Trie {
    items: BTreeMap<Vec<u8>, Vec<u8>>,
    hashes: BTreeMap<Vec<u8>, H256>,
}
#[derive(Default, Debug, PartialEq, Clone)]
struct Said {
    accounts: BTreeMap<Vec<u8>, (u64, U256, H256)>,
    hashes: BTreeMap<Vec<u8>, H256>,
    storage: BTreeMap<Vec<u8>, Trie>,
    codes: BTreeSet<Vec<u8>>,
}

#[derive(Clone, Debug)]
enum N {
    Hash([u8; 32]),
    Leaf(Vec<u8>, Vec<u8>),
    Acct(Vec<u8>, u64, U256, Option<Box<N>>, Option<Box<N>>),
    Ext(Vec<u8>, Box<N>),
    Branch(Vec<Option<N>>),
    Code(Vec<u8>),
    Empty,
}

fn height(n: &N) -> usize {
    1 + match n {
        N::Acct(_, _, _, a, b) => a.as_deref().map_or(0, height).max(b.as_deref().map_or(0, height)),
        N::Ext(_, c) => height(c),
        N::Branch(c) => c.iter().flatten().map(height).max().unwrap_or(0),
        _ => 0,
    }
}

/// The stack machine; nothing meaningful is higher than 130.
fn machine(is: &[I]) -> Option<N> {
    let mut st: Vec<N> = vec![];
    for i in is {
        let n = match i {
            I::Empty => N::Empty,
            I::Hash(h) => N::Hash(*h),
            I::Code(c) => N::Code(c.clone()),
            I::Leaf(k, v) => N::Leaf(k.clone(), v.clone()),
            I::Ext(k) => N::Ext(k.clone(), Box::new(st.pop()?)),
            I::Account(k, n, b, c, s) => {
                let storage = if *s { Some(Box::new(st.pop()?)) } else { None };
                let code = if *c { Some(Box::new(st.pop()?)) } else { None };
                if code.as_ref().is_some_and(|c| !matches!(**c, N::Hash(_) | N::Code(_))) {
                    return None;
                }
                N::Acct(k.clone(), n.unwrap_or(0), b.unwrap_or_default(), storage, code)
            }
            I::Branch(m) => {
                if m >> 16 != 0 {
                    return None;
                }
                let mut ch = vec![None; 16];
                for i in (0..16).rev() {
                    if m >> i & 1 == 1 {
                        ch[i] = Some(st.pop()?);
                    }
                }
                N::Branch(ch)
            }
            I::Smt(..) | I::New => return None,
        };
        if height(&n) > 130 {
            return None;
        }
        st.push(n);
    }
    if st.len() != 1 || matches!(st[0], N::Hash(_) | N::Code(_)) {
        return None;
    }
    st.pop()
}

fn storage_of(n: &N, path: &mut Vec<u8>, t: &mut Trie) -> Option<()> {
    match n {
        N::Hash(h) => {
            if path.len() > 64 {
                return None;
            }
            t.hashes.insert(path.clone(), H256(*h));
        }
        N::Leaf(k, v) => {
            let p: Vec<u8> = path.iter().chain(k).copied().collect();
            if p.len() > 64 {
                return None;
            }
            t.items.insert(p, rlp::bytes(v));
        }
        N::Acct(..) | N::Code(_) => return None,
        N::Ext(k, c) => {
            path.extend(k);
            storage_of(c, path, t)?;
            path.truncate(path.len() - k.len());
        }
        N::Branch(ch) => {
            for (i, c) in ch.iter().enumerate() {
                if let Some(c) = c {
                    path.push(i as u8);
                    storage_of(c, path, t)?;
                    path.pop();
                }
            }
        }
        N::Empty => {}
    }
    Some(())
}

fn state_of(n: &N, path: &mut Vec<u8>, r: &mut Said) -> Option<()> {
    match n {
        N::Hash(h) => {
            if path.len() > 64 {
                return None;
            }
            r.hashes.insert(path.clone(), H256(*h));
        }
        N::Leaf(..) => return None,
        N::Acct(k, nonce, bal, st, code) => {
            let p: Vec<u8> = path.iter().chain(k).copied().collect();
            if p.len() != 64 {
                return None;
            }
            let mut t = Trie::default();
            if let Some(st) = st {
                storage_of(st, &mut vec![], &mut t)?;
            }
            let ch = match code.as_deref() {
                Some(N::Hash(h)) => H256(*h),
                Some(N::Code(c)) => {
                    r.codes.insert(c.clone());
                    keccak(c)
                }
                _ => keccak([]),
            };
            r.storage.insert(p.clone(), t);
            r.accounts.insert(p, (*nonce, *bal, ch));
        }
        N::Ext(k, c) => {
            path.extend(k);
            state_of(c, path, r)?;
            path.truncate(path.len() - k.len());
        }
        N::Branch(ch) => {
            for (i, c) in ch.iter().enumerate() {
                if let Some(c) = c {
                    path.push(i as u8);
                    state_of(c, path, r)?;
                    path.pop();
                }
            }
        }
        N::Code(c) => {
            r.codes.insert(c.clone());
        }
        N::Empty => {}
    }
    Some(())
}

fn said(is: &[I]) -> Option<Said> {
    let n = machine(is)?;
    let mut r = Said::default();
    state_of(&n, &mut vec![], &mut r)?;
    Some(r)
}

fn trie_says(t: &mpt_trie::partial_trie::HashedPartialTrie) -> Trie {
    let mut r = Trie::default();
    for (k, v) in t.items() {
        match v {
            ValOrHash::Val(v) => {
                r.items.insert(unnib(&k), v);
            }
            ValOrHash::Hash(h) => {
                r.hashes.insert(unnib(&k), h);
            }
        }
    }
    r
}

fn hkey(p: &[u8]) -> H256 {
    H256::from_slice(&p.chunks(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<_>>())
}

/// The frontend against our own reading; what it decodes to must be usable.
fn check_type1(is: NonEmpty<Vec<Instruction>>, own: &[I], what: &str) -> Result<Option<type1::Frontend>, crate::fw::Fail> {
    let want = said(own);
    let got = match guarded(|| type1::frontend(is)) {
        Ok(r) => r,
        Err(p) => return fail("mpt-panic", format!("{p}\n    {what}")),
    };
    let (f, w) = match (got, want) {
        (Err(_), None) => return Ok(None),
        (Ok(f), Some(w)) => (f, w),
        (Ok(_), None) => return fail("mpt-accepted", format!("accepted, though malformed\n    {what}")),
        (Err(e), Some(w)) => return fail("mpt-refused", format!("refused: {e:#}; means {w:?}\n    {what}")),
    };
    let r = guarded(|| {
        let st = trie_says(f.state.as_hashed_partial_trie());
        let mut bad = vec![];
        if st.hashes != w.hashes {
            bad.push(format!("hashed-out parts {:?} for {:?}", st.hashes, w.hashes));
        }
        if st.items.keys().ne(w.accounts.keys()) {
            bad.push("set of accounts".to_string());
        }
        if f.storage.len() != w.storage.len() {
            bad.push("set of storage tries".to_string());
        }
        for (k, (n, b, c)) in &w.accounts {
            let Some(t) = f.storage.get(&hkey(k)) else {
                bad.push("no storage trie".to_string());
                continue;
            };
            let (t, ws) = (t.as_hashed_partial_trie(), &w.storage[k]);
            if trie_says(t) != *ws {
                bad.push(format!("storage {:?} for {ws:?}", trie_says(t)));
            }
            if ws.hashes.is_empty() && t.hash() != mpt::root(&ws.items) {
                bad.push("storage root".to_string());
            }
            let a = rlp::list(&[rlp::uint((*n).into()), rlp::uint(*b), rlp::h256(t.hash()), rlp::h256(*c)]);
            if st.items.get(k) != Some(&a) {
                bad.push(format!("account {}: {:?} for {}", hex::encode(hkey(k)), st.items.get(k).map(hex::encode), hex::encode(a)));
            }
        }
        let codes: BTreeSet<Vec<u8>> = f.code.iter().map(|c| c.to_vec()).collect();
        if codes != w.codes {
            bad.push("codes".to_string());
        }
        if st.hashes.is_empty() && f.state.root() != mpt::root(&st.items) {
            bad.push("root".to_string());
        }
        // it must be usable
        if let Err(e) = Type1World::new(f.state.clone(), f.storage.clone()) {
            bad.push(format!("not usable: {e:#}"));
        }
        bad
    });
    match r {
        Err(p) => fail("mpt-panic", format!("what it decodes to is malformed: {p}\n    {what}")),
        Ok(bad) if !bad.is_empty() => fail(format!("mpt:{}", bad[0].split(' ').next().unwrap()), format!("wrong {}\n    {what}", bad.join("; "))),
        Ok(_) => Ok(Some(f)),
    }
}

fn world(s: &mut Src) -> World {
    let mut w = World::new();
    let n = match s.below(8) {
        0 => 0,
        1 => 1,
        2 => s.range(20, 60),
        _ => s.range(2, 16),
    };
    for i in 0..n {
        let a = if s.bool() { s.address() } else { at(i as u64) };
        let mut x = Account { nonce: s.u64() >> s.pick(&[0, 32, 62, 63, 63]), balance: s.word(), ..Default::default() };
        if s.bool() {
            x.code = some_bytes(s, 1);
        }
        let m = if s.bool() { 0 } else { s.range(1, 20) };
        for k in 0..m {
            let v = s.word();
            x.storage.insert(if s.bool() { U256::from(k) } else { s.word() }, if v.is_zero() { 1.into() } else { v });
        }
        w.insert(a, x);
    }
    w
}

fn kept(s: &mut Src, w: &World) -> Keep {
    let mut k = Keep { all: s.chance(1, 4), ..Default::default() };
    for (a, x) in w {
        if s.bool() {
            k.state.insert(addr_key(a));
            let e = k.storage.entry(*a).or_default();
            for c in x.storage.keys() {
                if s.chance(1, 3) {
                    e.insert(slot_key(c));
                }
            }
        }
        if s.bool() {
            k.code.insert(*a);
        }
        if s.bool() {
            k.shut.insert(*a);
        }
    }
    if s.chance(1, 3) {
        // absent keys: their paths are there too
        k.state.insert(addr_key(&s.address()));
    }
    if !w.is_empty() && k.state.is_empty() {
        // the root has to be there
        k.state.insert(addr_key(w.keys().next().unwrap()));
    }
    k
}

fn c17_mpt(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let w = world(s);
    let keep = kept(s, &w);
    let e = compact::encode(&w, &keep, s.u64());
    let what = format!("{} accounts, {} hashes, {} leaves: {}", w.len(), e.hashes, e.leaves, hex::encode(&e.out));
    let Some((is, own)) = check_parse(&e.out, &what)? else {
        return fail("parse:refused", what);
    };
    let Some(f) = check_type1(is, &own, &what)? else {
        return fail("mpt-refused", what);
    };
    if f.state.root() != mpt::root(&state_map(&w)) {
        return fail("mpt-root", format!("state root\n    {what}"));
    }
    let full: RNode = mpt::build(&state_map(&w));
    if let Err(x) = same_structure(f.state.as_hashed_partial_trie(), &full) {
        return fail("mpt-structure", format!("{x}\n    {what}"));
    }
    for (a, x) in &w {
        if keep.all || keep.state.contains(&addr_key(a)) {
            let got = f.state.as_hashed_partial_trie().get(crate::refevm::block::nib(&addr_key(a))).map(|x| x.to_vec());
            if got != Some(account_rlp(x)) {
                return fail("mpt-account", format!("{a:?}: {got:?}\n    {what}"));
            }
            let t = f.storage[&keccak(a.as_bytes())].as_hashed_partial_trie();
            if let Err(e) = same_structure(t, &mpt::build(&storage_map(x))) {
                return fail("mpt-storage", format!("{a:?}: {e}\n    {what}"));
            }
            for (k, v) in &x.storage {
                let key = slot_key(k);
                if keep.all || keep.storage.get(a).is_some_and(|s| s.contains(&key)) {
                    let got = t.get(crate::refevm::block::nib(&key)).map(|x| x.to_vec());
                    if got != Some(rlp::uint(*v)) {
                        return fail("mpt-slot", format!("{a:?} {k}: {got:?}\n    {what}"));
                    }
                }
            }
        }
    }
    let codes: BTreeSet<Vec<u8>> = f.code.iter().map(|c| c.to_vec()).collect();
    if codes != e.codes {
        return fail("mpt-codes", what);
    }
    if e.leaves > 0 && e.hashes > 0 {
        rec.nontrivial(&e.out);
    }
    rec.sample(what.chars().take(300).collect());
    for _ in 0..3 {
        rec.evals += 1;
        let (d, k) = damage(s, &e.out);
        let wh = format!("{k}: {} (of {what})", hex::encode(&d));
        match check_parse(&d, &wh)? {
            None => rec.label(format!("{k}: not parsed")),
            Some((is, own)) => match check_type1(is, &own, &wh)? {
                None => rec.label(format!("{k}: not decoded")),
                Some(_) => rec.label(format!("{k}: decoded")),
            },
        }
    }
    Ok(())
}

/// Instructions put together at random: mostly malformed, some not.
fn c17_mpt_random(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let mut is: Vec<I> = vec![];
    let mut depth = 0usize;
    let stor = s.bool();
    for _ in 0..s.range(1, 14) {
        let len = s.pick(&[1usize, 2, 31, 62, 63, 64, 64, 65]);
        let odd = s.chance(1, 12);
        let i = match s.weighted(&[2, 3, 3, 3, 1, 4, 1]) {
            0 => I::Empty,
            1 => I::Hash(s.h256().0),
            2 if stor || odd => {
                let l = s.range(1, 65);
                let v = s.range(1, 40);
                I::Leaf(nibs(s, l, l), s.bytes(v))
            }
            3 if depth > 0 => I::Ext(nibs(s, 1, 3)),
            4 => I::Code(s.bytes(3)),
            5 => {
                let (st, c) = (depth > 0 && s.bool(), depth > 1 && s.chance(1, 3));
                I::Account(nibs(s, len, len), s.bool().then(|| s.below(9) as u64), s.bool().then(|| s.word()), c, st)
            }
            _ => {
                let n = s.range(0, depth.min(4));
                let mut m = 0u64;
                while (m.count_ones() as usize) < n {
                    let mut b = s.below(if odd { 17 } else { 16 });
                    while m >> b & 1 == 1 {
                        b = (b + 1) % 16;
                    }
                    m |= 1 << b;
                }
                I::Branch(m)
            }
        };
        match &i {
            I::Ext(_) => {}
            I::Branch(m) => depth = (depth + 1).saturating_sub(m.count_ones() as usize),
            I::Account(_, _, _, c, st) => depth = (depth + 1).saturating_sub(*c as usize + *st as usize),
            _ => depth += 1,
        }
        is.push(i);
    }
    // close it up
    while depth > 16 {
        is.push(I::Branch(0xffff));
        depth -= 15;
    }
    if depth > 1 {
        is.push(I::Branch((1 << depth) - 1));
    }
    if s.chance(1, 3) {
        is.push(I::Ext(nibs(s, 1, 2)));
    }
    let mut b = vec![1];
    for i in &is {
        put(s, i, &mut b);
    }
    let what = format!("{is:?}");
    let Some((ins, own)) = check_parse(&b, &what)? else {
        return fail("parse:refused", what);
    };
    match check_type1(ins, &own, &what)? {
        None => rec.label("refused"),
        Some(f) => {
            rec.label("decoded");
            if f.state.iter().next().is_some() {
                rec.nontrivial(&b);
            }
        }
    }
    rec.sample(what.chars().take(300).collect());
    Ok(())
}

// ---- SMT ----

fn pos(x: [F; 12], cap: [u64; 4]) -> [u64; 4] {
    let mut a = x;
    for i in 0..4 {
        a[8 + i] = F::from_canonical_u64(cap[i]);
    }
    let h = F::poseidon(a);
    std::array::from_fn(|i| h[i].to_canonical_u64())
}
fn limbs(x: U256) -> [u64; 8] {
    std::array::from_fn(|i| (x >> (32 * i)).low_u32() as u64)
}
/// Where the Hermez tree keeps the item.
fn smt_key(a: Address, ty: u8, slot: U256) -> [u64; 4] {
    let mut h = [F::ZERO; 12];
    for (i, l) in limbs(slot).iter().enumerate() {
        h[i] = F::from_canonical_u64(*l);
    }
    let cap = pos(h, [0; 4]);
    let mut x = [F::ZERO; 12];
    for (i, l) in limbs(U256::from_big_endian(a.as_bytes())).iter().enumerate() {
        x[i] = F::from_canonical_u64(*l);
    }
    x[6] = F::from_canonical_u64(ty as u64);
    pos(x, cap)
}

type Leaf = (Address, u8, U256, U256);

struct Tree {
    kv: Vec<([u64; 4], AU256, Leaf)>,
}
fn alloy(x: U256) -> AU256 {
    AU256::from_limbs(x.0)
}

fn smt_root(kv: &[&([u64; 4], AU256, Leaf)], d: usize) -> H256 {
    let v: Vec<(&[u64; 4], &AU256)> = kv.iter().map(|x| (&x.0, &x.1)).collect();
    H256(crate::refevm::precompiles::be32(U256(root_ref(&v, d))))
}

/// Pre-order; parts without a kept leaf become hashes.
fn smt_enc(s: &mut Src, kv: &[&([u64; 4], AU256, Leaf)], d: usize, keep: &BTreeSet<[u64; 4]>, out: &mut Vec<I>, hashes: &mut BTreeMap<Vec<bool>, H256>) {
    let bits = || (0..d).map(|i| bit(&kv[0].0, i)).collect::<Vec<bool>>();
    if !kv.iter().any(|x| keep.contains(&x.0)) {
        let h = smt_root(kv, d);
        hashes.insert(bits(), h);
        out.push(I::Hash(h.0));
        return;
    }
    if let [(_, _, (a, ty, slot, v))] = kv {
        let mut sl = be_trim(*slot);
        if sl.is_empty() {
            sl.push(0);
        }
        let mut val = be_trim(*v);
        while s.chance(1, 5) && val.len() < 32 {
            val.insert(0, 0);
        }
        out.push(I::Smt(*ty, a.as_bytes().to_vec(), if *ty == 3 { sl } else { vec![] }, val));
        return;
    }
    let (l, r): (Vec<_>, Vec<_>) = kv.iter().partition(|x| !bit(&x.0, d));
    out.push(I::Branch(match (l.is_empty(), r.is_empty()) {
        (false, false) => 3,
        (false, true) => 1,
        _ => 2,
    }));
    for c in [l, r] {
        if !c.is_empty() {
            smt_enc(s, &c, d + 1, keep, out, hashes);
        }
    }
}

struct SmtSaid {
    world: String,
    codes: BTreeSet<Vec<u8>>,
    leaves: BTreeMap<Address, Type2Entry>,
}

fn smt_said(is: &[I]) -> Option<SmtSaid> {
    let mut codes = BTreeSet::new();
    let mut rest: Vec<&I> = vec![];
    for i in is {
        match i {
            I::Code(c) => {
                codes.insert(c.clone());
            }
            x => rest.push(x),
        }
    }
    let mut leaves: BTreeMap<Address, Type2Entry> = BTreeMap::new();
    let mut hashes = BTreeMap::new();
    // paths still to fill, the next one last
    let mut todo: Vec<Vec<bool>> = vec![vec![]];
    let mut it = rest.into_iter();
    while let Some(p) = todo.pop() {
        if p.len() > 256 {
            return None;
        }
        match it.next()? {
            I::Hash(h) => {
                hashes.insert(SmtKey::new(p).ok()?, H256(*h));
            }
            I::Branch(m) => {
                let with = |b| {
                    let mut q = p.clone();
                    q.push(b);
                    q
                };
                match m {
                    1 => todo.push(with(false)),
                    2 => todo.push(with(true)),
                    3 => {
                        todo.push(with(true));
                        todo.push(with(false));
                    }
                    _ => return None,
                }
            }
            I::Smt(t, a, sl, v) => {
                if a.len() != 20 || v.len() > 32 || sl.len() > 32 {
                    return None;
                }
                let v = U256::from_big_endian(v);
                let e = leaves.entry(Address::from_slice(a)).or_default();
                let was = match t {
                    0 => e.balance.replace(v),
                    1 => e.nonce.replace(v),
                    2 => e.code_hash.replace(v),
                    3 => e.storage.insert(U256::from_big_endian(sl), v),
                    _ => e.code_length.replace(v),
                };
                if was.is_some() {
                    return None;
                }
            }
            _ => return None,
        }
    }
    if it.next().is_some() {
        return None;
    }
    Some(SmtSaid { world: format!("{:?}", Type2World::new_unchecked(leaves.clone(), hashes)), codes, leaves })
}

fn check_type2(is: NonEmpty<Vec<Instruction>>, own: &[I], what: &str) -> Result<Option<type2::Frontend>, crate::fw::Fail> {
    let want = smt_said(own);
    let got = match guarded(|| type2::frontend(is)) {
        Ok(r) => r,
        Err(p) => return fail("smt-panic", format!("{p}\n    {what}")),
    };
    match (got, want) {
        (Err(_), None) => Ok(None),
        (Ok(f), Some(w)) => {
            let codes: BTreeSet<Vec<u8>> = f.code.iter().map(|c| c.to_vec()).collect();
            let g = format!("{:?}", f.world);
            if g != w.world {
                return fail("smt-world", format!("{g}\n    for {}\n    {what}", w.world));
            }
            if codes != w.codes {
                return fail("smt-codes", what);
            }
            Ok(Some(f))
        }
        (Ok(_), None) => fail("smt-accepted", format!("accepted, though malformed\n    {what}")),
        (Err(e), Some(_)) => fail("smt-refused", format!("refused: {e:#}\n    {what}")),
    }
}

fn c17_smt(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let mut t = Tree { kv: vec![] };
    let n = s.range(1, 10);
    for i in 0..n {
        let a = if s.bool() { s.address() } else { at(i as u64) };
        let mut items: Vec<Leaf> = vec![];
        for ty in [0u8, 1, 2, 4] {
            if s.bool() {
                let v = s.word();
                items.push((a, ty, 0.into(), if v.is_zero() { 7.into() } else { v }));
            }
        }
        for k in 0..s.below(6) {
            let v = s.word();
            let slot = if s.bool() { k.into() } else { s.word() };
            if !items.iter().any(|x| x.1 == 3 && x.2 == slot) {
                items.push((a, 3, slot, if v.is_zero() { 7.into() } else { v }));
            }
        }
        if t.kv.iter().any(|x| x.2 .0 == a) {
            continue;
        }
        for l in items {
            t.kv.push((smt_key(l.0, l.1, l.2), alloy(l.3), l));
        }
    }
    if t.kv.is_empty() {
        return Ok(());
    }
    t.kv.sort_by_key(|x| x.0);
    let all = s.chance(1, 4);
    let keep: BTreeSet<[u64; 4]> = t.kv.iter().filter(|_| all || s.bool()).map(|x| x.0).collect();
    let refs: Vec<_> = t.kv.iter().collect();
    let mut is = vec![];
    let mut hashes = BTreeMap::new();
    smt_enc(s, &refs, 0, &keep, &mut is, &mut hashes);
    let mut codes = BTreeSet::new();
    for _ in 0..s.below(4) {
        let c = some_bytes(s, 1);
        if c.is_empty() {
            continue;
        }
        codes.insert(c.clone());
        let i = s.below(is.len() + 1);
        is.insert(i, I::Code(c));
    }
    let mut b = vec![1];
    for i in &is {
        put(s, i, &mut b);
    }
    let what = format!("{} of {} leaves, {} hashes: {}", keep.len(), t.kv.len(), hashes.len(), hex::encode(&b));
    let Some((ins, own)) = check_parse(&b, &what)? else {
        return fail("parse:refused", what);
    };
    let Some(mut f) = check_type2(ins, &own, &what)? else {
        return fail("smt-refused", what);
    };
    let want = smt_root(&refs, 0);
    match guarded(|| f.world.root()) {
        Err(p) => return fail("smt-root-panic", format!("{p}\n    {what}")),
        Ok(r) if r != want => return fail("smt-root", format!("{r:?} for {want:?}\n    {what}")),
        Ok(_) => {}
    }
    if codes != f.code.iter().map(|c| c.to_vec()).collect() {
        return fail("smt-codes", what);
    }
    // the leaves spelled out, as the encoder knows them
    let w = smt_said(&own).unwrap();
    let mut n = 0;
    for (k, _, (a, ty, slot, v)) in &t.kv {
        if keep.contains(k) {
            let e = &w.leaves[a];
            let got = match ty {
                0 => e.balance,
                1 => e.nonce,
                2 => e.code_hash,
                3 => e.storage.get(slot).copied(),
                _ => e.code_length,
            };
            n += 1;
            if got != Some(*v) {
                return fail("smt-leaf", format!("{a:?} {ty} {slot}: {got:?}\n    {what}"));
            }
        }
    }
    if n > 0 && !hashes.is_empty() {
        rec.nontrivial(&b);
    }
    rec.sample(what.chars().take(300).collect());
    for _ in 0..3 {
        rec.evals += 1;
        let (d, k) = damage(s, &b);
        let wh = format!("{k}: {} (of {what})", hex::encode(&d));
        match check_parse(&d, &wh)? {
            None => rec.label(format!("{k}: not parsed")),
            Some((is, own)) => match check_type2(is, &own, &wh)? {
                None => rec.label(format!("{k}: not decoded")),
                Some(_) => rec.label(format!("{k}: decoded")),
            },
        }
    }
    Ok(())
}

// ---- depth ----

/// `zkvp wire-child <mpt|smt>`: decodes standard input on a small stack.
pub fn child(kind: &str) -> i32 {
    use std::io::Read;
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let kind = kind.to_string();
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let Ok(is) = parse(&b) else { return 10 };
        if kind == "mpt" {
            type1::frontend(is).is_ok() as i32 + 10
        } else {
            type2::frontend(is).is_ok() as i32 + 10
        }
    });
    t.unwrap().join().unwrap_or(12)
}

fn c17_depth(s: &mut Src, rec: &mut Rec) -> CaseResult {
    use std::io::Write;
    let n = s.pick(&[60usize, 64, 65, 255, 256, 257, 1000, 20_000, 60_000, 150_000]);
    let n = n + s.below(3);
    let smt = s.bool();
    let mut b = vec![1u8];
    let form = s.below(3);
    let (mut tail, mut unit) = (vec![], vec![]);
    if smt {
        let m = s.pick(&[1u64, 2, 3]);
        put(s, &I::Branch(m), &mut unit);
        for _ in 0..n {
            b.extend(&unit);
        }
        let m3 = if m == 3 { n + 1 } else { 1 };
        put(s, &I::Hash([3; 32]), &mut tail);
        for _ in 0..m3 {
            b.extend(&tail);
        }
        if s.chance(1, 3) {
            b.truncate(b.len() - 33 * m3);
        }
    } else {
        put(s, &I::Hash([3; 32]), &mut b);
        let i = match form {
            0 => I::Ext(nibs(s, 1, 2)),
            1 => I::Branch(1 << s.below(16)),
            _ => I::Account(nibs(s, 64, 64), None, None, false, true),
        };
        put(s, &i, &mut unit);
        for _ in 0..n {
            b.extend(&unit);
        }
        match s.below(3) {
            0 => {
                let k = nibs(s, 64, 64);
                put(s, &I::Account(k, None, None, false, true), &mut b)
            }
            1 => put(s, &I::Hash([4; 32]), &mut b),
            _ => {}
        }
    }
    let kind = if smt { "smt" } else { "mpt" };
    let what = format!("{kind}, {n} levels of {}", hex::encode(&unit));
    rec.label(kind);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["wire-child", kind])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let _ = c.stdin.take().unwrap().write_all(&b);
    let st = c.wait().unwrap();
    match st.code() {
        Some(10) => rec.label("refused"),
        Some(11) => rec.label("decoded"),
        Some(12) => return fail("depth-panic", format!("panics: {what}")),
        _ => return fail("depth-crash", format!("the process dies ({st}): {what}")),
    }
    if n > 200 {
        rec.nontrivial(&b);
    }
    rec.sample(what);
    Ok(())
}

pub fn c17() -> Check {
    Check {
        property: "C17",
        level: "exploration",
        assumptions: vec![
            "CBOR fields are read as the ciborium crate reads them".into(),
            "for the SMT form, what the decoder accepts is checked field by field; computing a root of an accepted but inconsistent SMT witness is not (documented as unsupported on untrusted input)".into(),
        ],
        facets: vec![
            Facet::new("parse", "random instruction sequences written by an encoder of our own (byte strings and arrays, all key forms), each with three damaged copies, against a reader of our own; all count", 400_000, 8_000_000, 500, c17_parse),
            Facet::new("mpt", "random worlds, partly hashed out, encoded, decoded and compared field by field with the world; three damaged copies each against an interpreter of our own; non-trivial = something hashed and something spelled out", 60_000, 1_500_000, 1500, c17_mpt),
            Facet::new("mpt-random", "random instruction programs against the interpreter; non-trivial = decodes to accounts", 400_000, 8_000_000, 300, c17_mpt_random),
            Facet::new("smt", "the same for sparse Merkle trees in pre-order, with positions and hashes by a reference of our own; non-trivial = something hashed and something spelled out", 30_000, 600_000, 600, c17_smt),
            Facet::new("depth", "deeply nested input, decoded in a process of its own on a 2 MiB stack; non-trivial = deeper than 200", 150, 2000, 40, c17_depth).shrink(40),
        ],
    }
}
