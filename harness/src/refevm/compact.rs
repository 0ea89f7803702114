//! Encoder for the compact (Erigon-like) witness of a world.
use std::collections::{BTreeMap, BTreeSet};

use ethereum_types::{Address, H256, U256};
use keccak_hash::keccak;

use super::block::{addr_key, slot_key, state_map, storage_map};
use super::evm::{Account, World};
use super::mpt::{self, RNode};

pub fn cbor_head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}
pub fn cbor_uint(n: u64, out: &mut Vec<u8>) {
    cbor_head(0, n, out)
}
pub fn cbor_bytes(b: &[u8], out: &mut Vec<u8>) {
    cbor_head(2, b.len() as u64, out);
    out.extend(b);
}
/// As an array of numbers, which the format's reader takes as well.
pub fn cbor_array(b: &[u8], out: &mut Vec<u8>) {
    cbor_head(4, b.len() as u64, out);
    for x in b {
        cbor_uint(*x as u64, out);
    }
}

/// A key's bytes: flags, then the nibbles packed, an odd last one on the left.
pub fn key_bytes(n: &[u8], short: bool, terminated: bool) -> Vec<u8> {
    if n.len() == 1 && short {
        return vec![n[0]];
    }
    let mut v = vec![(n.len() % 2) as u8 | if terminated { 2 } else { 0 }];
    for c in n.chunks(2) {
        v.push(c[0] << 4 | c.get(1).copied().unwrap_or(0));
    }
    v
}

pub fn be_trim(x: U256) -> Vec<u8> {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    b[b.iter().take_while(|x| **x == 0).count()..].to_vec()
}

/// What of the world is spelled out.
#[derive(Clone, Debug, Default)]
pub struct Keep {
    pub all: bool,
    /// Keys of the state trie, as nibbles.
    pub state: BTreeSet<Vec<u8>>,
    pub storage: BTreeMap<Address, BTreeSet<Vec<u8>>>,
    /// Accounts whose code is given (rather than its hash).
    pub code: BTreeSet<Address>,
    /// Accounts whose storage may be one hash.
    pub shut: BTreeSet<Address>,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    world: &'a World,
    by_key: BTreeMap<Vec<u8>, Address>,
    keep: &'a Keep,
    /// Numbers of hash nodes and of keys spelled out.
    pub hashes: usize,
    pub leaves: usize,
    pub codes: BTreeSet<Vec<u8>>,
    /// Decides free choices of the encoding.
    coin: u64,
}

impl<'a> Enc<'a> {
    fn flip(&mut self) -> bool {
        self.coin = self.coin.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.coin >> 63 == 1
    }
    fn key(&mut self, n: &[u8]) {
        let (a, b) = (self.flip(), self.flip());
        let k = key_bytes(n, a, b);
        cbor_bytes(&k, &mut self.out);
    }
    fn hash(&mut self, n: &RNode) {
        self.hashes += 1;
        self.out.push(3);
        self.out.extend(mpt::root_of(n).as_bytes());
    }
    /// `acct`: nodes of the state trie, else of a storage trie.
    fn node(&mut self, n: &RNode, path: &mut Vec<u8>, keep: &BTreeSet<Vec<u8>>, all: bool, acct: bool) {
        if !matches!(n, RNode::Empty) && !all && mpt::encode(n).len() >= 32 {
            let reached = keep.range(path.clone()..).next().is_some_and(|k| k.starts_with(path));
            if !reached {
                return self.hash(n);
            }
        }
        match n {
            RNode::Empty => self.out.push(6),
            RNode::Leaf(k, v) => {
                self.leaves += 1;
                if acct {
                    let full: Vec<u8> = path.iter().chain(k).copied().collect();
                    let a = self.by_key[&full];
                    self.account(a, k);
                } else {
                    self.out.push(0);
                    self.key(k);
                    let v: Vec<u8> = ::rlp::decode(v).unwrap();
                    cbor_bytes(&v, &mut self.out);
                }
            }
            RNode::Ext(k, c) => {
                path.extend(k);
                self.node(c, path, keep, all, acct);
                path.truncate(path.len() - k.len());
                self.out.push(1);
                self.key(k);
            }
            RNode::Branch(ch, _) => {
                let mut mask = 0u64;
                for (i, c) in ch.iter().enumerate() {
                    if *c != RNode::Empty {
                        mask |= 1 << i;
                        path.push(i as u8);
                        self.node(c, path, keep, all, acct);
                        path.pop();
                    }
                }
                self.out.push(2);
                cbor_uint(mask, &mut self.out);
            }
        }
    }
    fn account(&mut self, a: Address, key: &[u8]) {
        let x: &Account = &self.world[&a];
        let m = storage_map(x);
        let mut flags = 0;
        if !x.code.is_empty() {
            flags |= 1;
            if self.keep.all || self.keep.code.contains(&a) {
                self.out.push(4);
                cbor_bytes(&x.code, &mut self.out);
                self.codes.insert(x.code.clone());
            } else {
                self.out.push(3);
                self.out.extend(keccak(&x.code).as_bytes());
            }
        }
        if !m.is_empty() {
            flags |= 2;
            let n = mpt::build(&m);
            let none = BTreeSet::new();
            let k = self.keep.storage.get(&a).unwrap_or(&none);
            let k = k.clone();
            if !self.keep.all && k.is_empty() && self.keep.shut.contains(&a) {
                self.hash(&n);
            } else if !self.keep.all && k.is_empty() {
                // the root is there, what it leads to is not
                let first: BTreeSet<Vec<u8>> = [m.keys().next().unwrap().clone()].into();
                self.node(&n, &mut vec![], &first, false, false);
            } else {
                self.node(&n, &mut vec![], &k, self.keep.all, false);
            }
        } else if self.flip() {
            flags |= 2;
            self.out.push(6);
        }
        if x.nonce != 0 || self.flip() {
            flags |= 4;
        }
        if !x.balance.is_zero() || self.flip() {
            flags |= 8;
        }
        self.out.push(5);
        self.key(key);
        self.out.push(flags);
        if flags & 4 != 0 {
            cbor_uint(x.nonce, &mut self.out);
        }
        if flags & 8 != 0 {
            cbor_bytes(&be_trim(x.balance), &mut self.out);
        }
        if flags & 1 != 0 {
            cbor_uint(x.code.len() as u64, &mut self.out);
        }
    }
}

pub fn encode<'a>(world: &'a World, keep: &'a Keep, coin: u64) -> Enc<'a> {
    let mut e = Enc {
        out: vec![(coin % 2) as u8],
        world,
        by_key: world.keys().map(|a| (addr_key(a), *a)).collect(),
        keep,
        hashes: 0,
        leaves: 0,
        codes: BTreeSet::new(),
        coin: coin.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5bd1,
    };
    let n = mpt::build(&state_map(world));
    e.node(&n, &mut vec![], &keep.state, keep.all, true);
    e
}

/// For a key that leaves the map: one key below every sibling on its path.
pub fn siblings(m: &mpt::Map, key: &[u8], out: &mut BTreeSet<Vec<u8>>) {
    for l in 0..key.len() {
        let mut any = false;
        for c in 0..16u8 {
            if c == key[l] {
                continue;
            }
            let mut p = key[..l].to_vec();
            p.push(c);
            if let Some((k, _)) = m.range(p.clone()..).next() {
                if k.starts_with(&p) {
                    out.insert(k.clone());
                    any = true;
                }
            }
        }
        if !any && m.range(key[..=l].to_vec()..).next().map_or(true, |(k, _)| !k.starts_with(&key[..=l])) {
            break;
        }
    }
}

/// A witness for the execution whose worlds are `steps`: what was looked at,
/// and the siblings of everything that went away at some step.
pub fn keep_for(steps: &[&World], addrs: &BTreeSet<Address>, slots: &BTreeSet<(Address, U256)>, whole: &BTreeSet<Address>) -> Keep {
    let pre = steps[0];
    let mut k = Keep { code: pre.keys().copied().collect(), ..Default::default() };
    k.state.extend(addrs.iter().map(addr_key));
    let sm = state_map(pre);
    for (a, s) in slots {
        k.storage.entry(*a).or_default().insert(slot_key(s));
    }
    for w in steps.windows(2) {
        for (a, x) in w[0] {
            match w[1].get(a) {
                None => siblings(&sm, &addr_key(a), &mut k.state),
                Some(y) => {
                    for s in x.storage.keys() {
                        if !y.storage.contains_key(s) {
                            if let Some(p) = pre.get(a) {
                                siblings(&storage_map(p), &slot_key(s), k.storage.entry(*a).or_default());
                            }
                        }
                    }
                }
            }
        }
    }
    for a in whole {
        if let Some(x) = pre.get(a) {
            k.storage.entry(*a).or_default().extend(storage_map(x).into_keys());
        }
    }
    k
}

pub fn code_hash(c: &[u8]) -> H256 {
    keccak(c)
}
