//! Reference Merkle-Patricia trie, built from scratch from its key/value map.
use std::collections::BTreeMap;

use ethereum_types::H256;
use keccak_hash::keccak;

use super::rlp;

/// Keys as vectors of nibbles.
pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum RNode {
    Empty,
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>, Box<RNode>),
    Branch(Vec<RNode>, Vec<u8>),
}

pub fn to_nibbles(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}

pub fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2 } else { 0 };
    let mut v = vec![];
    let mut it = n.to_vec();
    if n.len() % 2 == 1 {
        it.insert(0, f + 1);
    } else {
        it.insert(0, 0);
        it.insert(0, f);
    }
    for c in it.chunks(2) {
        v.push(c[0] << 4 | c[1]);
    }
    v
}

pub fn build(m: &Map) -> RNode {
    let v: Vec<(&[u8], &[u8])> = m.iter().map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    build_rec(&v)
}

fn build_rec(v: &[(&[u8], &[u8])]) -> RNode {
    if v.is_empty() {
        return RNode::Empty;
    }
    if v.len() == 1 {
        return RNode::Leaf(v[0].0.to_vec(), v[0].1.to_vec());
    }
    let first = v[0].0;
    let last = v[v.len() - 1].0;
    let common = first.iter().zip(last).take_while(|(a, b)| a == b).count();
    if common > 0 {
        let sub: Vec<_> = v.iter().map(|(k, x)| (&k[common..], *x)).collect();
        return RNode::Ext(first[..common].to_vec(), Box::new(build_rec(&sub)));
    }
    let mut value = vec![];
    let mut ch: Vec<Vec<(&[u8], &[u8])>> = vec![vec![]; 16];
    for (k, x) in v {
        if k.is_empty() {
            value = x.to_vec();
        } else {
            ch[k[0] as usize].push((&k[1..], x));
        }
    }
    RNode::Branch(ch.iter().map(|c| build_rec(c)).collect(), value)
}

pub fn encode(n: &RNode) -> Vec<u8> {
    match n {
        RNode::Empty => vec![0x80],
        RNode::Leaf(k, v) => rlp::list(&[rlp::bytes(&hex_prefix(k, true)), rlp::bytes(v)]),
        RNode::Ext(k, c) => rlp::list(&[rlp::bytes(&hex_prefix(k, false)), reference(c)]),
        RNode::Branch(ch, v) => {
            let mut items: Vec<Vec<u8>> = ch.iter().map(reference).collect();
            items.push(rlp::bytes(v));
            rlp::list(&items)
        }
    }
}

/// How a parent refers to the node: inline below 32 bytes, else by hash.
pub fn reference(n: &RNode) -> Vec<u8> {
    let e = encode(n);
    if e.len() < 32 {
        e
    } else {
        rlp::bytes(keccak(&e).as_bytes())
    }
}

pub fn root_of(n: &RNode) -> H256 {
    keccak(encode(n))
}

pub fn root(m: &Map) -> H256 {
    root_of(&build(m))
}

/// The encoded nodes (at least 32 bytes, or the root) on the path of `key`.
pub fn proof(n: &RNode, key: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = n;
    let mut k = key;
    let mut first = true;
    loop {
        let e = encode(cur);
        if first || e.len() >= 32 {
            if !matches!(cur, RNode::Empty) {
                out.push(e);
            }
        }
        first = false;
        match cur {
            RNode::Empty | RNode::Leaf(..) => return out,
            RNode::Ext(p, c) => {
                if !k.starts_with(p) {
                    return out;
                }
                k = &k[p.len()..];
                cur = c;
            }
            RNode::Branch(ch, _) => {
                if k.is_empty() {
                    return out;
                }
                cur = &ch[k[0] as usize];
                k = &k[1..];
            }
        }
    }
}
