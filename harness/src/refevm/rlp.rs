//! A minimal RLP encoder (yellow paper, appendix B).
use ethereum_types::{Address, H256, U256};

fn len_prefix(len: usize, short: u8, out: &mut Vec<u8>) {
    if len <= 55 {
        out.push(short + len as u8);
    } else {
        let be = len.to_be_bytes();
        let be: Vec<u8> = be.iter().copied().skip_while(|b| *b == 0).collect();
        out.push(short + 55 + be.len() as u8);
        out.extend(be);
    }
}

pub fn bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = vec![];
    len_prefix(b.len(), 0x80, &mut o);
    o.extend_from_slice(b);
    o
}

pub fn uint(x: U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    let s: Vec<u8> = b.iter().copied().skip_while(|b| *b == 0).collect();
    bytes(&s)
}

pub fn h256(x: H256) -> Vec<u8> {
    bytes(x.as_bytes())
}
pub fn addr(x: Address) -> Vec<u8> {
    bytes(x.as_bytes())
}

/// A list of already encoded items.
pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let n = items.iter().map(|x| x.len()).sum();
    let mut o = vec![];
    len_prefix(n, 0xc0, &mut o);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
