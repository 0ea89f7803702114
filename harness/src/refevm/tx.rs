//! Transactions: encoding, signing, recovery, intrinsic gas and validity
//! (execution specifications, Cancun).
use std::collections::BTreeMap;

use ethereum_types::{Address, H256, U256, U512};
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use keccak_hash::keccak;

use super::evm::{World, MAX_CODE};
use super::precompiles::be32;
use super::rlp;

#[derive(Clone, Debug)]
pub struct Tx {
    pub ty: u8,
    /// `None` only for legacy transactions without EIP-155.
    pub chain_id: Option<U256>,
    pub nonce: U256,
    /// Gas price of legacy / access-list transactions, else the fee cap.
    pub max_fee: U256,
    pub max_prio: U256,
    pub gas: U256,
    pub to: Option<Address>,
    pub value: U256,
    pub data: Vec<u8>,
    pub access: Vec<(Address, Vec<U256>)>,
    pub max_blob_fee: U256,
    pub blob_hashes: Vec<H256>,
    pub key: [u8; 32],
    pub sig: SigTweak,
}

/// Ways to damage the signature after signing.
#[derive(Clone, Debug, PartialEq)]
pub enum SigTweak {
    None,
    /// s -> n - s, parity flipped: same sender, but malleable (EIP-2).
    HighS,
    FlipParity,
    ZeroR,
    ZeroS,
    /// r + n if it fits.
    BadV(u64),
    HugeR,
    /// sign another message: another sender
    XorR(u8),
}

pub fn key_address(key: &[u8; 32]) -> Address {
    let k = SigningKey::from_slice(key).unwrap();
    let p = k.verifying_key().to_encoded_point(false);
    Address::from_slice(&keccak(&p.as_bytes()[1..]).as_bytes()[12..])
}

pub fn order() -> U256 {
    U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}

/// Recovers the signer; r, s any non-zero scalars below the order.
pub fn recover(hash: &[u8; 32], r: U256, s: U256, parity: bool) -> Option<Address> {
    let n = order();
    if r.is_zero() || s.is_zero() || r >= n || s >= n {
        return None;
    }
    let (mut sg, mut id) = (Signature::from_scalars(be32(r), be32(s)).ok()?, RecoveryId::new(parity, false));
    if let Some(norm) = sg.normalize_s() {
        sg = norm;
        id = RecoveryId::new(!parity, false);
    }
    let k = VerifyingKey::recover_from_prehash(hash, &sg, id).ok()?;
    let p = k.to_encoded_point(false);
    Some(Address::from_slice(&keccak(&p.as_bytes()[1..]).as_bytes()[12..]))
}

pub struct Signed {
    pub bytes: Vec<u8>,
    /// What the signature recovers to under the consensus rules, if anything.
    pub sender: Option<Address>,
}

impl Tx {
    pub fn legacy(key: [u8; 32]) -> Tx {
        Tx {
            ty: 0,
            chain_id: Some(1.into()),
            nonce: 0.into(),
            max_fee: 10.into(),
            max_prio: 10.into(),
            gas: 100_000.into(),
            to: None,
            value: 0.into(),
            data: vec![],
            access: vec![],
            max_blob_fee: 0.into(),
            blob_hashes: vec![],
            key,
            sig: SigTweak::None,
        }
    }

    fn body(&self) -> Vec<Vec<u8>> {
        let to = match self.to {
            Some(a) => rlp::addr(a),
            None => rlp::bytes(&[]),
        };
        let mut v = vec![];
        if self.ty > 0 {
            v.push(rlp::uint(self.chain_id.unwrap_or_default()));
        }
        v.push(rlp::uint(self.nonce));
        match self.ty {
            0 | 1 => v.push(rlp::uint(self.max_fee)),
            _ => {
                v.push(rlp::uint(self.max_prio));
                v.push(rlp::uint(self.max_fee));
            }
        }
        v.push(rlp::uint(self.gas));
        v.push(to);
        v.push(rlp::uint(self.value));
        v.push(rlp::bytes(&self.data));
        if self.ty > 0 {
            let al: Vec<Vec<u8>> = self
                .access
                .iter()
                .map(|(a, ks)| {
                    let ks: Vec<Vec<u8>> = ks.iter().map(|k| rlp::bytes(&be32(*k))).collect();
                    rlp::list(&[rlp::addr(*a), rlp::list(&ks)])
                })
                .collect();
            v.push(rlp::list(&al));
        }
        if self.ty == 3 {
            v.push(rlp::uint(self.max_blob_fee));
            v.push(rlp::list(&self.blob_hashes.iter().map(|h| rlp::h256(*h)).collect::<Vec<_>>()));
        }
        v
    }

    pub fn prio_cap(&self) -> U256 {
        if self.ty < 2 {
            self.max_fee
        } else {
            self.max_prio
        }
    }

    pub fn sign(&self) -> Signed {
        let mut un = self.body();
        if let (0, Some(c)) = (self.ty, self.chain_id) {
            un.push(rlp::uint(c));
            un.push(rlp::uint(0.into()));
            un.push(rlp::uint(0.into()));
        }
        let mut pre = rlp::list(&un);
        if self.ty > 0 {
            pre.insert(0, self.ty);
        }
        let h = keccak(&pre).0;
        let k = SigningKey::from_slice(&self.key).unwrap();
        let (sg, id) = k.sign_prehash_recoverable(&h).unwrap();
        let (rb, sb) = sg.split_bytes();
        let mut r = U256::from_big_endian(&rb);
        let mut s = U256::from_big_endian(&sb);
        let mut y = U256::from(id.is_y_odd() as u64);
        let n = order();
        match &self.sig {
            SigTweak::None => {}
            SigTweak::HighS => {
                s = n - s;
                y = U256::one() - y;
            }
            SigTweak::FlipParity => y = U256::one() - y,
            SigTweak::ZeroR => r = U256::zero(),
            SigTweak::ZeroS => s = U256::zero(),
            SigTweak::HugeR => r = n,
            SigTweak::XorR(b) => r = r ^ U256::from(*b),
            SigTweak::BadV(x) => y = U256::from(*x),
        }
        let v = match (self.ty, self.chain_id) {
            (0, Some(c)) => c * 2 + 35 + y,
            (0, None) => y + 27,
            _ => y,
        };
        let mut all = self.body();
        all.push(rlp::uint(v));
        all.push(rlp::uint(r));
        all.push(rlp::uint(s));
        let mut bytes = rlp::list(&all);
        if self.ty > 0 {
            bytes.insert(0, self.ty);
        }
        let sender = if y > U256::one() || s > n / 2 { None } else { recover(&h, r, s, !y.is_zero()) };
        Signed { bytes, sender }
    }

    pub fn intrinsic(&self) -> u64 {
        let mut g = 21000u64;
        for b in &self.data {
            g += if *b == 0 { 4 } else { 16 };
        }
        if self.to.is_none() {
            g += 32000 + 2 * (self.data.len() as u64).div_ceil(32);
        }
        for (_, ks) in &self.access {
            g += 2400 + 1900 * ks.len() as u64;
        }
        g
    }
}

pub struct BlockCtx {
    pub chain_id: U256,
    pub base_fee: U256,
    pub blob_base_fee: U256,
    pub gas_limit: U256,
    pub gas_used: u64,
    pub blob_gas_used: u64,
}

pub fn validate(tx: &Tx, sender: Option<Address>, world: &World, b: &BlockCtx) -> Result<Address, &'static str> {
    let s = match sender {
        None => return Err("signature"),
        Some(s) => s,
    };
    if let Some(c) = tx.chain_id {
        if c != b.chain_id {
            return Err("chain id");
        }
    }
    if tx.gas < U256::from(tx.intrinsic()) {
        return Err("intrinsic gas");
    }
    if tx.nonce >= U256::from(u64::MAX) {
        return Err("max nonce");
    }
    if tx.to.is_none() && tx.data.len() > 2 * MAX_CODE {
        return Err("init code size");
    }
    if tx.gas > b.gas_limit - b.gas_used {
        return Err("block gas");
    }
    if tx.max_fee < tx.prio_cap() {
        return Err("priority above cap");
    }
    if tx.max_fee < b.base_fee {
        return Err("below base fee");
    }
    let mut cost = U512::from(tx.gas) * U512::from(tx.max_fee) + U512::from(tx.value);
    if tx.ty == 3 {
        if tx.to.is_none() {
            return Err("blob creation");
        }
        if tx.blob_hashes.is_empty() {
            return Err("no blobs");
        }
        if tx.blob_hashes.iter().any(|h| h.0[0] != 1) {
            return Err("blob version");
        }
        if tx.max_blob_fee < b.blob_base_fee {
            return Err("below blob base fee");
        }
        let g = 131072 * tx.blob_hashes.len() as u64;
        if b.blob_gas_used + g > 786432 {
            return Err("too many blobs");
        }
        cost = cost + U512::from(g) * U512::from(tx.max_blob_fee);
    }
    let d = Default::default();
    let a = world.get(&s).unwrap_or(&d);
    if tx.nonce != U256::from(a.nonce) {
        return Err("nonce");
    }
    if cost > U512::from(a.balance) {
        return Err("balance");
    }
    if !a.code.is_empty() {
        return Err("sender has code");
    }
    Ok(s)
}

/// The keys the generators use, with their addresses.
pub fn keys() -> &'static Vec<([u8; 32], Address)> {
    static K: std::sync::OnceLock<Vec<([u8; 32], Address)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        (1u8..=6)
            .map(|i| {
                let k = keccak([i; 4]).0;
                (k, key_address(&k))
            })
            .collect()
    })
}

pub fn key_of(a: Address) -> Option<[u8; 32]> {
    static M: std::sync::OnceLock<BTreeMap<Address, [u8; 32]>> = std::sync::OnceLock::new();
    M.get_or_init(|| keys().iter().map(|(k, a)| (*a, *k)).collect()).get(&a).copied()
}
