//! Builds prover inputs from a JSON description of a block (for demonstrations).
use std::str::FromStr;

use ethereum_types::{Address, H256, U256};
use serde_json::Value;

use crate::refevm::block::{self, Block, Witness};
use crate::refevm::evm::Account;
use crate::refevm::tx::{keys, SigTweak, Tx};

fn u(v: &Value) -> U256 {
    match v {
        Value::Null => U256::zero(),
        Value::Number(n) => n.as_u64().unwrap().into(),
        Value::String(s) if s.starts_with("0x") => U256::from_str(&s[2..]).unwrap(),
        Value::String(s) => U256::from_dec_str(s).unwrap(),
        _ => panic!("number expected"),
    }
}
fn addr(s: &str) -> Address {
    if let Some(k) = s.strip_prefix("key") {
        return keys()[k.parse::<usize>().unwrap()].1;
    }
    let b = hex::decode(s.trim_start_matches("0x")).unwrap();
    let mut a = [0u8; 20];
    a[20 - b.len()..].copy_from_slice(&b);
    Address::from(a)
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_str().map(|s| hex::decode(s.replace(' ', "")).unwrap()).unwrap_or_default()
}

pub fn build(text: &str) -> String {
    let j: Value = serde_json::from_str(text).unwrap();
    let mut b = Block::basic();
    if let Some(x) = j.get("number") {
        b.number = u(x);
    }
    if let Some(x) = j.get("timestamp") {
        b.timestamp = u(x);
    }
    if let Some(x) = j.get("base_fee") {
        b.base_fee = u(x);
    }
    if let Some(x) = j.get("excess_blob_gas") {
        b.excess_blob_gas = u(x);
    }
    for w in j["withdrawals"].as_array().unwrap_or(&vec![]) {
        b.withdrawals.push((addr(w[0].as_str().unwrap()), u(&w[1])));
    }
    for (a, x) in j["pre"].as_object().unwrap() {
        let storage = x["storage"]
            .as_object()
            .map(|m| m.iter().map(|(k, v)| (u(&Value::String(k.clone())), u(v))).collect())
            .unwrap_or_default();
        b.pre.insert(addr(a), Account { nonce: u(&x["nonce"]).as_u64(), balance: u(&x["balance"]), code: bytes(&x["code"]), storage });
    }
    for x in j["txs"].as_array().unwrap() {
        let ty = x["type"].as_u64().unwrap_or(2) as u8;
        b.txs.push(Tx {
            ty,
            chain_id: Some(1.into()),
            nonce: u(&x["nonce"]),
            max_fee: x.get("max_fee").map(u).unwrap_or(10.into()),
            max_prio: x.get("max_prio").map(u).unwrap_or(1.into()),
            gas: x.get("gas").map(u).unwrap_or(1_000_000.into()),
            to: x["to"].as_str().map(addr),
            value: u(&x["value"]),
            data: bytes(&x["data"]),
            access: x["access"]
                .as_array()
                .map(|l| l.iter().map(|e| (addr(e[0].as_str().unwrap()), e[1].as_array().unwrap().iter().map(u).collect())).collect())
                .unwrap_or_default(),
            max_blob_fee: x.get("max_blob_fee").map(u).unwrap_or(1.into()),
            blob_hashes: x["blobs"].as_array().map(|l| l.iter().map(|h| H256::from_slice(&bytes(h))).collect()).unwrap_or_default(),
            key: keys()[x["key"].as_u64().unwrap_or(0) as usize].0,
            sig: SigTweak::None,
        });
    }
    let o = match block::exec_block(&b) {
        Ok(o) => o,
        Err(e) => {
            // an invalid last transaction: the block that executes it anyway
            eprintln!("invalid: {e}");
            let (_, o) = crate::evmgen::valid::claims(&b).into_iter().find(|c| c.0 == "executed").unwrap();
            o
        }
    };
    for t in &o.txs {
        eprintln!("tx: {:?} gas {} {:?}", t.receipt.status, t.receipt.cum_gas, t.halt);
    }
    let inp = block::inputs(&b, &o, 0, b.txs.len(), Witness::Full);
    serde_json::to_string(&inp).unwrap()
}
