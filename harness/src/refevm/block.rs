//! Block execution on the reference EVM, and the prover inputs for it.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::{GenerationInputs, TrieInputs};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata, TrieRoots};
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use mpt_trie::trie_subsets::create_trie_subset;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::Field;

use super::evm::{create_address, Account, Env, Evm, Halt, Log, Msg, Stats, World};
use super::mpt;
use super::rlp;
use super::tx::{validate, BlockCtx, Signed, Tx};

pub type F = GoldilocksField;

pub fn beacon_address() -> Address {
    Address::from_slice(&hex_literal::hex!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02"))
}
pub const BEACON_CODE: &[u8] = &hex_literal::hex!("3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500");

pub fn beacon_account() -> Account {
    Account { nonce: 1, balance: 0.into(), code: BEACON_CODE.to_vec(), storage: BTreeMap::new() }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub coinbase: Address,
    pub timestamp: U256,
    pub number: U256,
    pub prevrandao: H256,
    pub gas_limit: U256,
    pub chain_id: U256,
    pub base_fee: U256,
    pub excess_blob_gas: U256,
    pub parent_beacon_root: H256,
    pub prev_hashes: Vec<H256>,
    pub cur_hash: H256,
    pub withdrawals: Vec<(Address, U256)>,
    pub pre: World,
    pub txs: Vec<Tx>,
}

impl Block {
    pub fn basic() -> Block {
        let mut pre = World::new();
        pre.insert(beacon_address(), beacon_account());
        Block {
            coinbase: Address::from_low_u64_be(0xc01_bab3),
            timestamp: 1000.into(),
            number: 1.into(),
            prevrandao: H256::from_low_u64_be(77),
            gas_limit: 30_000_000.into(),
            chain_id: 1.into(),
            base_fee: 7.into(),
            excess_blob_gas: 0.into(),
            parent_beacon_root: H256::zero(),
            prev_hashes: vec![H256::zero(); 256],
            cur_hash: H256::zero(),
            withdrawals: vec![],
            pre,
            txs: vec![],
        }
    }
    pub fn blob_base_fee(&self) -> U256 {
        fake_exponential(1.into(), self.excess_blob_gas, 3338477.into())
    }
    pub fn env(&self) -> Env {
        Env {
            coinbase: self.coinbase,
            timestamp: self.timestamp,
            number: self.number,
            prevrandao: self.prevrandao,
            gas_limit: self.gas_limit,
            chain_id: self.chain_id,
            base_fee: self.base_fee,
            blob_base_fee: self.blob_base_fee(),
            prev_hashes: self.prev_hashes.clone(),
            origin: Address::zero(),
            gas_price: U256::zero(),
            blob_hashes: vec![],
        }
    }
}

pub fn fake_exponential(factor: U256, num: U256, den: U256) -> U256 {
    let mut i = U256::one();
    let mut out = U256::zero();
    let mut acc = factor * den;
    while !acc.is_zero() {
        out += acc;
        acc = acc * num / (den * i);
        i += U256::one();
    }
    out / den
}

#[derive(Clone, Debug)]
pub struct Receipt {
    pub ty: u8,
    pub status: bool,
    pub cum_gas: u64,
    pub logs: Vec<Log>,
}

pub fn bloom_add(b: &mut [u8; 256], item: &[u8]) {
    let h = keccak(item).0;
    for i in [0, 2, 4] {
        let bit = (((h[i] as usize) << 8) | h[i + 1] as usize) & 2047;
        b[255 - bit / 8] |= 1 << (bit % 8);
    }
}

impl Receipt {
    pub fn bloom(&self) -> [u8; 256] {
        let mut b = [0; 256];
        for l in &self.logs {
            bloom_add(&mut b, l.address.as_bytes());
            for t in &l.topics {
                bloom_add(&mut b, t.as_bytes());
            }
        }
        b
    }
    pub fn encode(&self) -> Vec<u8> {
        let logs: Vec<Vec<u8>> = self
            .logs
            .iter()
            .map(|l| {
                let t: Vec<Vec<u8>> = l.topics.iter().map(|t| rlp::h256(*t)).collect();
                rlp::list(&[rlp::addr(l.address), rlp::list(&t), rlp::bytes(&l.data)])
            })
            .collect();
        let mut v = rlp::list(&[
            rlp::uint(U256::from(self.status as u64)),
            rlp::uint(self.cum_gas.into()),
            rlp::bytes(&self.bloom()),
            rlp::list(&logs),
        ]);
        if self.ty > 0 {
            v.insert(0, self.ty);
        }
        v
    }
}

pub struct TxOut {
    pub signed: Signed,
    pub sender: Address,
    pub receipt: Receipt,
    pub gas_used: u64,
    pub refund: u64,
    pub halt: Halt,
    pub output: Vec<u8>,
    pub world: World,
    pub stats: Stats,
    pub steps: u64,
    pub max_depth: usize,
    pub trace: Vec<(u8, u64)>,
    pub seen_addr: BTreeSet<Address>,
    pub seen_slot: BTreeSet<(Address, U256)>,
    pub created: BTreeSet<Address>,
    pub destroyed: BTreeSet<Address>,
    /// Addresses warm at the end of the transaction.
    pub warm: BTreeSet<Address>,
}

pub struct BlockOut {
    /// World after the beacon-root update.
    pub start: World,
    pub txs: Vec<TxOut>,
    pub end: World,
}

/// Writes the beacon root, as the system call at the start of the block does.
pub fn beacon_update(w: &mut World, b: &Block) {
    let a = w.get_mut(&beacon_address()).expect("beacon contract");
    let i = b.timestamp % U256::from(8191);
    let mut set = |k: U256, v: U256| {
        if v.is_zero() {
            a.storage.remove(&k);
        } else {
            a.storage.insert(k, v);
        }
    };
    set(i, b.timestamp);
    set(i + U256::from(8191), U256::from_big_endian(b.parent_beacon_root.as_bytes()));
}

pub fn exec_tx(b: &Block, world: &World, tx: &Tx, cum_gas: u64, blob_used: u64) -> Result<TxOut, &'static str> {
    let signed = tx.sign();
    let bbf = b.blob_base_fee();
    let ctx = BlockCtx {
        chain_id: b.chain_id,
        base_fee: b.base_fee,
        blob_base_fee: bbf,
        gas_limit: b.gas_limit,
        gas_used: cum_gas,
        blob_gas_used: blob_used,
    };
    let sender = validate(tx, signed.sender, world, &ctx)?;
    Ok(run_tx(b, world, tx, signed, sender, cum_gas))
}

/// Executes a valid transaction.
pub fn run_tx(b: &Block, world: &World, tx: &Tx, signed: Signed, sender: Address, cum_gas: u64) -> TxOut {
    let bbf = b.blob_base_fee();
    let mut env = b.env();
    // (wrapping: also run for invalid transactions, to claim what must be refused)
    let prio = tx.prio_cap().min(tx.max_fee.overflowing_sub(b.base_fee).0);
    let price = b.base_fee.overflowing_add(prio).0;
    env.origin = sender;
    env.gas_price = price;
    env.blob_hashes = tx.blob_hashes.clone();
    let gas_limit = tx.gas.as_u64();
    let mut w = world.clone();
    {
        let a = w.entry(sender).or_default();
        let paid = U256::from(gas_limit).overflowing_mul(price).0;
        a.balance = a.balance.overflowing_sub(paid).0;
        a.balance = a.balance.overflowing_sub(bbf * U256::from(131072 * tx.blob_hashes.len())).0;
        a.nonce = a.nonce.wrapping_add(1);
    }
    let mut evm = Evm::new(&env, &w);
    evm.trace = Some(vec![]);
    evm.seen_addr.insert(sender);
    evm.seen_addr.insert(b.coinbase);
    evm.j.warm_addr.insert(sender);
    evm.j.warm_addr.insert(b.coinbase);
    for i in 1..=10 {
        evm.j.warm_addr.insert(Address::from_low_u64_be(i));
    }
    for (a, ks) in &tx.access {
        evm.j.warm_addr.insert(*a);
        for k in ks {
            evm.j.warm_slot.insert((*a, *k));
        }
    }
    let gas = gas_limit.wrapping_sub(tx.intrinsic());
    let o = match tx.to {
        Some(to) => {
            evm.j.warm_addr.insert(to);
            let code = evm.j.world.get(&to).map(|x| x.code.clone()).unwrap_or_default();
            evm.call(Msg {
                caller: sender,
                target: to,
                code_addr: to,
                code,
                data: tx.data.clone(),
                value: tx.value,
                transfer: true,
                gas,
                is_static: false,
                depth: 0,
                is_create: false,
            })
        }
        None => {
            let n = world.get(&sender).map(|a| a.nonce).unwrap_or(0);
            let a = create_address(sender, n);
            evm.j.warm_addr.insert(a);
            evm.seen_addr.insert(a);
            let collides = evm.j.world.get(&a).map(|x| x.nonce != 0 || !x.code.is_empty()).unwrap_or(false);
            if collides {
                evm.stats.ev("tx create collision");
                super::evm::Outcome { halt: Halt::Fault("collision"), gas_left: 0, output: vec![] }
            } else {
                evm.call(Msg {
                    caller: sender,
                    target: a,
                    code_addr: a,
                    code: tx.data.clone(),
                    data: vec![],
                    value: tx.value,
                    transfer: true,
                    gas,
                    is_static: false,
                    depth: 0,
                    is_create: true,
                })
            }
        }
    };
    let ok = o.ok();
    let used = gas_limit.wrapping_sub(o.gas_left);
    let refund = if ok { (used / 5).min(evm.j.refund.max(0) as u64) } else { 0 };
    let used = used - refund;
    let back = price.overflowing_mul(U256::from(gas_limit)).0.overflowing_sub(price.overflowing_mul(U256::from(used)).0).0;
    evm.add_balance(sender, back);
    evm.add_balance(b.coinbase, prio.overflowing_mul(U256::from(used)).0);
    let j = &mut evm.j;
    if ok {
        for a in &j.destroyed {
            j.world.remove(a);
        }
    }
    let receipt = Receipt {
        ty: tx.ty,
        status: ok,
        cum_gas: cum_gas + used,
        logs: if ok { j.logs.clone() } else { vec![] },
    };
    TxOut {
        signed,
        sender,
        receipt,
        gas_used: used,
        refund,
        halt: o.halt,
        output: o.output,
        world: j.world.clone(),
        stats: evm.stats,
        steps: evm.steps,
        max_depth: evm.max_depth,
        trace: evm.trace.unwrap_or_default(),
        seen_addr: evm.seen_addr,
        seen_slot: evm.seen_slot,
        created: evm.j.created,
        destroyed: evm.j.destroyed,
        warm: evm.j.warm_addr,
    }
}

pub fn exec_block(b: &Block) -> Result<BlockOut, &'static str> {
    let mut w = b.pre.clone();
    beacon_update(&mut w, b);
    let start = w.clone();
    let mut txs = vec![];
    let mut cum = 0;
    let mut blob = 0;
    for t in &b.txs {
        let o = exec_tx(b, &w, t, cum, blob)?;
        cum = o.receipt.cum_gas;
        blob += 131072 * t.blob_hashes.len() as u64;
        w = o.world.clone();
        txs.push(o);
    }
    for (a, v) in &b.withdrawals {
        if !v.is_zero() {
            let x = w.entry(*a).or_default();
            x.balance += *v;
        }
    }
    Ok(BlockOut { start, txs, end: w })
}

// ---- tries ----

pub fn storage_map(a: &Account) -> mpt::Map {
    a.storage
        .iter()
        .map(|(k, v)| (mpt::to_nibbles(keccak(super::precompiles::be32(*k)).as_bytes()), rlp::uint(*v)))
        .collect()
}
pub fn account_rlp(a: &Account) -> Vec<u8> {
    rlp::list(&[
        rlp::uint(a.nonce.into()),
        rlp::uint(a.balance),
        rlp::h256(mpt::root(&storage_map(a))),
        rlp::h256(keccak(&a.code)),
    ])
}
pub fn state_map(w: &World) -> mpt::Map {
    w.iter().map(|(a, x)| (mpt::to_nibbles(keccak(a.as_bytes()).as_bytes()), account_rlp(x))).collect()
}
pub fn state_root(w: &World) -> H256 {
    mpt::root(&state_map(w))
}
pub fn index_map(items: &[Vec<u8>]) -> mpt::Map {
    items
        .iter()
        .enumerate()
        .map(|(i, v)| (mpt::to_nibbles(&rlp::uint(i.into())), v.clone()))
        .collect()
}

pub fn nib(n: &[u8]) -> Nibbles {
    let mut x = Nibbles::default();
    for b in n {
        x.push_nibble_back(*b);
    }
    x
}
pub fn to_trie(m: &mpt::Map) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::from(Node::Empty);
    for (k, v) in m {
        t.insert(nib(k), v.clone()).unwrap();
    }
    t
}

/// The part of the trie the keys touch, everything else hashed out.
pub fn prune(t: &HashedPartialTrie, keep: &[Vec<u8>]) -> HashedPartialTrie {
    create_trie_subset(t, keep.iter().map(|k| nib(k))).unwrap()
}

/// Adds the keys that deletions may lift up: those under the branch a deleted
/// key hangs from, once all deletions are done.
fn with_siblings(before: &mpt::Map, after: &mpt::Map, mut keep: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let lcp = |a: &[u8], b: &[u8]| a.iter().zip(b).take_while(|(x, y)| x == y).count();
    for d in before.keys().filter(|k| !after.contains_key(*k)) {
        let l = after.keys().map(|k| lcp(k, d)).max().unwrap_or(0);
        keep.extend(before.keys().filter(|k| k[..l] == d[..l]).cloned());
    }
    keep
}

pub fn addr_key(a: &Address) -> Vec<u8> {
    mpt::to_nibbles(keccak(a.as_bytes()).as_bytes())
}
pub fn slot_key(k: &U256) -> Vec<u8> {
    mpt::to_nibbles(keccak(super::precompiles::be32(*k)).as_bytes())
}

pub fn metadata(b: &Block, o: &BlockOut) -> BlockMetadata {
    let blobs: usize = b.txs.iter().map(|t| t.blob_hashes.len()).sum();
    let mut bloom = [0u8; 256];
    for t in &o.txs {
        for (x, y) in bloom.iter_mut().zip(t.receipt.bloom()) {
            *x |= y;
        }
    }
    BlockMetadata {
        block_beneficiary: b.coinbase,
        block_timestamp: b.timestamp,
        block_number: b.number,
        block_difficulty: U256::zero(),
        block_random: b.prevrandao,
        block_gaslimit: b.gas_limit,
        block_chain_id: b.chain_id,
        block_base_fee: b.base_fee,
        block_gas_used: o.txs.last().map(|t| t.receipt.cum_gas).unwrap_or(0).into(),
        block_blob_gas_used: (131072 * blobs).into(),
        block_excess_blob_gas: b.excess_blob_gas,
        parent_beacon_block_root: b.parent_beacon_root,
        block_bloom: std::array::from_fn(|i| U256::from_big_endian(&bloom[32 * i..32 * i + 32])),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Witness {
    Full,
    /// Keep only what the execution looked at (plus the siblings deletions need).
    Pruned,
}

/// The prover inputs for transactions [from, to) of the block.
pub fn inputs(b: &Block, o: &BlockOut, from: usize, to: usize, wit: Witness) -> GenerationInputs<F> {
    let before: &World = if from == 0 { &b.pre } else { &o.txs[from - 1].world };
    let last = to == o.txs.len();
    let after: &World = if last {
        &o.end
    } else if to == 0 {
        &o.start
    } else {
        &o.txs[to - 1].world
    };
    let enc: Vec<Vec<u8>> = o.txs.iter().map(|t| t.signed.bytes.clone()).collect();
    let rec: Vec<Vec<u8>> = o.txs.iter().map(|t| t.receipt.encode()).collect();

    let mut keep_a: BTreeSet<Address> = BTreeSet::new();
    let mut keep_s: BTreeMap<Address, BTreeSet<U256>> = BTreeMap::new();
    let mut all_storage: BTreeSet<Address> = BTreeSet::new();
    if wit == Witness::Pruned {
        if from == 0 {
            keep_a.insert(beacon_address());
            all_storage.insert(beacon_address());
        }
        for t in &o.txs[from..to] {
            keep_a.extend(t.seen_addr.iter());
            for (a, k) in &t.seen_slot {
                keep_s.entry(*a).or_default().insert(*k);
            }
        }
        if last {
            keep_a.extend(b.withdrawals.iter().map(|w| w.0));
        }
    }
    let mut state_trie = to_trie(&state_map(before));
    let mut storage_tries = vec![];
    for (a, x) in before {
        let touched = wit == Witness::Full || keep_a.contains(a);
        if !touched {
            continue;
        }
        let m = storage_map(x);
        let full = to_trie(&m);
        let t = if wit == Witness::Pruned && !all_storage.contains(a) {
            let e = Default::default();
            let ks = keep_s.get(a).unwrap_or(&e);
            let now = after.get(a).map(storage_map).unwrap_or_default();
            prune(&full, &with_siblings(&m, &now, ks.iter().map(slot_key).collect()))
        } else {
            full
        };
        storage_tries.push((keccak(a.as_bytes()), t));
    }
    if wit == Witness::Pruned {
        let keep = keep_a.iter().map(addr_key).collect();
        state_trie = prune(&state_trie, &with_siblings(&state_map(before), &state_map(after), keep));
    }
    let mut contract_code: HashMap<H256, Vec<u8>> = before.values().map(|x| (keccak(&x.code), x.code.clone())).collect();
    contract_code.insert(keccak([]), vec![]);

    let gas_before = if from == 0 { 0 } else { o.txs[from - 1].receipt.cum_gas };
    let gas_after = if to == 0 { 0 } else { o.txs[to - 1].receipt.cum_gas };
    GenerationInputs {
        txn_number_before: from.into(),
        gas_used_before: gas_before.into(),
        gas_used_after: gas_after.into(),
        signed_txns: enc[from..to].to_vec(),
        burn_addr: None,
        withdrawals: if last { b.withdrawals.clone() } else { vec![] },
        tries: TrieInputs {
            state_trie,
            transactions_trie: to_trie(&index_map(&enc[..from])),
            receipts_trie: to_trie(&index_map(&rec[..from])),
            storage_tries,
        },
        trie_roots_after: TrieRoots {
            state_root: state_root(after),
            transactions_root: mpt::root(&index_map(&enc[..to])),
            receipts_root: mpt::root(&index_map(&rec[..to])),
        },
        checkpoint_state_trie_root: state_root(&b.pre),
        checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
        contract_code,
        block_metadata: metadata(b, o),
        block_hashes: BlockHashes { prev_hashes: b.prev_hashes.clone(), cur_hash: b.cur_hash },
        ger_data: None,
    }
}
