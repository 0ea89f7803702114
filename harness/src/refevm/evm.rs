//! A reference EVM (Cancun), following the execution specifications: state is
//! copied at every frame and restored when the frame fails.
use std::collections::{BTreeMap, BTreeSet};

use ethereum_types::{Address, H256, U256, U512};
use keccak_hash::keccak;

use super::precompiles::{self, be32};
use super::rlp;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Account {
    pub nonce: u64,
    pub balance: U256,
    pub code: Vec<u8>,
    pub storage: BTreeMap<U256, U256>,
}
impl Account {
    pub fn is_empty(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
}
pub type World = BTreeMap<Address, Account>;

#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub address: Address,
    pub topics: Vec<H256>,
    pub data: Vec<u8>,
}

/// Everything a failed frame rolls back.
#[derive(Clone, Default)]
pub struct Journal {
    pub world: World,
    pub warm_addr: BTreeSet<Address>,
    pub warm_slot: BTreeSet<(Address, U256)>,
    pub transient: BTreeMap<(Address, U256), U256>,
    pub logs: Vec<Log>,
    pub refund: i64,
    pub created: BTreeSet<Address>,
    pub destroyed: BTreeSet<Address>,
}

#[derive(Clone, Debug)]
pub struct Env {
    pub coinbase: Address,
    pub timestamp: U256,
    pub number: U256,
    pub prevrandao: H256,
    pub gas_limit: U256,
    pub chain_id: U256,
    pub base_fee: U256,
    pub blob_base_fee: U256,
    /// Hashes of the 256 previous blocks; the parent's is the last.
    pub prev_hashes: Vec<H256>,
    // per transaction
    pub origin: Address,
    pub gas_price: U256,
    pub blob_hashes: Vec<H256>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Halt {
    Stop,
    Return,
    Revert,
    /// Exceptional halt, with its reason.
    Fault(&'static str),
}

pub struct Outcome {
    pub halt: Halt,
    pub gas_left: u64,
    pub output: Vec<u8>,
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self.halt, Halt::Stop | Halt::Return)
    }
}

pub struct Evm<'a> {
    pub env: &'a Env,
    pub j: Journal,
    /// The world at the start of the transaction.
    pub original: World,
    /// Every account / slot looked at (for the witness).
    pub seen_addr: BTreeSet<Address>,
    pub seen_slot: BTreeSet<(Address, U256)>,
    pub stats: Stats,
    pub steps: u64,
    pub max_depth: usize,
    /// Gas left at each step of the outermost frame (if tracing).
    pub trace: Option<Vec<(u8, u64)>>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: BTreeMap<u8, u64>,
    pub events: BTreeMap<String, u64>,
}

impl Stats {
    pub fn ev(&mut self, s: &str) {
        *self.events.entry(s.to_string()).or_default() += 1;
    }
}

pub struct Msg {
    pub caller: Address,
    pub target: Address,
    pub code_addr: Address,
    pub code: Vec<u8>,
    pub data: Vec<u8>,
    pub value: U256,
    pub transfer: bool,
    pub gas: u64,
    pub is_static: bool,
    pub depth: usize,
    pub is_create: bool,
}

pub const MAX_CODE: usize = 0x6000;

pub fn is_precompile(a: &Address) -> Option<u64> {
    let b = a.as_bytes();
    if b[..19].iter().all(|x| *x == 0) && (1..=10).contains(&b[19]) {
        Some(b[19] as u64)
    } else {
        None
    }
}

pub fn valid_jumpdests(code: &[u8]) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    let mut i = 0;
    while i < code.len() {
        let op = code[i];
        if op == 0x5b {
            s.insert(i);
        }
        if (0x60..=0x7f).contains(&op) {
            i += (op - 0x5f) as usize;
        }
        i += 1;
    }
    s
}

pub fn to_addr(x: U256) -> Address {
    Address::from_slice(&be32(x)[12..])
}
pub fn from_addr(a: Address) -> U256 {
    U256::from_big_endian(a.as_bytes())
}

pub fn create_address(sender: Address, nonce: u64) -> Address {
    let h = keccak(rlp::list(&[rlp::addr(sender), rlp::uint(nonce.into())]));
    Address::from_slice(&h.as_bytes()[12..])
}
pub fn create2_address(sender: Address, salt: U256, init: &[u8]) -> Address {
    let mut v = vec![0xff];
    v.extend(sender.as_bytes());
    v.extend(be32(salt));
    v.extend(keccak(init).as_bytes());
    Address::from_slice(&keccak(v).as_bytes()[12..])
}

struct Frame {
    stack: Vec<U256>,
    mem: Vec<u8>,
    pc: usize,
    gas: u64,
    ret: Vec<u8>,
}

type R<T> = Result<T, &'static str>;

fn mem_cost(words: u64) -> u64 {
    3 * words + ((words as u128 * words as u128) / 512) as u64
}

impl Frame {
    fn pop(&mut self) -> R<U256> {
        self.stack.pop().ok_or("stack underflow")
    }
    fn push(&mut self, x: U256) -> R<()> {
        if self.stack.len() >= 1024 {
            return Err("stack overflow");
        }
        self.stack.push(x);
        Ok(())
    }
    fn charge(&mut self, g: u64) -> R<()> {
        if self.gas < g {
            return Err("out of gas");
        }
        self.gas -= g;
        Ok(())
    }
    /// The expansion cost and new size for an access; does not expand.
    fn expansion(&self, accesses: &[(U256, U256)]) -> R<(u64, usize)> {
        let mut size = self.mem.len();
        for (off, len) in accesses {
            if len.is_zero() {
                continue;
            }
            let end = U512::from(*off) + U512::from(*len);
            if end > U512::from(1u64 << 36) {
                return Err("out of gas");
            }
            let end = end.as_u64() as usize;
            size = size.max(end.div_ceil(32) * 32);
        }
        let (a, b) = ((self.mem.len() / 32) as u64, (size / 32) as u64);
        Ok((mem_cost(b) - mem_cost(a), size))
    }
    fn expand(&mut self, accesses: &[(U256, U256)]) -> R<()> {
        let (c, size) = self.expansion(accesses)?;
        self.charge(c)?;
        self.mem.resize(size, 0);
        Ok(())
    }
    fn read(&self, off: U256, len: U256) -> Vec<u8> {
        if len.is_zero() {
            return vec![];
        }
        let o = off.as_usize();
        self.mem[o..o + len.as_usize()].to_vec()
    }
    fn write(&mut self, off: U256, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        let o = off.as_usize();
        self.mem[o..o + data.len()].copy_from_slice(data);
    }
}

fn wlen(len: U256) -> R<u64> {
    if len > U256::from(1u64 << 36) {
        return Err("out of gas");
    }
    Ok(len.as_u64().div_ceil(32))
}

/// data[off..off+len], zero padded.
fn slice_pad(data: &[u8], off: U256, len: U256) -> Vec<u8> {
    let n = len.as_usize();
    let mut v = vec![0u8; n];
    if off < U256::from(data.len()) {
        let o = off.as_usize();
        let m = n.min(data.len() - o);
        v[..m].copy_from_slice(&data[o..o + m]);
    }
    v
}

fn neg(x: U256) -> bool {
    x.bit(255)
}
fn minus(x: U256) -> U256 {
    (!x).overflowing_add(U256::one()).0
}
fn abs(x: U256) -> U256 {
    if neg(x) {
        minus(x)
    } else {
        x
    }
}
fn b2u(b: bool) -> U256 {
    U256::from(b as u64)
}
fn u512_low(x: U512) -> U256 {
    let mut b = [0u8; 64];
    x.to_big_endian(&mut b);
    U256::from_big_endian(&b[32..])
}

impl<'a> Evm<'a> {
    pub fn new(env: &'a Env, world: &World) -> Self {
        Evm {
            env,
            j: Journal {
                world: world.clone(),
                ..Default::default()
            },
            original: world.clone(),
            seen_addr: Default::default(),
            seen_slot: Default::default(),
            stats: Default::default(),
            steps: 0,
            max_depth: 0,
            trace: None,
        }
    }

    pub fn acct(&mut self, a: Address) -> Option<&Account> {
        self.seen_addr.insert(a);
        self.j.world.get(&a)
    }
    fn acct_mut(&mut self, a: Address) -> &mut Account {
        self.seen_addr.insert(a);
        self.j.world.entry(a).or_default()
    }
    pub fn balance(&mut self, a: Address) -> U256 {
        self.acct(a).map(|x| x.balance).unwrap_or_default()
    }
    pub fn nonce(&mut self, a: Address) -> u64 {
        self.acct(a).map(|x| x.nonce).unwrap_or_default()
    }
    fn code(&mut self, a: Address) -> Vec<u8> {
        self.acct(a).map(|x| x.code.clone()).unwrap_or_default()
    }
    fn alive(&mut self, a: Address) -> bool {
        self.acct(a).map(|x| !x.is_empty()).unwrap_or(false)
    }
    pub fn add_balance(&mut self, a: Address, v: U256) {
        self.seen_addr.insert(a);
        if !v.is_zero() {
            let x = self.acct_mut(a);
            x.balance = x.balance.overflowing_add(v).0;
        }
    }
    pub fn sub_balance(&mut self, a: Address, v: U256) {
        self.seen_addr.insert(a);
        if !v.is_zero() {
            let x = self.acct_mut(a);
            x.balance -= v;
        }
    }
    pub fn inc_nonce(&mut self, a: Address) {
        self.acct_mut(a).nonce += 1;
    }
    fn sload(&mut self, a: Address, k: U256) -> U256 {
        self.seen_slot.insert((a, k));
        self.acct(a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default()
    }
    fn original(&mut self, a: Address, k: U256) -> U256 {
        if self.j.created.contains(&a) {
            return U256::zero();
        }
        self.original.get(&a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default()
    }
    fn sstore(&mut self, a: Address, k: U256, v: U256) {
        self.seen_slot.insert((a, k));
        let x = self.acct_mut(a);
        if v.is_zero() {
            x.storage.remove(&k);
        } else {
            x.storage.insert(k, v);
        }
    }
    /// 2600 / 100, and warms the account.
    fn access(&mut self, a: Address) -> u64 {
        if self.j.warm_addr.insert(a) {
            2600
        } else {
            100
        }
    }

    /// Runs a message call or a contract creation in a fresh frame.
    pub fn call(&mut self, m: Msg) -> Outcome {
        self.max_depth = self.max_depth.max(m.depth);
        let saved = self.j.clone();
        if m.is_create {
            let t = m.target;
            self.acct_mut(t).storage.clear();
            self.j.created.insert(t);
            self.acct_mut(t).nonce += 1;
        }
        if m.transfer && !m.value.is_zero() {
            self.sub_balance(m.caller, m.value);
            self.add_balance(m.target, m.value);
        }
        self.seen_addr.insert(m.target);
        self.seen_addr.insert(m.code_addr);
        let is_create = m.is_create;
        let target = m.target;
        let mut o = if let (Some(id), false) = (is_precompile(&m.code_addr), m.is_create) {
            self.stats.ev(&format!("precompile{id}"));
            match precompiles::gas(id, &m.data) {
                Some(g) if g <= m.gas => match precompiles::run(id, &m.data) {
                    Some(out) => Outcome { halt: Halt::Return, gas_left: m.gas - g, output: out },
                    None => Outcome { halt: Halt::Fault("precompile"), gas_left: 0, output: vec![] },
                },
                _ => Outcome { halt: Halt::Fault("out of gas"), gas_left: 0, output: vec![] },
            }
        } else {
            self.run(m)
        };
        if is_create && o.ok() {
            let len = o.output.len();
            let dep = 200 * len as u64;
            if o.output.first() == Some(&0xef) {
                o = Outcome { halt: Halt::Fault("EF code"), gas_left: 0, output: vec![] };
            } else if len > MAX_CODE {
                o = Outcome { halt: Halt::Fault("code too large"), gas_left: 0, output: vec![] };
            } else if o.gas_left < dep {
                o = Outcome { halt: Halt::Fault("code deposit"), gas_left: 0, output: vec![] };
            } else {
                o.gas_left -= dep;
                let code = std::mem::take(&mut o.output);
                self.acct_mut(target).code = code;
            }
        }
        match &o.halt {
            Halt::Fault(r) => {
                let s = format!("fault:{r}");
                self.stats.ev(&s);
                self.j = saved;
            }
            Halt::Revert => {
                self.stats.ev("revert");
                self.j = saved;
            }
            _ => {}
        }
        o
    }

    fn run(&mut self, m: Msg) -> Outcome {
        let mut f = Frame { stack: vec![], mem: vec![], pc: 0, gas: m.gas, ret: vec![] };
        let dests = valid_jumpdests(&m.code);
        match self.exec(&m, &mut f, &dests) {
            Ok((halt, output)) => Outcome { halt, gas_left: f.gas, output },
            Err(e) => Outcome { halt: Halt::Fault(e), gas_left: 0, output: vec![] },
        }
    }

    fn exec(&mut self, m: &Msg, f: &mut Frame, dests: &BTreeSet<usize>) -> R<(Halt, Vec<u8>)> {
        loop {
            if f.pc >= m.code.len() {
                return Ok((Halt::Stop, vec![]));
            }
            let op = m.code[f.pc];
            self.steps += 1;
            *self.stats.ops.entry(op).or_default() += 1;
            if m.depth == 0 {
                if let Some(t) = &mut self.trace {
                    t.push((op, f.gas));
                }
            }
            if let Some(x) = self.step(op, m, f, dests)? {
                return Ok(x);
            }
        }
    }

    #[allow(clippy::cognitive_complexity)]
    fn step(&mut self, op: u8, m: &Msg, f: &mut Frame, dests: &BTreeSet<usize>) -> R<Option<(Halt, Vec<u8>)>> {
        let mut next = f.pc + 1;
        match op {
            0x00 => return Ok(Some((Halt::Stop, vec![]))),
            0x01..=0x0b | 0x10..=0x1d => {
                let a = f.pop()?;
                let unary = op == 0x15 || op == 0x19;
                let b = if unary { U256::zero() } else { f.pop()? };
                let cost = match op {
                    0x02 | 0x04 | 0x05 | 0x06 | 0x07 | 0x0b => 5,
                    0x08 | 0x09 => 8,
                    0x0a => {
                        let n = (b.bits() as u64).div_ceil(8);
                        10 + 50 * n
                    }
                    _ => 3,
                };
                let c = if op == 0x08 || op == 0x09 { f.pop()? } else { U256::zero() };
                f.charge(cost)?;
                let r = match op {
                    0x01 => a.overflowing_add(b).0,
                    0x02 => a.overflowing_mul(b).0,
                    0x03 => a.overflowing_sub(b).0,
                    0x04 => a.checked_div(b).unwrap_or_default(),
                    0x05 => {
                        if b.is_zero() {
                            b
                        } else {
                            let q = abs(a) / abs(b);
                            if neg(a) != neg(b) {
                                minus(q)
                            } else {
                                q
                            }
                        }
                    }
                    0x06 => a.checked_rem(b).unwrap_or_default(),
                    0x07 => {
                        if b.is_zero() {
                            b
                        } else {
                            let q = abs(a) % abs(b);
                            if neg(a) {
                                minus(q)
                            } else {
                                q
                            }
                        }
                    }
                    0x08 => {
                        if c.is_zero() {
                            c
                        } else {
                            u512_low((U512::from(a) + U512::from(b)) % U512::from(c))
                        }
                    }
                    0x09 => {
                        if c.is_zero() {
                            c
                        } else {
                            u512_low(a.full_mul(b) % U512::from(c))
                        }
                    }
                    0x0a => {
                        let mut r = U256::one();
                        for i in (0..b.bits()).rev() {
                            r = r.overflowing_mul(r).0;
                            if b.bit(i) {
                                r = r.overflowing_mul(a).0;
                            }
                        }
                        r
                    }
                    0x0b => {
                        if a < U256::from(31) {
                            let bit = a.as_usize() * 8 + 7;
                            let mask = (U256::one() << (bit + 1)) - 1;
                            if b.bit(bit) {
                                b | !mask
                            } else {
                                b & mask
                            }
                        } else {
                            b
                        }
                    }
                    0x10 => b2u(a < b),
                    0x11 => b2u(a > b),
                    0x12 | 0x13 => {
                        let lt = |x: U256, y: U256| match (neg(x), neg(y)) {
                            (true, false) => true,
                            (false, true) => false,
                            _ => x < y,
                        };
                        b2u(if op == 0x12 { lt(a, b) } else { lt(b, a) })
                    }
                    0x14 => b2u(a == b),
                    0x15 => b2u(a.is_zero()),
                    0x16 => a & b,
                    0x17 => a | b,
                    0x18 => a ^ b,
                    0x19 => !a,
                    0x1a => {
                        if a < U256::from(32) {
                            U256::from(be32(b)[a.as_usize()])
                        } else {
                            U256::zero()
                        }
                    }
                    0x1b => {
                        if a < U256::from(256) {
                            b << a.as_usize()
                        } else {
                            U256::zero()
                        }
                    }
                    0x1c => {
                        if a < U256::from(256) {
                            b >> a.as_usize()
                        } else {
                            U256::zero()
                        }
                    }
                    0x1d => {
                        if neg(b) {
                            if a < U256::from(256) {
                                !((!b) >> a.as_usize())
                            } else {
                                U256::MAX
                            }
                        } else if a < U256::from(256) {
                            b >> a.as_usize()
                        } else {
                            U256::zero()
                        }
                    }
                    _ => unreachable!(),
                };
                f.push(r)?;
            }
            0x20 => {
                let (off, len) = (f.pop()?, f.pop()?);
                f.charge(30 + 6 * wlen(len)?)?;
                f.expand(&[(off, len)])?;
                let h = keccak(f.read(off, len));
                f.push(U256::from_big_endian(h.as_bytes()))?;
            }
            0x30 | 0x32 | 0x33 | 0x34 | 0x36 | 0x38 | 0x3a | 0x3d | 0x41..=0x46 | 0x48 | 0x4a | 0x58 | 0x59 | 0x5a => {
                f.charge(2)?;
                let e = self.env;
                let v = match op {
                    0x30 => from_addr(m.target),
                    0x32 => from_addr(e.origin),
                    0x33 => from_addr(m.caller),
                    0x34 => m.value,
                    0x36 => m.data.len().into(),
                    0x38 => m.code.len().into(),
                    0x3a => e.gas_price,
                    0x3d => f.ret.len().into(),
                    0x41 => from_addr(e.coinbase),
                    0x42 => e.timestamp,
                    0x43 => e.number,
                    0x44 => U256::from_big_endian(e.prevrandao.as_bytes()),
                    0x45 => e.gas_limit,
                    0x46 => e.chain_id,
                    0x48 => e.base_fee,
                    0x4a => e.blob_base_fee,
                    0x58 => f.pc.into(),
                    0x59 => f.mem.len().into(),
                    _ => f.gas.into(),
                };
                f.push(v)?;
            }
            0x31 | 0x3b | 0x3f => {
                let a = to_addr(f.pop()?);
                let c = self.access(a);
                f.charge(c)?;
                let v = match op {
                    0x31 => self.balance(a),
                    0x3b => self.code(a).len().into(),
                    _ => {
                        if self.alive(a) {
                            let c = self.code(a);
                            U256::from_big_endian(keccak(c).as_bytes())
                        } else {
                            U256::zero()
                        }
                    }
                };
                f.push(v)?;
            }
            0x35 => {
                let off = f.pop()?;
                f.charge(3)?;
                f.push(U256::from_big_endian(&slice_pad(&m.data, off, 32.into())))?;
            }
            0x37 | 0x39 => {
                let (d, s, len) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(3 + 3 * wlen(len)?)?;
                f.expand(&[(d, len)])?;
                let v = slice_pad(if op == 0x37 { &m.data } else { &m.code }, s, len);
                f.write(d, &v);
            }
            0x3c => {
                let a = to_addr(f.pop()?);
                let (d, s, len) = (f.pop()?, f.pop()?, f.pop()?);
                let c = self.access(a);
                f.charge(c + 3 * wlen(len)?)?;
                f.expand(&[(d, len)])?;
                let code = self.code(a);
                let v = slice_pad(&code, s, len);
                f.write(d, &v);
            }
            0x3e => {
                let (d, s, len) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(3 + 3 * wlen(len)?)?;
                f.expand(&[(d, len)])?;
                if U512::from(s) + U512::from(len) > U512::from(f.ret.len()) {
                    return Err("returndata out of bounds");
                }
                let v = slice_pad(&f.ret, s, len);
                f.write(d, &v);
            }
            0x40 => {
                let n = f.pop()?;
                f.charge(20)?;
                let e = self.env;
                let v = if n >= e.number || e.number > n.saturating_add(256.into()) {
                    U256::zero()
                } else {
                    let d = (e.number - n).as_usize(); // 1..=256
                    U256::from_big_endian(e.prev_hashes[256 - d].as_bytes())
                };
                f.push(v)?;
            }
            0x47 => {
                f.charge(5)?;
                let b = self.balance(m.target);
                f.push(b)?;
            }
            0x49 => {
                let i = f.pop()?;
                f.charge(3)?;
                let v = if i < U256::from(self.env.blob_hashes.len()) {
                    U256::from_big_endian(self.env.blob_hashes[i.as_usize()].as_bytes())
                } else {
                    U256::zero()
                };
                f.push(v)?;
            }
            0x50 => {
                f.pop()?;
                f.charge(2)?;
            }
            0x51 => {
                let o = f.pop()?;
                f.charge(3)?;
                f.expand(&[(o, 32.into())])?;
                let v = U256::from_big_endian(&f.read(o, 32.into()));
                f.push(v)?;
            }
            0x52 => {
                let (o, v) = (f.pop()?, f.pop()?);
                f.charge(3)?;
                f.expand(&[(o, 32.into())])?;
                f.write(o, &be32(v));
            }
            0x53 => {
                let (o, v) = (f.pop()?, f.pop()?);
                f.charge(3)?;
                f.expand(&[(o, 1.into())])?;
                f.write(o, &[v.low_u64() as u8]);
            }
            0x54 => {
                let k = f.pop()?;
                let c = if self.j.warm_slot.insert((m.target, k)) { 2100 } else { 100 };
                f.charge(c)?;
                let v = self.sload(m.target, k);
                f.push(v)?;
            }
            0x55 => {
                let (k, v) = (f.pop()?, f.pop()?);
                if m.is_static {
                    return Err("static");
                }
                if f.gas <= 2300 {
                    return Err("out of gas");
                }
                let cur = self.sload(m.target, k);
                let org = self.original(m.target, k);
                let mut c = 0;
                if self.j.warm_slot.insert((m.target, k)) {
                    c += 2100;
                }
                if org == cur && cur != v {
                    c += if org.is_zero() { 20000 } else { 5000 - 2100 };
                } else {
                    c += 100;
                }
                if cur != v {
                    if !org.is_zero() && !cur.is_zero() && v.is_zero() {
                        self.j.refund += 4800;
                    }
                    if !org.is_zero() && cur.is_zero() {
                        self.j.refund -= 4800;
                    }
                    if org == v {
                        self.j.refund += if org.is_zero() { 20000 - 100 } else { 5000 - 2100 - 100 };
                    }
                }
                f.charge(c)?;
                self.sstore(m.target, k, v);
            }
            0x56 | 0x57 => {
                let d = f.pop()?;
                let take = if op == 0x57 {
                    let c = f.pop()?;
                    f.charge(10)?;
                    !c.is_zero()
                } else {
                    f.charge(8)?;
                    true
                };
                if take {
                    if d > U256::from(u32::MAX) || !dests.contains(&d.as_usize()) {
                        return Err("bad jump");
                    }
                    next = d.as_usize();
                }
            }
            0x5b => f.charge(1)?,
            0x5c => {
                let k = f.pop()?;
                f.charge(100)?;
                let v = self.j.transient.get(&(m.target, k)).copied().unwrap_or_default();
                f.push(v)?;
            }
            0x5d => {
                let (k, v) = (f.pop()?, f.pop()?);
                if m.is_static {
                    return Err("static");
                }
                f.charge(100)?;
                self.j.transient.insert((m.target, k), v);
            }
            0x5e => {
                let (d, s, len) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(3 + 3 * wlen(len)?)?;
                f.expand(&[(s, len), (d, len)])?;
                let v = f.read(s, len);
                f.write(d, &v);
            }
            0x5f => {
                f.charge(2)?;
                f.push(U256::zero())?;
            }
            0x60..=0x7f => {
                let n = (op - 0x5f) as usize;
                f.charge(3)?;
                let v = slice_pad(&m.code, (f.pc + 1).into(), n.into());
                f.push(U256::from_big_endian(&v))?;
                next += n;
            }
            0x80..=0x8f => {
                let n = (op - 0x7f) as usize;
                f.charge(3)?;
                if f.stack.len() < n {
                    return Err("stack underflow");
                }
                let v = f.stack[f.stack.len() - n];
                f.push(v)?;
            }
            0x90..=0x9f => {
                let n = (op - 0x8f) as usize;
                f.charge(3)?;
                let l = f.stack.len();
                if l < n + 1 {
                    return Err("stack underflow");
                }
                f.stack.swap(l - 1, l - 1 - n);
            }
            0xa0..=0xa4 => {
                let (o, len) = (f.pop()?, f.pop()?);
                let n = (op - 0xa0) as usize;
                let mut topics = vec![];
                for _ in 0..n {
                    topics.push(H256(be32(f.pop()?)));
                }
                if m.is_static {
                    return Err("static");
                }
                if len > U256::from(1u64 << 36) {
                    return Err("out of gas");
                }
                f.charge(375 + 375 * n as u64 + 8 * len.as_u64())?;
                f.expand(&[(o, len)])?;
                let data = f.read(o, len);
                self.j.logs.push(Log { address: m.target, topics, data });
            }
            0xf0 | 0xf5 => {
                let (value, o, len) = (f.pop()?, f.pop()?, f.pop()?);
                let salt = if op == 0xf5 { f.pop()? } else { U256::zero() };
                if m.is_static {
                    return Err("static");
                }
                let w = wlen(len)?;
                f.charge(32000 + 2 * w + if op == 0xf5 { 6 * w } else { 0 })?;
                f.expand(&[(o, len)])?;
                let init = f.read(o, len);
                if init.len() > 2 * MAX_CODE {
                    return Err("initcode too large");
                }
                f.ret.clear();
                let me = m.target;
                let nonce = self.nonce(me);
                let a = if op == 0xf5 {
                    create2_address(me, salt, &init)
                } else {
                    create_address(me, nonce)
                };
                self.seen_addr.insert(a);
                self.j.warm_addr.insert(a);
                if self.balance(me) < value || nonce == u64::MAX || m.depth + 1 > 1024 {
                    self.stats.ev("create refused");
                    f.push(U256::zero())?;
                } else {
                    let g = f.gas - f.gas / 64;
                    f.gas -= g;
                    self.inc_nonce(me);
                    if self.nonce(a) != 0 || !self.code(a).is_empty() {
                        self.stats.ev("create collision");
                        f.push(U256::zero())?;
                    } else {
                        let o = self.call(Msg {
                            caller: me,
                            target: a,
                            code_addr: a,
                            code: init,
                            data: vec![],
                            value,
                            transfer: true,
                            gas: g,
                            is_static: false,
                            depth: m.depth + 1,
                            is_create: true,
                        });
                        f.gas += o.gas_left;
                        if o.ok() {
                            self.stats.ev("create ok");
                            f.push(from_addr(a))?;
                        } else {
                            self.stats.ev("create failed");
                            f.ret = o.output;
                            f.push(U256::zero())?;
                        }
                    }
                }
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                let gas = f.pop()?;
                let to = to_addr(f.pop()?);
                let value = if op == 0xf1 || op == 0xf2 { f.pop()? } else { U256::zero() };
                let (ao, al, ro, rl) = (f.pop()?, f.pop()?, f.pop()?, f.pop()?);
                let (mc, _) = f.expansion(&[(ao, al), (ro, rl)])?;
                let mut extra = self.access(to);
                if !value.is_zero() {
                    extra += 9000;
                    if op == 0xf1 && !self.alive(to) {
                        extra += 25000;
                    }
                }
                if f.gas < extra + mc {
                    return Err("out of gas");
                }
                let avail = f.gas - extra - mc;
                let cap = avail - avail / 64;
                let g = if gas > U256::from(cap) { cap } else { gas.as_u64() };
                f.charge(extra + g)?;
                f.expand(&[(ao, al), (ro, rl)])?;
                let stipend = g + if value.is_zero() { 0 } else { 2300 };
                if op == 0xf1 && m.is_static && !value.is_zero() {
                    return Err("static");
                }
                f.ret.clear();
                if (op == 0xf1 || op == 0xf2) && self.balance(m.target) < value {
                    self.stats.ev("call insufficient balance");
                    f.gas += stipend;
                    f.push(U256::zero())?;
                } else if m.depth + 1 > 1024 {
                    self.stats.ev("call too deep");
                    f.gas += stipend;
                    f.push(U256::zero())?;
                } else {
                    let data = f.read(ao, al);
                    let code = self.code(to);
                    let msg = match op {
                        0xf1 => Msg { caller: m.target, target: to, code_addr: to, code, data, value, transfer: true, gas: stipend, is_static: m.is_static, depth: m.depth + 1, is_create: false },
                        0xf2 => Msg { caller: m.target, target: m.target, code_addr: to, code, data, value, transfer: true, gas: stipend, is_static: m.is_static, depth: m.depth + 1, is_create: false },
                        0xf4 => Msg { caller: m.caller, target: m.target, code_addr: to, code, data, value: m.value, transfer: false, gas: stipend, is_static: m.is_static, depth: m.depth + 1, is_create: false },
                        _ => Msg { caller: m.target, target: to, code_addr: to, code, data, value: U256::zero(), transfer: false, gas: stipend, is_static: true, depth: m.depth + 1, is_create: false },
                    };
                    let o = self.call(msg);
                    self.stats.ev(if o.ok() { "call ok" } else { "call failed" });
                    f.gas += o.gas_left;
                    f.push(b2u(o.ok()))?;
                    let n = o.output.len().min(if rl > U256::from(1u64 << 40) { usize::MAX } else { rl.as_usize() });
                    f.write(ro, &o.output[..n]);
                    f.ret = o.output;
                }
            }
            0xf3 | 0xfd => {
                let (o, len) = (f.pop()?, f.pop()?);
                f.expand(&[(o, len)])?;
                let d = f.read(o, len);
                return Ok(Some((if op == 0xf3 { Halt::Return } else { Halt::Revert }, d)));
            }
            0xff => {
                let b = to_addr(f.pop()?);
                if m.is_static {
                    return Err("static");
                }
                let mut c = 5000;
                if self.j.warm_addr.insert(b) {
                    c += 2600;
                }
                let bal = self.balance(m.target);
                if !bal.is_zero() && !self.alive(b) {
                    c += 25000;
                }
                f.charge(c)?;
                self.sub_balance(m.target, bal);
                self.add_balance(b, bal);
                if self.j.created.contains(&m.target) {
                    self.stats.ev("selfdestruct created");
                    let x = self.acct_mut(m.target);
                    x.balance = U256::zero();
                    self.j.destroyed.insert(m.target);
                } else {
                    self.stats.ev("selfdestruct existing");
                }
                return Ok(Some((Halt::Stop, vec![])));
            }
            _ => return Err("invalid opcode"),
        }
        f.pc = next;
        Ok(None)
    }
}
