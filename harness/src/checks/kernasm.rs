//! C18: the kernel assembler and its optimizer.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::U256;
use evm_arithmetization::verif_hooks::{assemble, evm_constants, kernel_code_fresh, kernel_labels};

use crate::fw::{fail, guarded, CaseResult, Check, Facet, Fail, Rec, Src};

// ---- opcodes (from the EVM and from the kernel's documentation) ----

fn opcode(m: &str) -> u8 {
    const T: &[(u8, &str)] = &[
        (0x00, "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND ADDFP254 MULFP254 SUBFP254 SUBMOD"),
        (0x10, "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR"),
        (0x20, "KECCAK256 KECCAK_GENERAL"),
        (0x30, "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH"),
        (0x40, "BLOCKHASH COINBASE TIMESTAMP NUMBER DIFFICULTY GASLIMIT CHAINID"),
        (0x48, "BASEFEE"),
        (0x4a, "BLOBBASEFEE"),
        (0x50, "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI GETPC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY"),
        (0xa0, "LOG0 LOG1 LOG2 LOG3 LOG4 PANIC"),
        (0xf0, "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2 GET_CONTEXT SET_CONTEXT MLOAD_32BYTES EXIT_KERNEL STATICCALL MLOAD_GENERAL MSTORE_GENERAL REVERT INVALID SELFDESTRUCT"),
    ];
    for (b, l) in T {
        if let Some(i) = l.split(' ').position(|x| x == m) {
            return b + i as u8;
        }
    }
    for (p, b) in [("DUP", 0x80u8), ("SWAP", 0x90), ("MSTORE_32BYTES_", 0xc0)] {
        if let Some(n) = m.strip_prefix(p).and_then(|x| x.parse::<u8>().ok()) {
            return b + n - 1;
        }
    }
    panic!("{m}")
}
const OPS: &[&str] = &[
    "STOP", "ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "ADDMOD", "MULMOD", "EXP", "SIGNEXTEND", "ADDFP254", "MULFP254", "SUBFP254", "SUBMOD", "LT", "GT", "SLT", "SGT", "EQ", "ISZERO",
    "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR", "KECCAK256", "KECCAK_GENERAL", "ADDRESS", "BALANCE", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATALOAD", "CALLDATASIZE", "CALLDATACOPY",
    "CODESIZE", "CODECOPY", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY", "RETURNDATASIZE", "RETURNDATACOPY", "EXTCODEHASH", "BLOCKHASH", "COINBASE", "TIMESTAMP", "NUMBER", "DIFFICULTY", "GASLIMIT",
    "CHAINID", "BASEFEE", "BLOBBASEFEE", "POP", "MLOAD", "MSTORE", "MSTORE8", "SLOAD", "SSTORE", "JUMP", "JUMPI", "GETPC", "MSIZE", "GAS", "JUMPDEST", "TLOAD", "TSTORE", "MCOPY", "DUP1", "DUP2",
    "DUP7", "DUP16", "SWAP1", "SWAP2", "SWAP10", "SWAP16", "LOG0", "LOG4", "PANIC", "MSTORE_32BYTES_1", "MSTORE_32BYTES_17", "MSTORE_32BYTES_32", "CREATE", "CALL", "CALLCODE", "RETURN",
    "DELEGATECALL", "CREATE2", "GET_CONTEXT", "SET_CONTEXT", "MLOAD_32BYTES", "EXIT_KERNEL", "STATICCALL", "MLOAD_GENERAL", "MSTORE_GENERAL", "REVERT", "INVALID", "SELFDESTRUCT",
];

// ---- source programs ----

#[derive(Clone, Debug, PartialEq)]
enum T {
    Lit(U256),
    Label(String),
    MLabel(String),
    Var(String),
    Const(String),
}
#[derive(Clone, Debug)]
enum It {
    Op(String),
    Push(T),
    Bytes(Vec<T>),
    Table(Vec<String>),
    Global(String),
    Local(String),
    MLocal(String),
    Def(String, Vec<String>, Vec<It>),
    Call(String, Vec<T>),
    Rep(usize, Vec<It>),
    /// keyword (or none), features, body
    Cfg(usize, Vec<String>, Vec<It>),
    Input(Vec<String>),
    Stack(Vec<(String, Option<usize>)>, Vec<T>),
}

// ---- writing them down ----

struct W<'a, 'b> {
    s: &'a mut Src<'b>,
    o: String,
}
impl W<'_, '_> {
    /// Space that may be missing.
    fn sp(&mut self) {
        match self.s.weighted(&[12, 4, 1, 1, 1]) {
            0 => {}
            1 => self.o.push(' '),
            2 => self.o.push_str("\n\t"),
            3 => self.o.push_str("/* POP */"),
            _ => self.o.push_str("// ADD\n"),
        }
    }
    /// Space that must be there; a comment is one.
    fn gap(&mut self) {
        let g = self.s.pick(&[" ", "\n", "\n", "  ", "\t", "\n    ", " // a comment: %stack (x) -> (y)\n", "/* PUSH 1 */", "// POP\n"]);
        self.o.push_str(g);
    }
    fn kw(&mut self, k: &str) {
        let k = match self.s.weighted(&[4, 1]) {
            0 => k.to_string(),
            _ => k.chars().map(|c| if self.s.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        };
        self.o.push_str(&k);
    }
    fn lit(&mut self, v: U256) {
        match self.s.below(4) {
            0 => self.o.push_str(&format!("0x{v:x}")),
            1 if v.bits() <= 240 => self.o.push_str(&format!("0X00{v:X}")),
            2 => self.o.push_str(&format!("0{v}")),
            _ => self.o.push_str(&v.to_string()),
        }
    }
    fn t(&mut self, t: &T) {
        match t {
            T::Lit(v) => self.lit(*v),
            T::Label(l) => self.o.push_str(l),
            T::MLabel(l) => self.o.push_str(&format!("%%{l}")),
            T::Var(l) => self.o.push_str(&format!("${l}")),
            T::Const(l) => self.o.push_str(&format!("@{l}")),
        }
    }
    fn list<X>(&mut self, xs: &[X], f: impl Fn(&mut Self, &X)) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.sp();
                self.o.push(',');
                self.sp();
            }
            f(self, x);
        }
    }
    fn items(&mut self, is: &[It]) {
        for i in is {
            self.item(i);
            self.gap();
        }
    }
    fn item(&mut self, i: &It) {
        match i {
            It::Op(m) => self.kw(m),
            It::Push(t) => {
                self.kw("PUSH");
                self.o.push(' ');
                self.sp();
                self.t(t);
            }
            It::Bytes(b) => {
                self.kw("BYTES");
                self.o.push(' ');
                self.list(b, |w, t| w.t(t));
            }
            It::Table(l) => {
                self.kw("JUMPTABLE");
                self.o.push(' ');
                self.list(l, |w, t| w.o.push_str(t));
            }
            It::Global(l) => {
                self.kw("GLOBAL");
                self.o.push_str(&format!(" {l}:"));
            }
            It::Local(l) => self.o.push_str(&format!("{l}:")),
            It::MLocal(l) => self.o.push_str(&format!("%%{l}:")),
            It::Def(n, p, b) => {
                self.kw("%macro");
                self.gap();
                self.o.push_str(n);
                if !p.is_empty() {
                    self.sp();
                    self.o.push('(');
                    self.sp();
                    self.list(p, |w, t| w.o.push_str(t));
                    self.o.push(')');
                }
                self.gap();
                self.items(b);
                self.kw("%endmacro");
            }
            It::Call(n, a) => {
                self.o.push_str(&format!("%{n}"));
                if !a.is_empty() {
                    self.o.push('(');
                    self.sp();
                    self.list(a, |w, t| w.t(t));
                    self.sp();
                    self.o.push(')');
                }
            }
            It::Rep(n, b) => {
                self.kw("%rep");
                self.gap();
                self.lit((*n).into());
                self.gap();
                self.items(b);
                self.kw("%endrep");
            }
            It::Cfg(k, f, b) => {
                self.o.push_str("#[cfg(");
                let k = ["", "any", "not", "all"][*k];
                if !k.is_empty() {
                    self.o.push_str(k);
                    self.o.push('(');
                }
                self.o.push_str("feature = ");
                for (i, x) in f.iter().enumerate() {
                    if i > 0 {
                        let c = self.s.pick(&[",", ", ", " , "]);
                        self.o.push_str(c);
                    }
                    self.o.push_str(x);
                }
                if !k.is_empty() {
                    self.o.push(')');
                }
                self.o.push_str(")]");
                self.sp();
                self.o.push('{');
                self.gap();
                self.items(b);
                self.o.push('}');
            }
            It::Input(p) => {
                self.kw("PROVER_INPUT");
                self.sp();
                self.o.push('(');
                self.o.push_str(&p.join("::"));
                self.o.push(')');
            }
            It::Stack(a, b) => {
                self.kw("%stack");
                self.sp();
                self.o.push('(');
                self.list(a, |w, (n, k)| match k {
                    None => w.o.push_str(n),
                    Some(k) => w.o.push_str(&format!("{n}: {k}")),
                });
                self.o.push(')');
                self.sp();
                self.o.push_str("->");
                self.sp();
                self.o.push('(');
                self.list(b, |w, t| w.t(t));
                self.o.push(')');
            }
        }
    }
}
fn write(s: &mut Src, is: &[It]) -> String {
    let mut w = W { s, o: String::new() };
    if w.s.bool() {
        w.gap();
    }
    w.items(is);
    w.o
}

// ---- what they denote ----

#[derive(Clone, Debug)]
enum Flat {
    Byte(u8),
    Label(String, bool),
    Lit(U256),
    PushL(String),
    Table(String),
    Input(Vec<String>),
    Stack(Vec<String>, Vec<Sym>),
}
/// What a stack item is.
#[derive(Clone, Debug, PartialEq)]
enum Sym {
    Item(String),
    Lit(U256),
    Label(String),
}

struct Expand<'a> {
    macros: &'a BTreeMap<(String, usize), (Vec<String>, Vec<It>)>,
    consts: &'a HashMap<String, U256>,
    feats: &'a [&'a str],
    n: usize,
}
struct Env<'a> {
    id: usize,
    vars: HashMap<&'a str, T>,
}

fn active(k: usize, f: &[String], feats: &[&str]) -> bool {
    match k {
        2 => !f.iter().any(|x| feats.contains(&x.as_str())),
        3 => f.iter().all(|x| feats.contains(&x.as_str())),
        _ => f.iter().any(|x| feats.contains(&x.as_str())),
    }
}

impl Expand<'_> {
    fn arg(&self, t: &T, e: Option<&Env>) -> T {
        match t {
            T::Var(v) => e.unwrap().vars[v.as_str()].clone(),
            T::MLabel(l) => T::Label(format!("{} {l}", e.unwrap().id)),
            T::Const(c) => T::Lit(self.consts[c]),
            t => t.clone(),
        }
    }
    fn go(&mut self, is: &[It], e: Option<&Env>, o: &mut Vec<Flat>) {
        for i in is {
            match i {
                It::Op(m) => o.push(Flat::Byte(opcode(m))),
                It::Push(t) => match self.arg(t, e) {
                    T::Lit(v) => o.push(Flat::Lit(v)),
                    T::Label(l) => o.push(Flat::PushL(l)),
                    _ => unreachable!(),
                },
                It::Bytes(b) => {
                    for t in b {
                        match self.arg(t, e) {
                            T::Lit(v) => o.push(Flat::Byte(v.low_u32() as u8)),
                            _ => unreachable!(),
                        }
                    }
                }
                It::Table(l) => o.extend(l.iter().cloned().map(Flat::Table)),
                It::Global(l) => o.push(Flat::Label(l.clone(), true)),
                It::Local(l) => o.push(Flat::Label(l.clone(), false)),
                It::MLocal(l) => o.push(Flat::Label(format!("{} {l}", e.unwrap().id), false)),
                It::Def(..) => {}
                It::Call(n, a) => {
                    let a: Vec<T> = a.iter().map(|t| self.arg(t, e)).collect();
                    let (p, b) = &self.macros[&(n.clone(), a.len())];
                    self.n += 1;
                    let e = Env { id: self.n, vars: p.iter().map(|x| x.as_str()).zip(a).collect() };
                    self.go(b, Some(&e), o);
                }
                It::Rep(n, b) => {
                    for _ in 0..*n {
                        self.go(b, e, o);
                    }
                }
                It::Cfg(k, f, b) => {
                    if active(*k, f, self.feats) {
                        self.go(b, e, o);
                    }
                }
                It::Input(p) => o.push(Flat::Input(p.clone())),
                It::Stack(a, b) => {
                    let (src, dst) = stack_syms(a, b, |t| self.arg(t, e));
                    o.push(Flat::Stack(src, dst));
                }
            }
        }
    }
}

/// The declared items, and what has to be there in their place; top first.
fn stack_syms(a: &[(String, Option<usize>)], b: &[T], arg: impl Fn(&T) -> T) -> (Vec<String>, Vec<Sym>) {
    let items = |n: &str, k: Option<usize>| (0..k.unwrap_or(1)).map(|i| format!("{n} {i}")).collect::<Vec<_>>();
    let src = a.iter().flat_map(|(n, k)| items(n, *k)).collect();
    let dst = b
        .iter()
        .flat_map(|t| match t {
            T::Label(l) if a.iter().any(|(n, _)| n == l) => {
                let k = a.iter().find(|(n, _)| n == l).unwrap().1;
                items(l, k).into_iter().map(Sym::Item).collect()
            }
            t => vec![match arg(t) {
                T::Lit(v) => Sym::Lit(v),
                T::Label(l) => Sym::Label(l),
                _ => unreachable!(),
            }],
        })
        .collect();
    (src, dst)
}

fn be(v: U256) -> Vec<u8> {
    let mut b = [0; 32];
    v.to_big_endian(&mut b);
    b[b.iter().position(|x| *x != 0).unwrap_or(32)..].to_vec()
}

fn u24(b: &[u8]) -> usize {
    b.iter().fold(0, |a, x| a << 8 | *x as usize)
}

/// Follows pushes, duplications, swaps and pops until the stack is as wanted;
/// returns how many bytes that took, and its labels by value.
fn follow(code: &[u8], src: &[String], dst: &[Sym], know: &dyn Fn(&str) -> Option<usize>) -> Result<(usize, Vec<(String, usize)>), String> {
    #[derive(Clone, Debug)]
    enum V {
        Item(String),
        Lit(Vec<u8>),
    }
    let mut st: Vec<V> = src.iter().rev().cloned().map(V::Item).collect();
    let want: Vec<&Sym> = dst.iter().rev().collect();
    let mut i = 0;
    loop {
        let ok = st.len() == want.len()
            && st.iter().zip(&want).all(|(a, b)| match (a, b) {
                (V::Item(a), Sym::Item(b)) => a == b,
                (V::Lit(a), Sym::Lit(b)) => *a == be(*b),
                (V::Lit(a), Sym::Label(l)) => a.len() == 3 && know(l).map_or(true, |x| u24(a) == x),
                _ => false,
            });
        if ok {
            let found = st.iter().zip(&want).filter_map(|(a, b)| match (a, b) {
                (V::Lit(a), Sym::Label(l)) => Some((l.clone(), u24(a))),
                _ => None,
            });
            return Ok((i, found.collect()));
        }
        let n = st.len();
        let e = || format!("never reached: {st:?} after {}", hex::encode(&code[..i]));
        match *code.get(i).ok_or_else(e)? {
            0x50 => {
                st.pop().ok_or_else(|| "pops an item from below".to_string())?;
                i += 1;
            }
            c @ 0x5f..=0x7f => {
                let k = (c - 0x5f) as usize;
                st.push(V::Lit(code.get(i + 1..i + 1 + k).ok_or_else(e)?.to_vec()));
                i += 1 + k;
            }
            c @ 0x80..=0x8f => {
                let k = (c - 0x7f) as usize;
                let v = st.get(n.checked_sub(k).ok_or_else(|| "duplicates an item from below".to_string())?).unwrap().clone();
                st.push(v);
                i += 1;
            }
            c @ 0x90..=0x9f => {
                let k = (c - 0x8f) as usize + 1;
                let j = n.checked_sub(k).ok_or_else(|| "swaps with an item below".to_string())?;
                st.swap(j, n - 1);
                i += 1;
            }
            _ => return Err(e()),
        }
    }
}

fn check_assembled(
    files: &[Vec<Flat>],
    code: &[u8],
    labels: &HashMap<String, usize>,
    inputs: &HashMap<usize, String>,
) -> Result<(), String> {
    let mut at = 0;
    let mut globals: HashMap<String, usize> = HashMap::new();
    let mut locals: Vec<HashMap<String, usize>> = vec![];
    let mut uses: Vec<(usize, String, usize)> = vec![];
    let mut ins: HashMap<usize, String> = HashMap::new();
    for (f, fl) in files.iter().enumerate() {
        locals.push(HashMap::new());
        let mine: BTreeSet<&String> = fl
            .iter()
            .filter_map(|x| match x {
                Flat::Label(l, false) => Some(l),
                _ => None,
            })
            .collect();
        for x in fl {
            let err = |w: &str| format!("{w} at {at}: expected {x:?}, got {}", hex::encode(&code[at.min(code.len())..code.len().min(at + 36)]));
            match x {
                Flat::Byte(b) => {
                    if code.get(at) != Some(b) {
                        return Err(err("byte"));
                    }
                    at += 1;
                }
                Flat::Lit(v) => {
                    let b = be(*v);
                    let mut w = vec![0x5f + b.len() as u8];
                    w.extend(b);
                    if code.get(at..at + w.len()) != Some(&w) {
                        return Err(err("push"));
                    }
                    at += w.len();
                }
                Flat::PushL(l) => {
                    if code.get(at) != Some(&0x62) || code.len() < at + 4 {
                        return Err(err("push of a label"));
                    }
                    uses.push((f, l.clone(), u24(&code[at + 1..at + 4])));
                    at += 4;
                }
                Flat::Table(l) => {
                    uses.push((f, l.clone(), u24(code.get(at..at + 3).ok_or_else(|| err("table"))?)));
                    at += 3;
                }
                Flat::Label(l, g) => {
                    if *g {
                        globals.insert(l.clone(), at);
                    } else {
                        locals[f].insert(l.clone(), at);
                    }
                }
                Flat::Input(p) => {
                    if code.get(at) != Some(&0xee) {
                        return Err(err("prover input"));
                    }
                    ins.insert(at, p.join("::"));
                    at += 1;
                }
                Flat::Stack(a, b) => {
                    // (global labels are checked below)
                    let know = |l: &str| if mine.contains(&l.to_string()) { None } else { labels.get(l).copied() };
                    let (n, found) = follow(&code[at.min(code.len())..], a, b, &know).map_err(|e| format!("{} ({e})", err("stack")))?;
                    uses.extend(found.into_iter().map(|(l, v)| (f, l, v)));
                    at += n;
                }
            }
        }
    }
    if at != code.len() {
        return Err(format!("{} bytes instead of {at}", code.len()));
    }
    for (f, l, v) in uses {
        let want = locals[f].get(&l).or(globals.get(&l)).copied().unwrap();
        if want != v {
            return Err(format!("label {l} of file {f} is at {want}, {v} is used"));
        }
    }
    if *labels != globals {
        return Err(format!("global labels {labels:?} for {globals:?}"));
    }
    let norm = |x: &String| x.split('"').skip(1).step_by(2).collect::<Vec<_>>().join("::");
    if inputs.iter().map(|(k, v)| (*k, norm(v))).collect::<HashMap<_, _>>() != ins {
        return Err(format!("prover inputs {inputs:?} for {ins:?}"));
    }
    Ok(())
}

// ---- generating them ----

fn lit(s: &mut Src) -> U256 {
    match s.below(3) {
        0 => s.below(4).into(),
        1 => s.word(),
        _ => U256::from(s.u64()) >> s.below(64),
    }
}

struct G {
    consts: HashMap<String, U256>,
    globals: Vec<String>,
    /// name, parameters
    macros: Vec<(String, usize)>,
}
const FEATS: &[&str] = &["red", "green", "blue"];

fn target(s: &mut Src, g: &G, locals: &[String], vars: &[String], mlabels: &[String]) -> T {
    match s.weighted(&[5, 3, 3, 2, if vars.is_empty() { 0 } else { 5 }, if mlabels.is_empty() { 0 } else { 4 }]) {
        1 if !g.globals.is_empty() => T::Label(s.pick(&g.globals)),
        2 if !locals.is_empty() => T::Label(s.pick(locals)),
        3 => T::Const(s.pick(&["C_0", "C_A", "C_big", "C_max"]).to_string()),
        4 => T::Var(s.pick(vars)),
        5 => T::MLabel(s.pick(mlabels)),
        _ => T::Lit(lit(s)),
    }
}

fn stack_item(s: &mut Src, mut tgt: impl FnMut(&mut Src) -> T) -> It {
    let mut src: Vec<(String, Option<usize>)> = vec![];
    let mut total = 0;
    let most = s.pick(&[3usize, 4, 5, 6]);
    for i in 0..s.below(6) {
        if total > most {
            break;
        }
        let k = if s.chance(1, 5) { Some(s.below(4)) } else { None };
        src.push((format!("x{i}"), k));
        total += k.unwrap_or(1);
    }
    let mut dst = vec![];
    let mut n = 0;
    let mut labels = 0;
    for _ in 0..s.below(7) {
        if !src.is_empty() && s.chance(2, 3) {
            let (name, k) = s.pick(&src);
            if n + k.unwrap_or(1) > 8 {
                break;
            }
            n += k.unwrap_or(1);
            dst.push(T::Label(name));
        } else {
            let t = tgt(s);
            if matches!(t, T::Label(_) | T::MLabel(_) | T::Var(_)) {
                labels += 1;
                if labels > 1 {
                    continue;
                }
            }
            if n + 1 > 8 {
                break;
            }
            n += 1;
            dst.push(t);
        }
    }
    It::Stack(src, dst)
}

#[allow(clippy::too_many_arguments)]
fn gen_items(s: &mut Src, g: &G, depth: usize, locals: &[String], vars: &[String], mlabels: &[String], inmacro: bool, callable: usize, n: usize) -> Vec<It> {
    let mut o = vec![];
    for _ in 0..n {
        o.push(match s.weighted(&[8, 8, 2, 2, 6, 2, 2, 2, 3]) {
            0 => It::Op(s.pick(OPS).to_string()),
            1 => It::Push(target(s, g, locals, vars, mlabels)),
            2 => It::Bytes(
                (0..s.range(1, 4))
                    .map(|_| match s.below(3) {
                        0 => T::Const(s.pick(&["C_0", "C_A"]).to_string()),
                        _ => T::Lit(s.u8().into()),
                    })
                    .collect(),
            ),
            3 => {
                let l: Vec<String> = g.globals.iter().chain(locals).cloned().collect();
                if l.is_empty() {
                    continue;
                }
                It::Table((0..s.range(1, 4)).map(|_| s.pick(&l)).collect())
            }
            4 if callable > 0 => {
                let (m, k) = g.macros[s.below(callable)].clone();
                It::Call(m, (0..k).map(|_| target(s, g, locals, vars, mlabels)).collect())
            }
            5 if depth > 0 => {
                // (a macro's own names don't reach into blocks)
                let n = s.range(0, 4);
                It::Rep(s.below(5), gen_items(s, g, depth - 1, locals, &[], &[], inmacro, callable, n))
            }
            6 if depth > 0 => {
                let n = s.range(0, 4);
                let k = s.below(4);
                let f = (0..s.range(1, 3)).map(|_| s.pick(FEATS).to_string()).collect();
                It::Cfg(k, f, gen_items(s, g, depth - 1, locals, &[], &[], inmacro, callable, n))
            }
            7 => It::Input((0..s.range(1, 3)).map(|i| format!("p{}", i + s.below(5))).collect()),
            8 => stack_item(s, |s| target(s, g, locals, vars, mlabels)),
            _ => It::Op(s.pick(OPS).to_string()),
        });
    }
    o
}

fn insert_at_random(s: &mut Src, v: &mut Vec<It>, x: It) {
    let i = s.below(v.len() + 1);
    v.insert(i, x);
}

fn collect_macros(is: &[It], feats: &[&str], m: &mut BTreeMap<(String, usize), (Vec<String>, Vec<It>)>) {
    for i in is {
        match i {
            It::Def(n, p, b) => {
                m.insert((n.clone(), p.len()), (p.clone(), b.clone()));
            }
            It::Cfg(k, f, b) if active(*k, f, feats) => collect_macros(b, feats, m),
            _ => {}
        }
    }
}

fn c18_assemble(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let nf = s.range(1, 3);
    let mut g = G {
        consts: [("C_0", U256::zero()), ("C_A", 0xau64.into()), ("C_big", U256::one() << 200), ("C_max", U256::MAX)].map(|(a, b)| (a.to_string(), b)).into(),
        globals: (0..s.below(5)).map(|i| format!("glob_{i}")).collect(),
        macros: vec![],
    };
    let feats: Vec<&str> = FEATS.iter().copied().filter(|_| s.bool()).collect();
    let nm = s.below(5);
    // names may be shared by macros with different numbers of parameters
    g.macros = (0..nm).map(|i| (format!("mac{}", i % 2), i / 2 + s.below(2) * 3)).collect();
    g.macros.dedup();
    let mut seen = BTreeSet::new();
    g.macros.retain(|x| seen.insert(x.clone()));
    let mut defs = vec![];
    for (i, (name, k)) in g.macros.clone().into_iter().enumerate() {
        let vars: Vec<String> = (0..k).map(|j| format!("v{j}")).collect();
        let mlabels: Vec<String> = (0..s.below(3)).map(|j| format!("l{j}")).collect();
        let n = s.range(0, 6);
        let mut body = gen_items(s, &g, 1, &[], &vars, &mlabels, true, i, n);
        for l in mlabels {
            insert_at_random(s, &mut body, It::MLocal(l));
        }
        defs.push(It::Def(name, vars, body));
    }
    let mut files: Vec<Vec<It>> = vec![];
    for _ in 0..nf {
        // local labels may hide global ones
        let mut locals: Vec<String> = (0..s.below(4)).map(|i| format!("loc{i}")).collect();
        if s.chance(1, 3) && !g.globals.is_empty() {
            locals.push(g.globals[0].clone());
        }
        let n = s.range(0, 14);
        let mut b = gen_items(s, &g, 2, &locals, &[], &[], false, g.macros.len(), n);
        for l in locals {
            insert_at_random(s, &mut b, It::Local(l));
        }
        files.push(b);
    }
    for l in &g.globals {
        let f = s.below(nf);
        insert_at_random(s, &mut files[f], It::Global(l.clone()));
    }
    for d in defs {
        let f = s.below(nf);
        let d = if s.chance(1, 4) {
            // (one that's there)
            match feats.first() {
                Some(x) => It::Cfg(s.below(2), vec![x.to_string()], vec![d]),
                None => It::Cfg(2, vec!["red".into()], vec![d]),
            }
        } else {
            d
        };
        insert_at_random(s, &mut files[f], d);
    }
    let mut macros = BTreeMap::new();
    for f in &files {
        collect_macros(f, &feats, &mut macros);
    }
    let mut x = Expand { macros: &macros, consts: &g.consts, feats: &feats, n: 0 };
    let mut flat = vec![];
    for f in &files {
        let mut o = vec![];
        x.go(f, None, &mut o);
        if o.len() > 3000 {
            return Ok(());
        }
        flat.push(o);
    }
    let text: Vec<String> = files.iter().map(|f| write(s, f)).collect();
    let what = text.join("\n---- next file ----\n");
    let (code, labels, inputs) = match guarded(|| assemble(&text, &feats, g.consts.clone(), false)) {
        Ok(x) => x,
        Err(p) => return fail("assemble-panic", format!("{p}\n{what}")),
    };
    if let Err(e) = check_assembled(&flat, &code, &labels, &inputs) {
        return fail(format!("assemble:{}", e.split(' ').next().unwrap()), format!("{e}\nfeatures {feats:?}\n{what}"));
    }
    let kinds = flat.iter().flatten().filter(|x| !matches!(x, Flat::Byte(_))).count();
    if kinds >= 3 {
        rec.nontrivial(&what);
    }
    rec.sample(what.chars().take(300).collect());
    Ok(())
}

/// A rearrangement, alone.
fn c18_stack(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let lits: Vec<T> = (0..s.range(1, 3)).map(|_| T::Lit(lit(s))).collect();
    let it = stack_item(s, |s| if s.chance(1, 4) { T::Label("here".into()) } else { s.pick(&lits) });
    let It::Stack(a, b) = &it else { unreachable!() };
    let text = vec![write(s, &[It::Local("here".into()), it.clone()])];
    let (src, dst) = stack_syms(a, b, |t| t.clone());
    let what = format!("{src:?} -> {dst:?}\n{}", text[0]);
    let run = |opt| guarded(|| assemble(&text, &[], HashMap::new(), opt).0);
    for opt in [false, true] {
        let code = match run(opt) {
            Ok(c) => c,
            Err(p) => return fail("stack-panic", format!("{p}\n{what}")),
        };
        match follow(&code, &src, &dst, &|_| Some(0)) {
            Ok((n, _)) if n == code.len() => {}
            Ok((n, _)) => {
                // (maybe it goes on and comes back)
                let mut d = dst.clone();
                d.push(Sym::Item("below".into()));
                return fail("stack-goes-on", format!("done after {n} bytes of {}\n{what}", hex::encode(&code)));
            }
            Err(e) => return fail("stack", format!("{e}; {}\n{what}", hex::encode(&code))),
        }
        // the same code whenever it's assembled
        if run(opt) != Ok(code.clone()) {
            return fail("not-deterministic", format!("two runs differ\n{what}"));
        }
    }
    if src.len() >= 2 && dst.len() >= 2 {
        rec.nontrivial(&format!("{src:?}{dst:?}"));
    }
    rec.sample(format!("{src:?} -> {dst:?}").chars().take(300).collect());
    Ok(())
}

// ---- running programs ----

fn pow(mut b: U256, mut e: U256) -> U256 {
    let mut r = U256::one();
    while !e.is_zero() {
        if e.bit(0) {
            r = r.overflowing_mul(b).0;
        }
        b = b.overflowing_mul(b).0;
        e = e >> 1;
    }
    r
}

#[derive(Debug, PartialEq)]
struct Out {
    stack: Vec<U256>,
    effects: Vec<(u8, Vec<U256>)>,
    halted: bool,
}

fn run(code: &[u8], stack: &[U256]) -> Result<Out, String> {
    let mut st = stack.to_vec();
    let mut o = Out { stack: vec![], effects: vec![], halted: false };
    let mut pc = 0;
    let mut steps = 0;
    let b = |x: bool| U256::from(x as u64);
    while pc < code.len() {
        steps += 1;
        if steps > 20_000 {
            return Err("runs on".into());
        }
        let c = code[pc];
        pc += 1;
        macro_rules! pop {
            () => {
                st.pop().ok_or("stack underflow")?
            };
        }
        match c {
            0x5f..=0x7f => {
                let n = (c - 0x5f) as usize;
                st.push(U256::from_big_endian(code.get(pc..pc + n).ok_or("cut off")?));
                pc += n;
            }
            0x80..=0x8f => {
                let k = st.len().checked_sub((c - 0x7f) as usize).ok_or("stack underflow")?;
                st.push(st[k]);
            }
            0x90..=0x9f => {
                let n = st.len();
                let k = n.checked_sub((c - 0x8f) as usize + 1).ok_or("stack underflow")?;
                st.swap(k, n - 1);
            }
            0x50 => {
                pop!();
            }
            0x5b => {}
            0x56 => pc = pop!().as_usize(),
            0x57 => {
                let (d, x) = (pop!(), pop!());
                if !x.is_zero() {
                    pc = d.as_usize();
                }
            }
            0x00 => {
                o.halted = true;
                break;
            }
            0x15 => {
                let x = pop!();
                st.push(b(x.is_zero()));
            }
            0x19 => {
                let x = pop!();
                st.push(!x);
            }
            0x01..=0x04 | 0x06 | 0x0a | 0x10 | 0x11 | 0x14 | 0x16..=0x18 | 0x1a..=0x1c => {
                let (x, y) = (pop!(), pop!());
                let small = x < 256.into();
                st.push(match c {
                    0x01 => x.overflowing_add(y).0,
                    0x02 => x.overflowing_mul(y).0,
                    0x03 => x.overflowing_sub(y).0,
                    0x04 if y.is_zero() => y,
                    0x04 => x / y,
                    0x06 if y.is_zero() => y,
                    0x06 => x % y,
                    0x0a => pow(x, y),
                    0x10 => b(x < y),
                    0x11 => b(x > y),
                    0x14 => b(x == y),
                    0x16 => x & y,
                    0x17 => x | y,
                    0x18 => x ^ y,
                    0x1a if x < 32.into() => (y >> (8 * (31 - x.as_usize()))) & 255.into(),
                    0x1b if small => y << x.as_usize(),
                    0x1c if small => y >> x.as_usize(),
                    _ => U256::zero(),
                });
            }
            _ => {
                // something with effects, and a result of its own
                let (i, n) = match c {
                    0xee | 0xf6 | 0x58 => (0, 1),
                    0xfb => (1, 1),
                    0xfc => (2, 0),
                    0x21 => (2, 1),
                    0x08 | 0x09 | 0x0f => (3, 1),
                    _ => (2, 1),
                };
                let mut a = vec![];
                for _ in 0..i {
                    a.push(pop!());
                }
                o.effects.push((c, a));
                if n == 1 {
                    let k = o.effects.len();
                    st.push(U256::from(7_000_000 + k));
                }
            }
        }
    }
    o.stack = st;
    Ok(o)
}

fn c18_optimize(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let mut is: Vec<It> = vec![];
    let mut todo: Vec<(String, usize)> = vec![];
    let mut label = 0;
    let op = |m: &str| It::Op(m.to_string());
    let vals: Vec<U256> = (0..s.range(1, 4)).map(|_| s.word()).collect();
    let value = |s: &mut Src| match s.below(4) {
        0 => s.pick(&vals),
        1 => U256::from(s.below(3)),
        2 => s.pick(&[31u64, 32, 30, 255, 256, 257, 1 << 40]).into(),
        _ => s.word(),
    };
    const BIN: &[&str] = &["ADD", "MUL", "SUB", "DIV", "MOD", "EXP", "LT", "GT", "EQ", "AND", "OR", "XOR", "BYTE", "SHL", "SHR"];
    for _ in 0..s.range(1, 24) {
        todo.iter_mut().for_each(|x| x.1 = x.1.saturating_sub(1));
        while let Some(i) = todo.iter().position(|x| x.1 == 0) {
            let (l, _) = todo.remove(i);
            is.push(if s.bool() { It::Local(l) } else { It::Global(l) });
            if s.bool() {
                is.push(op("JUMPDEST"));
            }
        }
        match s.weighted(&[8, 6, 5, 3, 2, 3, 3, 3, 2, 2]) {
            0 => is.push(It::Push(T::Lit(value(s)))),
            1 => is.push(op(s.pick(BIN))),
            2 => is.push(op(s.pick(&["NOT", "ISZERO", "SWAP1", "POP", "DUP1", "DUP2", "SWAP2", "DUP16", "SWAP16", "DUP10", "JUMPDEST"]))),
            3 => {
                is.push(It::Push(T::Lit(value(s))));
                is.push(It::Push(T::Lit(value(s))));
                is.push(op(s.pick(BIN)));
            }
            4 => {
                is.push(op(s.pick(&["SWAP1", "SWAP1", "SWAP2"])));
                is.push(op(s.pick(BIN)));
            }
            5 => {
                // not a, not b, and
                for i in 0..2 {
                    is.push(if s.bool() { It::Push(T::Lit(value(s))) } else { op(s.pick(&["DUP1", "DUP1", "DUP2", "DUP3", "DUP7"])) });
                    if i == 0 || s.chance(7, 8) {
                        is.push(op("NOT"));
                    }
                }
                is.push(op(s.pick(&["AND", "OR", "AND", "XOR"])));
            }
            6 | 7 => {
                label += 1;
                let l = format!("lab{label}");
                let t = It::Push(T::Label(l.clone()));
                let c = It::Push(T::Lit(value(s)));
                match s.below(6) {
                    0 | 1 => is.extend([t, op("JUMP")]),
                    2 => is.extend([c, t, op("JUMPI")]),
                    3 => is.extend([t, c, op("SWAP1"), op("JUMP")]),
                    4 => is.extend([op("DUP1"), t, op("JUMPI")]),
                    _ => is.extend([t, op("POP")]),
                }
                todo.push((l, s.range(0, 4)));
                // right here
                if s.bool() {
                    todo.last_mut().unwrap().1 = 1;
                }
            }
            8 => is.push(op(s.pick(&["MLOAD_GENERAL", "MSTORE_GENERAL", "GET_CONTEXT", "KECCAK_GENERAL", "ADDMOD", "SUBMOD", "MULMOD"]))),
            _ => {
                if s.bool() {
                    is.push(It::Input(vec!["p".into()]))
                } else {
                    is.push(op("STOP"))
                }
            }
        }
    }
    for (l, _) in todo {
        is.push(It::Local(l));
    }
    let text = vec![write(s, &is)];
    let stack: Vec<U256> = (0..90).map(|i| if i % 3 == 0 { value(s) } else { U256::from(1_000_000 + i) }).collect();
    let asm = |opt| guarded(|| assemble(&text, &[], HashMap::new(), opt).0);
    let what = || text[0].clone();
    let a = match asm(false) {
        Ok(c) => c,
        Err(p) => return fail("assemble-panic", format!("{p}\n{}", what())),
    };
    let b = match asm(true) {
        Ok(c) => c,
        Err(p) => return fail("optimize-panic", format!("{p}\n{}", what())),
    };
    let (x, y) = match (run(&a, &stack), run(&b, &stack)) {
        (Ok(x), y) => (x, y),
        (Err(_), _) => return Ok(()),
    };
    if y.as_ref() != Ok(&x) {
        // Is it what's known? Then a JUMPDEST behind every `DUP1` within a
        // negation of two makes it go away, and none elsewhere is needed.
        let mut other = vec![];
        let mut suspects = 0;
        let is_op = |i: &It, m: &str| matches!(i, It::Op(x) if x == m);
        for (j, i) in is.iter().enumerate() {
            other.push(i.clone());
            let around = |r: std::ops::Range<usize>, ms: &[&str]| is[r.start.min(is.len())..r.end.min(is.len())].iter().any(|i| ms.iter().any(|m| is_op(i, m)));
            if is_op(i, "DUP1") && around(j.saturating_sub(8)..j, &["NOT"]) && around(j + 1..j + 9, &["NOT"]) && around(j + 2..j + 12, &["AND", "OR"]) {
                suspects += 1;
                other.push(op("JUMPDEST"));
            }
        }
        let text = vec![write(&mut Src::new(&[]), &other)];
        let gone = suspects > 0
            && guarded(|| assemble(&text, &[], HashMap::new(), true).0).is_ok_and(|c| run(&c, &stack).as_ref() == Ok(&x));
        return fail(
            if gone { "optimizer:de-morgan-dup1" } else { "optimizer" },
            format!("computes {y:?}\n    instead of {x:?}\n    {} optimized to {}\n{}", hex::encode(&a), hex::encode(&b), what()),
        );
    }
    if a != b {
        rec.nontrivial(&a);
    }
    rec.sample(format!("{} to {}", hex::encode(&a), hex::encode(&b)).chars().take(300).collect());
    Ok(())
}

/// The kernel itself: the same whenever it's assembled.
fn c18_kernel(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let _ = s.raw();
    let (c1, l1) = kernel_code_fresh();
    let (c2, l2) = kernel_code_fresh();
    if c1 != c2 || l1 != l2 || l1 != *kernel_labels() {
        return fail("kernel-differs", "assembling the kernel again gives other code");
    }
    if evm_constants() != evm_constants() || c1.len() >= 1 << 24 {
        return fail("kernel-size", "offsets don't fit");
    }
    rec.nontrivial(&c1);
    rec.sample(format!("{} bytes, {} labels", c1.len(), l1.len()));
    Ok(())
}

pub fn c18() -> Check {
    Check {
        property: "C18",
        level: "exploration",
        assumptions: vec![
            "for %stack any code is right that uses only push, dup, swap and pop and has the declared effect".into(),
            "a macro's parameters and labels aren't used inside blocks (%rep, cfg) within the macro: the assembler doesn't support that, and refuses it".into(),
        ],
        facets: vec![
            Facet::new("assemble", "random programs of up to three files (macros, labels, constants, blocks, tables, rearrangements) in random layout, unoptimized, byte by byte against an expansion of our own; non-trivial = at least three items other than plain opcodes", 12_000, 800_000, 700, c18_assemble),
            Facet::new("stack", "random rearrangements, assembled with and without optimizer, twice each, and followed symbolically; non-trivial = at least two items on both sides", 12_000, 800_000, 60, c18_stack),
            Facet::new("optimize", "random programs rich in what the optimizer looks for, run with and without it on the same stack; non-trivial = the optimizer changed them", 300_000, 6_000_000, 250, c18_optimize),
            Facet::new("kernel", "the kernel's own sources, assembled twice more", 1, 3, 4, c18_kernel).serial(),
        ],
    }
}
