//! C08 and C09: the constraint system accepts the traces of honest runs, and
//! binds what they compute.
use std::collections::{BTreeMap, HashMap};

use ethereum_types::{U256, U512};
use evm_arithmetization::generation::generate_traces;
use evm_arithmetization::verif_hooks as vh;
use evm_arithmetization::{SegmentDataIterator, StarkConfig};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;

use super::seg::{all_stark, made};
use super::tables::*;
use crate::fw::{fail, guarded, CaseResult, Check, Facet, Rec, Src};
use crate::refevm::block::F;

pub struct Seg {
    pub tables: Vec<Table>,
    pub in_use: Vec<bool>,
    pub extra: Vec<Vec<F>>,
    pub d: String,
    pub key: (usize, usize, ethereum_types::H256),
}

/// The trace of a random segment of a random run.
fn segment(s: &mut Src, rec: &mut Rec, limit: u64) -> Result<Option<Seg>, crate::fw::Fail> {
    let log = s.weighted(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 2, 1]);
    let Some((_, _, inp, d, _)) = made(s, rec, limit) else { return Ok(None) };
    let d = format!("2^{log} {d}");
    // the last segments of a run are as likely as the first ones
    let want = if s.chance(1, 5) { 48 } else { s.below(14) };
    let config = StarkConfig::standard_fast_config();
    let (mut i, mut last) = (0, false);
    let r = guarded(|| {
        let mut it = SegmentDataIterator::<F>::new(&inp, Some(log));
        let mut got = it.next().unwrap().map_err(|e| e.inner.to_string())?;
        while i < want {
            let Some(x) = it.next() else {
                last = true;
                break;
            };
            got = x.map_err(|e| e.inner.to_string())?;
            i += 1;
        }
        let (trimmed, seg) = got;
        let mut data = seg.clone();
        generate_traces(all_stark(), &trimmed, &config, &mut data, &mut TimingTree::default()).map_err(|e| e.to_string())
    });
    let t = match r {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return fail("no-trace", format!("segment {i}: {e}\n    {d}")),
        Err(p) => return fail("no-trace", format!("segment {i}: panic {p}\n    {d}")),
    };
    rec.label(format!("2^{log}"));
    rec.label(if i == 0 { "first segment" } else if last { "last segment" } else { "inner segment" });
    Ok(Some(Seg {
        extra: vh::memory_extra_looking_values::<F, 2>(&t.public_values),
        in_use: t.table_in_use.to_vec(),
        tables: t.tables.into_iter().collect(),
        d: format!("segment {i}: {d}"),
        key: (log, i, inp.trie_roots_after.state_root),
    }))
}

/// A change that isn't refused; with `ZKVP_COLLECT`, printed only.
fn report(sig: impl Into<String>, msg: impl Into<String>) -> CaseResult {
    let (sig, msg) = (sig.into(), msg.into());
    if std::env::var("ZKVP_COLLECT").is_ok() {
        eprintln!("COLLECT {sig} | {}", msg.replace('\n', " "));
        return Ok(());
    }
    fail(sig, msg)
}

pub fn bn() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
}

fn low(x: U512) -> U256 {
    x.try_into().unwrap()
}

/// The result of an arithmetic or logic operation; `None` for other opcodes.
pub fn reference(op: u8, a: U256, b: U256, c: U256) -> Option<U256> {
    let (wa, wb) = (U512::from(a), U512::from(b));
    let modulo = |x: U512, m: U256| if m.is_zero() { U256::zero() } else { low(x % U512::from(m)) };
    let sub = |m: U256| if m.is_zero() { U256::zero() } else { modulo(U512::from(a % m) + U512::from(m) - U512::from(b % m), m) };
    let bit = |x: bool| U256::from(x as u8);
    Some(match op {
        0x01 => a.overflowing_add(b).0,
        0x02 => a.overflowing_mul(b).0,
        0x03 => a.overflowing_sub(b).0,
        0x04 => a.checked_div(b).unwrap_or_default(),
        0x06 => a.checked_rem(b).unwrap_or_default(),
        0x08 => modulo(wa + wb, c),
        0x09 => modulo(wa * wb, c),
        0x0c => modulo(wa + wb, bn()),
        0x0d => modulo(wa * wb, bn()),
        0x0e => sub(bn()),
        0x0f => sub(c),
        0x10 => bit(a < b),
        0x11 => bit(a > b),
        0x16 => a & b,
        0x17 => a | b,
        0x18 => a ^ b,
        0x1a => {
            if a < 32.into() {
                U256::from(b.byte(31 - a.as_usize()))
            } else {
                U256::zero()
            }
        }
        0x1b => {
            if a < 256.into() {
                b << a.as_usize()
            } else {
                U256::zero()
            }
        }
        0x1c => {
            if a < 256.into() {
                b >> a.as_usize()
            } else {
                U256::zero()
            }
        }
        _ => return None,
    })
}

pub struct Cpu(HashMap<String, Vec<usize>>);

impl Cpu {
    fn new() -> Self {
        Cpu(vh::cpu_columns().into_iter().collect())
    }
    fn one(&self, n: &str) -> usize {
        self.0[n][0]
    }
    fn many(&self, n: &str) -> &[usize] {
        &self.0[n]
    }
    fn ops(&self) -> Vec<(String, usize)> {
        let mut v: Vec<_> = self.0.iter().filter(|x| x.0.starts_with("op ")).map(|x| (x.0[3..].to_string(), x.1[0])).collect();
        v.sort();
        v
    }
}

fn cpu() -> &'static Cpu {
    static C: std::sync::OnceLock<Cpu> = std::sync::OnceLock::new();
    C.get_or_init(Cpu::new)
}

fn val(t: &Table, c: usize, r: usize) -> u64 {
    t[c].values[r].to_canonical_u64()
}

fn limbs(t: &Table, cols: &[usize], r: usize) -> Option<U256> {
    word(&cols.iter().map(|c| t[*c].values[r]).collect::<Vec<_>>())
}

fn opcode(t: &Table, r: usize) -> u8 {
    cpu().many("opcode_bits").iter().enumerate().map(|(i, c)| (val(t, *c, r) as u8) << i).sum()
}

/// The operation flag that is set in a CPU row.
fn flag(t: &Table, ops: &[(String, usize)], r: usize) -> Option<usize> {
    ops.iter().position(|x| val(t, x.1, r) == 1)
}

// ---- C08 ----

/// The results in a trace against the meaning of its operations.
fn meaning(g: &Seg, rec: &mut Rec) -> CaseResult {
    let t = &g.tables[CPU];
    let n = t[0].values.len();
    let c = cpu();
    let ops = c.ops();
    let (a, b, m) = (c.many("channel 0 value"), c.many("channel 1 value"), c.many("channel 2 value"));
    let mut seen = std::collections::BTreeSet::new();
    for r in 0..n - 1 {
        let Some(f) = flag(t, &ops, r) else { continue };
        let name = ops[f].0.as_str();
        let o = opcode(t, r);
        seen.insert((name, if name == "push_prover_input" && o < 0x80 || name == "dup_swap" { o & 0xf0 } else { o }));
        let x = |cols: &[usize], r| match limbs(t, cols, r) {
            Some(x) => Ok(x),
            None => fail(format!("limbs:{name}"), format!("row {r}: {name} {o:#x} has a limb out of range\n    {}", g.d)),
        };
        let want = match name {
            "binary_op" | "ternary_op" | "fp254_op" | "logic_op" | "shift" => reference(o, x(a, r)?, x(b, r)?, if name == "ternary_op" { x(m, r)? } else { U256::zero() }),
            "eq_iszero" if o == 0x14 => Some(U256::from((x(a, r)? == x(b, r)?) as u8)),
            "eq_iszero" => Some(U256::from(x(a, r)?.is_zero() as u8)),
            "not_pop" if o == 0x19 => Some(!x(a, r)?),
            "pc_push0" if o == 0x58 => Some(val(t, c.one("program_counter"), r).into()),
            "pc_push0" => Some(U256::zero()),
            _ => continue,
        };
        let got = x(a, r + 1)?;
        if want != Some(got) {
            return fail(format!("result:{name}:{o:#x}"), format!("row {r}: {name} {o:#x} of {:?} gives {got:#x}, not {want:x?}\n    {}", [x(a, r)?, x(b, r)?, x(m, r)?], g.d));
        }
    }
    for (n, o) in seen {
        rec.label(format!("{n} {o:#x}"));
    }
    // hashes and packings against the memory table
    let mut mem: HashMap<(u64, u64, u64), Vec<(u64, u64)>> = HashMap::new();
    for (_, v) in looked(CTL_MEMORY, &g.tables) {
        let v: Vec<u64> = v.iter().map(|x| x.to_canonical_u64()).collect();
        mem.entry((v[1], v[2], v[3])).or_default().push((v[12], v[4]));
    }
    let get = |c: u64, s: u64, a: u64, ts: u64| mem.get(&(c, s, a)).and_then(|l| l.iter().filter(|x| x.0 <= ts).max_by_key(|x| x.0)).map(|x| x.1);
    let u = |v: &[F]| v.iter().map(|x| x.to_canonical_u64()).collect::<Vec<_>>();
    if g.in_use[SPONGE] {
        for (r, v) in looked(CTL_SPONGE, &g.tables) {
            let (k, out) = (u(&v[..5]), word(&v[5..13]));
            let bytes: Option<Vec<u8>> = (0..k[3]).map(|i| get(k[0], k[1], k[2] + i, k[4]).map(|x| x as u8)).collect();
            let Some(bytes) = bytes else { return fail("hash-input", format!("sponge row {r}: {k:?}\n    {}", g.d)) };
            let want = U256::from_big_endian(&keccak_hash::keccak(&bytes).0);
            if out != Some(want) {
                return fail("hash", format!("sponge row {r}: {k:?} {bytes:02x?}: {out:x?}, not {want:x}\n    {}", g.d));
            }
            rec.evals += 1;
        }
        rec.label("hashes");
    }
    if g.in_use[BYTE_PACKING] {
        for (r, v) in looked(1, &g.tables) {
            let (k, out) = (u(&v[..6]), word(&v[6..14]));
            let mut want = U256::zero();
            for i in 0..k[4] {
                let Some(x) = get(k[1], k[2], k[3] + i, k[5]) else { return fail("packing-input", format!("packing row {r}: {k:?}\n    {}", g.d)) };
                want = (want << 8) | x.into();
            }
            if out != Some(want) {
                return fail("packing", format!("packing row {r}: {k:?}: {out:x?}, not {want:x}\n    {}", g.d));
            }
        }
    }
    Ok(())
}

fn c08_segments(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let Some(g) = segment(s, rec, 1500)? else { return Ok(()) };
    for (t, used) in g.in_use.iter().enumerate() {
        if !used {
            rec.label(format!("without {}", NAMES[t]));
        }
    }
    match check_all(&g.tables, &g.in_use, &g.extra) {
        Ok(n) => rec.evals += n,
        Err(e) => {
            let sig: String = e.chars().take_while(|c| *c != ':').collect();
            return fail(format!("refused:{sig}"), format!("{e}\n    {}", g.d));
        }
    }
    meaning(&g, rec)?;
    rec.nontrivial(&g.key);
    rec.sample(g.d);
    Ok(())
}

const OPS: [u8; 16] = [0x01, 0x02, 0x03, 0x04, 0x06, 0x08, 0x09, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x1a, 0x1b, 0x1c];

/// An operand: boundary values, values with few limbs, related values.
fn operand(s: &mut Src, prev: &[U256]) -> U256 {
    let x = match s.below(8) {
        0 => U256::from(s.u64()) << s.below(250),
        1 => (U256::one() << s.below(256)).overflowing_sub(U256::one()).0,
        2 => U256::one() << s.below(256),
        3 => bn().overflowing_add(U256::from(s.below(5))).0 - 2,
        4 => U256::MAX - s.below(4),
        5 => s.below(300).into(),
        6 => {
            // limbs at their bounds
            let mut x = U256::zero();
            for _ in 0..16 {
                x = (x << 16) | U256::from(s.pick(&[0u32, 0, 1, 0xffff, 0xffff, 0x8000, 0xfffe]));
            }
            x
        }
        _ => s.word(),
    };
    if !prev.is_empty() && s.chance(1, 4) {
        let p = s.pick(prev);
        return match s.below(5) {
            0 => p,
            1 => p.overflowing_add(U256::one()).0,
            2 => p.overflowing_sub(U256::one()).0,
            3 => !p,
            _ => p.overflowing_add(x).0,
        };
    }
    x
}

fn operations(s: &mut Src, n: usize) -> Vec<(u8, [U256; 3])> {
    (0..n)
        .map(|_| {
            let o = if s.chance(1, 12) { s.pick(&[0xee, 0x49, 0x00, 0x01, 0x05]) } else { s.pick(&OPS) };
            let mut v = vec![];
            for _ in 0..3 {
                let x = operand(s, &v);
                v.push(x);
            }
            if matches!(o, 0x1a..=0x1c) && s.chance(3, 4) {
                v[0] = s.below(if o == 0x1a { 34 } else { 270 }).into();
            }
            // subtraction is only used on reduced operands
            let m = if o == 0x0e { bn() } else { v[2] };
            if matches!(o, 0x0e | 0x0f) && !m.is_zero() {
                (v[0], v[1]) = (v[0] % m, v[1] % m);
            }
            (o, [v[0], v[1], v[2]])
        })
        .collect()
}

/// One range check opcode can be any; those of `operations` are marked as 0 here.
fn is_op(o: u8) -> bool {
    OPS.contains(&o)
}

fn alone(t: usize, tab: Table) -> (Vec<Table>, Vec<bool>) {
    let mut v = vec![vec![]; 9];
    let mut u = vec![false; 9];
    v[t] = tab;
    u[t] = true;
    (v, u)
}

/// The constraints and lookups of a single table.
fn check_one(t: usize, tab: &Table, d: &str) -> CaseResult {
    let (v, u) = alone(t, tab.clone());
    match check_single(t, &v[t], &u) {
        Ok(()) => Ok(()),
        Err(e) => {
            let sig: String = e.chars().take_while(|c| *c != ':').collect();
            fail(format!("refused:{}:{sig}", NAMES[t]), format!("{e}\n    {d}"))
        }
    }
}

fn c08_operations(s: &mut Src, rec: &mut Rec) -> CaseResult {
    // arithmetic
    let n = s.range(20, 300);
    let ops = operations(s, n);
    let d = || format!("{ops:x?}");
    let tab = match guarded(|| vh::arithmetic_trace(all_stark(), &ops)) {
        Ok(t) => t,
        Err(p) => return fail("arithmetic-trace", format!("panic {p}\n    {}", d())),
    };
    check_one(ARITHMETIC, &tab, &d())?;
    let rows = side(&sys().ctls[CTL_ARITHMETIC].looked, &tab);
    if rows.len() != ops.len() {
        return fail("arithmetic-rows", format!("{} rows for {}\n    {}", rows.len(), ops.len(), d()));
    }
    for ((o, x), (r, v)) in ops.iter().zip(&rows) {
        let w = |i: usize| word(&v[1 + 8 * i..9 + 8 * i]);
        let want = if is_op(*o) && *o != 0x01 { reference(*o, x[0], x[1], x[2]) } else { None };
        if v[0] != F::from_canonical_u8(*o) || w(0) != Some(x[0]) || w(1) != Some(x[1]) {
            return fail(format!("arithmetic-inputs:{o:#x}"), format!("row {r}: {v:?} for {o:#x} {x:x?}"));
        }
        if *o == 0x01 {
            // an addition, or a range check with that opcode
            if w(3) != reference(1, x[0], x[1], x[2]) && w(3) != Some(x[0]) {
                return fail("arithmetic-result:0x1", format!("row {r}: {x:x?} gives {:x?}", w(3)));
            }
        } else if want.is_some() && w(3) != want {
            return fail(format!("arithmetic-result:{o:#x}"), format!("row {r}: {x:x?} gives {:x?}, not {want:x?}", w(3)));
        }
        rec.label(format!("arithmetic {o:#x}"));
    }
    // logic
    let n = s.range(1, 60);
    let ops: Vec<(u8, U256, U256)> = (0..n)
        .map(|_| {
            let a = operand(s, &[]);
            (s.pick(&[0x16, 0x17, 0x18]), a, operand(s, &[a]))
        })
        .collect();
    let tab = vh::logic_trace(all_stark(), &ops);
    check_one(LOGIC, &tab, &format!("{ops:x?}"))?;
    for ((o, a, b), (r, v)) in ops.iter().zip(side(&sys().ctls[CTL_LOGIC].looked, &tab)) {
        let w = |i: usize| word(&v[1 + 8 * i..9 + 8 * i]);
        if v[0] != F::from_canonical_u8(*o) || w(0) != Some(*a) || w(1) != Some(*b) || w(2) != reference(*o, *a, *b, U256::zero()) {
            return fail(format!("logic-result:{o:#x}"), format!("row {r}: {v:?} for {o:#x} {a:x} {b:x}"));
        }
    }
    // byte packing
    let n = s.range(1, 60);
    let ops: Vec<(bool, usize, usize, usize, Vec<u8>)> = (0..n)
        .map(|i| {
            let len = if s.chance(1, 4) { s.pick(&[1, 31, 32]) } else { s.range(1, 32) };
            (s.bool(), s.below(9), s.below(1 << 20), i * 5 + 1, (0..len).map(|_| s.pick(&[0, 1, 0x80, 0xff, 0x5a])).collect())
        })
        .collect();
    let tab = vh::byte_packing_trace(all_stark(), &ops);
    check_one(BYTE_PACKING, &tab, &format!("{ops:x?}"))?;
    for ((rd, ctx, virt, ts, b), (r, v)) in ops.iter().zip(side(&sys().ctls[1].looked, &tab)) {
        let k: Vec<u64> = v[..6].iter().map(|x| x.to_canonical_u64()).collect();
        if k != [*rd as u64, *ctx as u64, 2, *virt as u64, b.len() as u64, *ts as u64] || word(&v[6..14]) != Some(U256::from_big_endian(b)) {
            return fail("packing-result", format!("row {r}: {v:?} for {b:02x?}"));
        }
    }
    // Keccak
    let n = s.range(1, 3);
    let ops: Vec<([u64; 25], usize)> = (0..n).map(|i| (permutation(s), i * 7 + 1)).collect();
    let tab = vh::keccak_trace(all_stark(), &ops);
    check_one(KECCAK, &tab, &format!("{ops:x?}"))?;
    for ((x, ts), (r, v)) in ops.iter().zip(side(&sys().ctls[CTL_KECCAK_OUT].looked, &tab)) {
        let mut st = *x;
        tiny_keccak::keccakf(&mut st);
        let want: Vec<u64> = st.iter().flat_map(|x| [x & 0xffff_ffff, x >> 32]).chain([*ts as u64]).collect();
        let got: Vec<u64> = v.iter().map(|x| x.to_canonical_u64()).collect();
        if got != want {
            return fail("keccak-result", format!("row {r}: {got:x?}, not {want:x?} for {x:x?}"));
        }
    }
    rec.evals += 500;
    rec.nontrivial(&ops.iter().map(|x| x.0).collect::<Vec<_>>());
    Ok(())
}

fn permutation(s: &mut Src) -> [u64; 25] {
    let sparse = s.bool();
    std::array::from_fn(|_| if sparse && s.chance(2, 3) { s.pick(&[0, 0, 1, u64::MAX, 1 << 63]) } else { s.u64() })
}

// ---- C09 ----

/// Another value for a cell.
fn other(s: &mut Src, t: &Table, c: usize, r: usize) -> Option<F> {
    let old = t[c].values[r];
    let n = t[c].values.len();
    let new = match s.below(8) {
        0 | 1 => old + F::ONE,
        2 => old - F::ONE,
        3 => F::ZERO,
        4 => F::ONE,
        5 => t[c].values[s.below(n)],
        6 => old + F::from_canonical_u64(1 << s.below(32)),
        _ => F::from_noncanonical_u64(s.u64()),
    };
    (new != old).then_some(new)
}

/// What refuses the step from a row when the row after it is changed, with no
/// regard to what that row itself is bound to.
fn step(t: usize, tab: &Table, r: usize, next: &[F]) -> bool {
    let n = tab[0].values.len();
    let a = row(tab, r);
    let b0 = row(tab, r + 1);
    if !holds(t, &a, next, r, n) {
        return true;
    }
    for c in &sys().ctls {
        for side in c.looking.iter().chain([&c.looked]) {
            if side.table == t {
                let x = |b: &[F]| {
                    let at = |c: usize, nx: bool| if nx { b[c] } else { a[c] };
                    let f = side.filter.eval(&at);
                    (f, if f.is_nonzero() { side.cols.iter().map(|c| c.eval(&at)).collect::<Vec<_>>() } else { vec![] })
                };
                if x(&b0) != x(next) {
                    return true;
                }
            }
        }
    }
    false
}

/// Operations that leave any word on the stack: prover inputs by design, pushes
/// in kernel mode as a known finding (`kernel-push`).
fn free_top(name: &str, o: u8, kernel: bool) -> bool {
    name == "push_prover_input" && (o == 0xee || kernel)
}

/// The operand of a PUSH in kernel mode.
fn c09_kernel_push(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let Some(g) = segment(s, rec, 1500)? else { return Ok(()) };
    let (t, c) = (&g.tables[CPU], cpu());
    let push = c.one("op push_prover_input");
    let rows: Vec<usize> = (1..t[0].values.len() - 1).filter(|r| val(t, push, *r) == 1 && opcode(t, *r) != 0xee && val(t, c.one("is_kernel_mode"), *r) == 1).collect();
    rec.nontrivial(&g.key);
    for _ in 0..20 {
        let r = s.pick(&rows);
        let col = s.pick(c.many("channel 0 value"));
        let Some(x) = other(s, t, col, r + 1) else { continue };
        let mut next = row(t, r + 1);
        next[col] = x;
        rec.evals += 1;
        if !step(CPU, t, r, &next) {
            return fail("cpu:kernel-push:operand", format!("row {r}: the operand of a PUSH in kernel mode can be changed: {:?}\n    {}", nonzero(&next), g.d));
        }
    }
    Ok(())
}

fn c09_cpu(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let Some(g) = segment(s, rec, 1500)? else { return Ok(()) };
    let t = &g.tables[CPU];
    let n = t[0].values.len();
    let c = cpu();
    let ops = c.ops();
    // rows by kind
    let mut kinds: BTreeMap<(usize, u8, bool), Vec<usize>> = BTreeMap::new();
    for r in 1..n - 1 {
        if let Some(f) = flag(t, &ops, r) {
            let o = opcode(t, r);
            kinds.entry((f, o, val(t, c.one("is_kernel_mode"), r) == 1)).or_default().push(r);
        }
    }
    let keys: Vec<_> = kinds.keys().copied().collect();
    for _ in 0..400 {
        let k = s.pick(&keys);
        let r = s.pick(&kinds[&k]);
        let (name, o) = (ops[k.0].0.as_str(), k.1);
        let what;
        let refused;
        match s.below(10) {
            // the state after the operation
            0..=4 => {
                let mut cells: Vec<(String, usize)> = ["program_counter", "stack_len", "is_kernel_mode", "gas", "context", "clock", "channel 0 used"].iter().map(|x| (x.to_string(), c.one(x))).collect();
                let top = val(t, c.one("channel 0 used"), r + 1) == 0 && val(t, c.one("stack_len"), r + 1) > 0;
                if top && !free_top(name, o, k.2) {
                    for i in 0..8 {
                        cells.push((format!("top {i}"), c.many("channel 0 value")[i]));
                    }
                }
                if val(t, c.one("channel 0 used"), r + 1) == 1 {
                    for i in 0..3 {
                        cells.push((format!("address {i}"), c.many("channel 0 address")[i]));
                    }
                    cells.push(("channel 0 is_read".into(), c.one("channel 0 is_read")));
                }
                let (w, col) = s.pick(&cells);
                let Some(x) = other(s, t, col, r + 1) else { continue };
                what = format!("next {w} := {x} (was {})", t[col].values[r + 1]);
                let mut next = row(t, r + 1);
                next[col] = x;
                refused = step(CPU, t, r, &next);
                rec.label(format!("{name} next {}", w.trim_end_matches(char::is_numeric)));
            }
            // a memory operation of the row
            5..=7 => {
                let ch = s.pick(&["channel 1", "channel 2", "partial"]);
                let used = c.one(&format!("{ch} used"));
                let mut new = row(t, r);
                if val(t, used, r) == 0 {
                    new[used] = F::ONE;
                    what = format!("{ch} used");
                } else {
                    let mut cells: Vec<usize> = c.many(&format!("{ch} address")).to_vec();
                    let rd = c.one(&format!("{ch} is_read"));
                    cells.push(rd);
                    cells.push(used);
                    if val(t, rd, r) == 0 && ch != "partial" {
                        cells.extend(c.many(&format!("{ch} value")));
                    }
                    let col = s.pick(&cells);
                    let Some(x) = other(s, t, col, r) else { continue };
                    new[col] = x;
                    what = format!("{ch} column {col} := {x} (was {})", t[col].values[r]);
                }
                let x = refusal(CPU, t, &[(r, new)]);
                refused = x.local || x.ctls.iter().any(|k| *k != CTL_MEMORY);
                rec.label(format!("{name} {ch}"));
            }
            // the operation itself
            _ => {
                let mut new = row(t, r);
                if s.bool() {
                    let b = s.pick(c.many("opcode_bits"));
                    new[b] = F::ONE - new[b];
                    what = "opcode bit".to_string();
                } else {
                    let f = s.pick(&ops).1;
                    if f == ops[k.0].1 {
                        continue;
                    }
                    if s.bool() {
                        new[ops[k.0].1] = F::ZERO;
                    }
                    new[f] = F::ONE;
                    what = format!("flag {f}");
                }
                let x = refusal(CPU, t, &[(r, new)]);
                refused = x.local || !x.ctls.is_empty();
                rec.label(format!("{name} {}", &what[..4]));
            }
        }
        rec.evals += 1;
        if !refused {
            let w: String = what.chars().take_while(|c| *c != ':').collect();
            report(
                format!("cpu:{name}:{o:#x}:{}", w.trim()),
                format!("row {r}: {name} {o:#x} ({}): {what} is not refused\n    {:?}\n    then {:?}\n    {}", if k.2 { "kernel" } else { "user" }, nonzero(&row(t, r)), nonzero(&row(t, r + 1)), g.d),
            )?;
        }
    }
    rec.nontrivial(&g.key);
    rec.sample(g.d);
    Ok(())
}

/// Segments whose words needn't be written before they are read.
const PREINITIALIZED: [&str; 4] = ["SEGMENT_CODE", "SEGMENT_TRIE_DATA", "SEGMENT_ACCOUNTS_LINKED_LIST", "SEGMENT_STORAGE_LINKED_LIST"];

fn c09_memory(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let Some(g) = segment(s, rec, 1500)? else { return Ok(()) };
    let t = &g.tables[MEMORY];
    let n = t[0].values.len();
    let cols: HashMap<String, Vec<usize>> = vh::memory_columns().into_iter().collect();
    let one = |x: &str| cols[x][0];
    let pre: Vec<u64> = PREINITIALIZED.iter().map(|x| (vh::evm_constants()[*x] >> 32).as_u64()).collect();
    let addr = |r: usize| [0, 1, 2].map(|i| val(t, cols["address"][i], r));
    let ts = |r: usize| val(t, one("timestamp"), r);
    let real: Vec<usize> = (1..n - 2).filter(|r| val(t, one("filter"), *r) == 1).collect();
    let inv_pre = inverse_column(t, cols["preinitialized"][0]);
    // rows by the segment they are in, so that all get their share
    let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for r in &real {
        by.entry(addr(*r)[1]).or_default().push(*r);
    }
    let keys: Vec<u64> = by.keys().copied().collect();
    // the flags and the range check that belong to the step from `a` to `b`
    let flags = |a: &mut Vec<F>, b: &[F]| {
        let ad = &cols["address"];
        let i = (0..3).find(|i| a[ad[*i]] != b[ad[*i]]);
        for (j, f) in cols["first_change"].iter().enumerate() {
            a[*f] = if i == Some(j) { F::ONE } else { F::ZERO };
        }
        a[one("range_check")] = match i {
            Some(i) => b[ad[i]] - a[ad[i]] - F::ONE,
            None => b[one("timestamp")] - a[one("timestamp")],
        };
        let p = &cols["preinitialized"];
        a[one("initialize_aux")] = if i.is_some() { a[p[0]] * b[one("is_read")] } else { F::ZERO };
    };
    for _ in 0..300 {
        let k = s.pick(&keys);
        let r = s.pick(&by[&k]);
        let same_prev = addr(r) == addr(r - 1);
        let same_next = addr(r) == addr(r + 1);
        let read = val(t, one("is_read"), r) == 1;
        let kind;
        let what;
        let refused;
        match s.below(6) {
            // the value that is read
            0 | 1 if read => {
                if !same_prev && pre.contains(&addr(r)[1]) {
                    continue;
                }
                let col = s.pick(&cols["value"]);
                let Some(x) = other(s, t, col, r) else { continue };
                kind = if same_prev { "read" } else { "first read" };
                what = format!("column {col} := {x}");
                let mut new = row(t, r);
                new[col] = x;
                refused = refusal(MEMORY, t, &[(r, new)]).local;
            }
            // a written value that is read next
            0 | 1 => {
                if !same_next || val(t, one("is_read"), r + 1) == 0 {
                    continue;
                }
                let col = s.pick(&cols["value"]);
                let Some(x) = other(s, t, col, r) else { continue };
                kind = "write";
                what = format!("column {col} := {x}");
                let mut new = row(t, r);
                new[col] = x;
                refused = refusal(MEMORY, t, &[(r, new)]).local;
            }
            // two operations in the wrong order
            2 => {
                if same_next && ts(r) == ts(r + 1) {
                    continue;
                }
                let mut v = [row(t, r - 1), row(t, r + 1), row(t, r), row(t, r + 2)];
                // columns that count rows stay in their places
                let counted: Vec<usize> = (0..t.len()).filter(|c| !cols.values().flatten().any(|x| x == c)).collect();
                for c in counted {
                    if t[c].values[r + 1] - t[c].values[r] == F::ONE && t[c].values[r] - t[c].values[r - 1] == F::ONE {
                        let x = v[1][c];
                        v[1][c] = v[2][c];
                        v[2][c] = x;
                    }
                }
                for i in 0..3 {
                    let b = v[i + 1].clone();
                    let pre = |seg: F| pre.iter().map(|p| seg - F::from_canonical_u64(*p)).collect::<Vec<_>>();
                    let q = pre(b[cols["address"][1]]);
                    v[i][cols["preinitialized"][1]] = q[2] * q[3];
                    v[i][cols["preinitialized"][0]] = q[0] * q[1] * q[2] * q[3];
                    if let Some(c) = inv_pre {
                        v[i][c] = (q[0] * q[1] * q[2] * q[3]).try_inverse().unwrap_or_default();
                    }
                    flags(&mut v[i], &b);
                }
                kind = if same_next { "order of time" } else { "order of addresses" };
                what = String::new();
                let [a, b, c, _] = v;
                let rows = [(r - 1, a), (r, b), (r + 1, c)];
                let x = refusal(MEMORY, t, &rows);
                refused = x.local || out_of_table(MEMORY, t, &rows);
                if !x.local {
                    rec.label("order refused by the lookup only");
                }
            }
            // the time of an operation, with what depends on it
            3 => {
                let mut a = row(t, r - 1);
                let mut b = row(t, r);
                let next = row(t, r + 1);
                // before its predecessor, or after its successor
                let x = match (same_prev && ts(r - 1) > 0, same_next) {
                    (true, _) if s.bool() => ts(r - 1) - 1 - s.below(ts(r - 1) as usize) as u64,
                    (_, true) => ts(r + 1) + 1 + s.below(40) as u64,
                    _ => continue,
                };
                b[one("timestamp")] = F::from_canonical_u64(x);
                let y = b.clone();
                flags(&mut a, &y);
                flags(&mut b, &next);
                kind = "time";
                what = format!("{} -> {x}", ts(r));
                // the inverse of the time follows
                let rows0 = [(r - 1, a), (r, b)];
                let inv = inverse_column(t, one("timestamp"));
                let rows = rows0.map(|(i, mut v)| {
                    if let Some(c) = inv {
                        v[c] = v[one("timestamp")].try_inverse().unwrap_or_default();
                    }
                    (i, v)
                });
                let l = refusal(MEMORY, t, &rows);
                refused = l.local || out_of_table(MEMORY, t, &rows);
                if !l.local {
                    rec.label("time refused by the lookup only");
                }
            }
            // which words are passed on
            4 => {
                let col = one("mem_after_filter");
                let zero = limbs(t, &cols["value"], r).is_some_and(|x| x.is_zero()) && !pre.contains(&addr(r + 1)[1]);
                if !same_next && zero {
                    continue;
                }
                let mut new = row(t, r);
                new[col] = F::ONE - new[col];
                kind = if new[col] == F::ONE { "passed on" } else { "not passed on" };
                // a word of a pruned context needn't be passed on
                if !same_next && new[col] == F::ONE {
                    continue;
                }
                what = String::new();
                refused = refusal(MEMORY, t, &[(r, new)]).local;
            }
            // any other cell of the operation
            _ => {
                let all = ["filter", "timestamp", "address", "first_change", "range_check", "initialize_aux", "preinitialized"];
                let name = s.pick(&all);
                let col = s.pick(&cols[name]);
                let Some(x) = other(s, t, col, r) else { continue };
                kind = name;
                what = format!("column {col} := {x}");
                let mut new = row(t, r);
                new[col] = x;
                let l = refusal(MEMORY, t, &[(r, new)]);
                refused = l.local || if matches!(name, "filter" | "timestamp") { !l.ctls.is_empty() } else { l.lookup };
            }
        }
        rec.evals += 1;
        rec.label(kind);
        if !refused {
            report(
                format!("memory:{kind}"),
                format!(
                    "row {r} of {:?}: {kind}: {what} is not refused\n    {:?}\n    before {:?}\n    after {:?}\n    {}",
                    addr(r),
                    nonzero(&row(t, r)),
                    nonzero(&row(t, r - 1)),
                    nonzero(&row(t, r + 1)),
                    g.d
                ),
            )?;
        }
    }
    rec.nontrivial(&g.key);
    rec.sample(g.d);
    Ok(())
}

/// The column that holds the inverses of another.
fn inverse_column(t: &Table, c: usize) -> Option<usize> {
    let n = t[0].values.len();
    (0..t.len()).find(|d| (0..n).step_by(n / 64 + 1).all(|r| t[*d].values[r] == t[c].values[r].try_inverse().unwrap_or_default()) && t[*d].values.iter().any(|x| x.is_nonzero()))
}

/// The columns a looked row's value `i` is made of.
fn made_of(ctl: usize, i: usize) -> Vec<usize> {
    sys().ctls[ctl].looked.cols[i].cur.iter().map(|x| x.0).collect()
}

fn c09_operations(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let n = s.range(20, 120);
    let ops = operations(s, n);
    let tab = match guarded(|| vh::arithmetic_trace(all_stark(), &ops)) {
        Ok(t) => t,
        Err(p) => return fail("arithmetic-trace", format!("panic {p}\n    {ops:x?}")),
    };
    let look = &sys().ctls[CTL_ARITHMETIC].looked;
    let rows = side(look, &tab);
    let height = tab[0].values.len();
    let bad = |sig: String, r: usize, m: String| -> CaseResult { fail(sig, format!("row {r}: {m} is not refused\n    {:?}\n    then {:?}", nonzero(&row(&tab, r)), nonzero(&row(&tab, r + 1)))) };
    let flags: Vec<usize> = look.filter.consts[0].cur.iter().map(|x| x.0).collect();
    let outputs: Vec<usize> = (25..33).flat_map(|i| made_of(CTL_ARITHMETIC, i)).collect();
    let inputs: Vec<Vec<usize>> = (0..3).map(|k| (1 + 8 * k..9 + 8 * k).flat_map(|i| made_of(CTL_ARITHMETIC, i)).collect()).collect();
    for ((o, x), (r, v)) in ops.iter().zip(&rows) {
        let r = *r;
        let w = |i: usize| word(&v[1 + 8 * i..9 + 8 * i]);
        let real = row(&tab, r);
        let is_range = w(3) != reference(*o, x[0], x[1], x[2]) || !is_op(*o);
        for _ in 0..6 {
            rec.evals += 1;
            let mut new = real.clone();
            match s.below(6) {
                // another result
                0 | 1 if !is_range => {
                    let c = s.pick(&outputs);
                    new[c] = F::from_canonical_u16(match s.below(3) {
                        0 => new[c].to_canonical_u64() as u16 ^ (1 << s.below(16)),
                        1 => (new[c].to_canonical_u64() as u16).wrapping_add(1),
                        _ => s.u64() as u16,
                    });
                    if new == real {
                        continue;
                    }
                    rec.label(format!("result of {o:#x}"));
                    if !refusal(ARITHMETIC, &tab, &[(r, new)]).local {
                        return bad(format!("arithmetic:result:{o:#x}"), r, format!("another result of {o:#x} {x:x?}"));
                    }
                }
                // other operands
                2 if !is_range => {
                    let k = s.below(if matches!(o, 8 | 9 | 0xf) { 3 } else { 2 });
                    // the shift itself is bound by the table of powers of two
                    if matches!(o, 0x1b | 0x1c) && k == 0 {
                        continue;
                    }
                    let y = s.pick(&ops).1[k];
                    let mut z = *x;
                    z[k] = y;
                    if reference(*o, z[0], z[1], z[2]) == reference(*o, x[0], x[1], x[2]) {
                        continue;
                    }
                    for (i, c) in inputs[k].iter().enumerate() {
                        new[*c] = F::from_canonical_u64((y >> (16 * i)).low_u64() & 0xffff);
                    }
                    rec.label(format!("operand of {o:#x}"));
                    if !refusal(ARITHMETIC, &tab, &[(r, new)]).local {
                        return bad(format!("arithmetic:operand:{o:#x}"), r, format!("operand {k} := {y:x} of {o:#x} {x:x?}"));
                    }
                }
                // limbs out of range
                3 => {
                    let c = s.pick(&[&outputs[..], &inputs[0], &inputs[1], &inputs[2]].concat());
                    new[c] += F::from_canonical_u64(1 << (16 + s.below(40)));
                    rec.label("limb out of range");
                    if !out_of_table(ARITHMETIC, &tab, &[(r, new)]) {
                        return bad(format!("arithmetic:range:{o:#x}"), r, format!("column {c} out of range"));
                    }
                }
                // a result that isn't reduced
                4 if matches!(o, 0x06 | 0x08 | 0x09 | 0x0c | 0x0d) => {
                    let Some(rows) = unreduced(&tab, r, *o, x) else { continue };
                    rec.label(format!("unreduced {o:#x}"));
                    if !refusal(ARITHMETIC, &tab, &rows).local && !out_of_table(ARITHMETIC, &tab, &rows) {
                        return bad(format!("arithmetic:unreduced:{o:#x}"), r, format!("an unreduced result of {o:#x} {x:x?}"));
                    }
                }
                // the same claim to other tables by another kind of row
                _ => {
                    let f = s.pick(&flags);
                    let spare: Vec<(usize, F)> = look.cols[0].cur.iter().filter(|x| !flags.contains(&x.0)).copied().collect();
                    let coef = look.cols[0].cur.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(F::ZERO);
                    let target = s.pick(&OPS);
                    for c in &flags {
                        new[*c] = F::ZERO;
                    }
                    new[f] = F::ONE;
                    for (c, k) in &spare {
                        new[*c] = (F::from_canonical_u8(target) - coef) * k.inverse();
                    }
                    let y = operand(s, &[]);
                    for (i, c) in outputs.iter().enumerate() {
                        new[*c] = F::from_canonical_u64((y >> (16 * i)).low_u64() & 0xffff);
                    }
                    // what the other tables would see
                    let at = |c: usize, _: bool| new[c];
                    let seen: Vec<F> = look.cols.iter().map(|c| c.eval(&at)).collect();
                    let u = |i: usize| word(&seen[1 + 8 * i..9 + 8 * i]);
                    if seen[0] != F::from_canonical_u8(target) || reference(target, u(0).unwrap_or_default(), u(1).unwrap_or_default(), u(2).unwrap_or_default()) == u(3) {
                        continue;
                    }
                    // a range check is told apart by the rest of the claim
                    let honest: Vec<F> = claim_of(target);
                    if seen[33..] != honest[..] {
                        continue;
                    }
                    rec.label("another kind of row");
                    if !refusal(ARITHMETIC, &tab, &[(r, new)]).local {
                        return bad(format!("arithmetic:forged:{target:#x}"), r, format!("a row with flag {f} that claims {target:#x} of {:x?} is {y:x}", [u(0), u(1), u(2)]));
                    }
                }
            }
        }
    }
    let _ = height;
    rec.nontrivial(&ops.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
    logic(s, rec)?;
    packing(s, rec)?;
    keccak(s, rec)
}

/// The part of an honest claim that follows the result, for an operation.
fn claim_of(op: u8) -> Vec<F> {
    static C: std::sync::OnceLock<HashMap<u8, Vec<F>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let ops: Vec<(u8, [U256; 3])> = OPS.iter().map(|o| (*o, [3.into(), 5.into(), 7.into()])).collect();
        let t = vh::arithmetic_trace(all_stark(), &ops);
        OPS.iter().zip(side(&sys().ctls[CTL_ARITHMETIC].looked, &t)).map(|(o, (_, v))| (*o, v[33..].to_vec())).collect()
    })[&op]
        .clone()
}

/// The rows of an operation with the modulus added to the result and one taken
/// from the quotient, and all that depends on it.
fn unreduced(tab: &Table, r: usize, op: u8, x: &[U256; 3]) -> Option<[(usize, Vec<F>); 2]> {
    let cols: HashMap<String, Vec<usize>> = vh::modular_columns().into_iter().collect();
    let m = match op {
        0x06 => x[1],
        0x08 | 0x09 => x[2],
        _ => bn(),
    };
    let out = reference(op, x[0], x[1], x[2])?;
    let wide: U512 = match op {
        0x06 => x[0].into(),
        0x08 | 0x0c => U512::from(x[0]) + U512::from(x[1]),
        _ => U512::from(x[0]) * U512::from(x[1]),
    };
    if m.is_zero() || wide / U512::from(m) == U512::zero() {
        return None;
    }
    let (new_out, over) = out.overflowing_add(m);
    if over {
        return None;
    }
    let q = wide / U512::from(m);
    let limb = |x: U512, i: usize| ((x >> (16 * i)).low_u64() & 0xffff) as i128;
    // the change of the polynomial: -(out' - out) - (q' - q) m
    let mut p = [0i128; 48];
    for i in 0..16 {
        p[i] -= limb(new_out.into(), i) - limb(out.into(), i);
    }
    for i in 0..32 {
        let d = limb(q - 1, i) - limb(q, i);
        for j in 0..16 {
            p[i + j] -= d * limb(m.into(), j);
        }
    }
    // divided by x - 2^16
    let mut aux = [0i128; 48];
    let mut carry = 0;
    for i in (1..48).rev() {
        carry = p[i] + (carry << 16);
        aux[i - 1] = carry;
    }
    if p[0] + (carry << 16) != 0 || aux[31..].iter().any(|x| *x != 0) {
        return None;
    }
    let (mut a, mut b) = (row(tab, r), row(tab, r + 1));
    for i in 0..16 {
        a[cols["output"][i]] = F::from_canonical_u64(limb(new_out.into(), i) as u64);
        // 2^256 - m + out', without its top bit
        b[cols["reduced"][i]] = F::from_canonical_u64(limb(out.into(), i) as u64);
    }
    for (i, c) in cols["quotient"].iter().enumerate() {
        a[*c] = F::from_canonical_u64(limb(q - 1, i) as u64);
    }
    for i in 0..31 {
        let (lo, hi) = (cols["aux low"][i], cols["aux high"][i]);
        let v = b[lo].to_canonical_u64() as i128 + ((b[hi].to_canonical_u64() as i128) << 16) + aux[i];
        if !(0..1 << 32).contains(&v) {
            return None;
        }
        b[lo] = F::from_canonical_u64(v as u64 & 0xffff);
        b[hi] = F::from_canonical_u64(v as u64 >> 16);
    }
    Some([(r, a), (r + 1, b)])
}

fn logic(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let ops: Vec<(u8, U256, U256)> = (0..s.range(2, 12))
        .map(|_| {
            let a = operand(s, &[]);
            (s.pick(&[0x16, 0x17, 0x18]), a, operand(s, &[a]))
        })
        .collect();
    let tab = vh::logic_trace(all_stark(), &ops);
    let look = &sys().ctls[CTL_LOGIC].looked;
    let flags: Vec<(usize, F)> = look.cols[0].cur.clone();
    for ((o, a, b), (r, _)) in ops.iter().zip(side(look, &tab)) {
        for _ in 0..8 {
            let real = row(&tab, r);
            let mut new = real.clone();
            let kind = match s.below(4) {
                0 => {
                    let c = made_of(CTL_LOGIC, 17 + s.below(8))[0];
                    new[c] += if s.bool() { F::ONE } else { F::from_canonical_u64(1 << s.below(32)) };
                    "result"
                }
                1 => {
                    // a bit of an operand, whether or not it is one
                    let i = 1 + s.below(16);
                    let c = s.pick(&made_of(CTL_LOGIC, i));
                    let old = real[c];
                    new[c] = if s.bool() { F::ONE - old } else { F::TWO };
                    if new[c] != F::TWO {
                        let at = |c: usize, _: bool| new[c];
                        let w = |k: usize| word(&look.cols[1 + 8 * k..9 + 8 * k].iter().map(|c| c.eval(&at)).collect::<Vec<_>>()).unwrap();
                        if reference(*o, w(0), w(1), U256::zero()) == reference(*o, *a, *b, U256::zero()) {
                            continue;
                        }
                    }
                    "operand"
                }
                2 => {
                    // another operation
                    let f = s.pick(&flags);
                    if reference(f.1.to_canonical_u64() as u8, *a, *b, U256::zero()) == reference(*o, *a, *b, U256::zero()) {
                        continue;
                    }
                    for g in &flags {
                        new[g.0] = F::ZERO;
                    }
                    new[f.0] = F::ONE;
                    "operation"
                }
                _ => {
                    // several operations at once
                    let f = s.pick(&flags).0;
                    if real[f].is_nonzero() {
                        continue;
                    }
                    new[f] = s.pick(&[F::ONE, F::NEG_ONE, F::TWO]);
                    "operations"
                }
            };
            rec.evals += 1;
            rec.label(format!("logic {kind}"));
            if !refusal(LOGIC, &tab, &[(r, new.clone())]).local {
                report(format!("logic:{kind}:{o:#x}"), format!("row {r}: {o:#x} {a:x} {b:x}: a changed {kind} is not refused: {:?}", nonzero(&new)))?;
            }
        }
    }
    Ok(())
}

fn packing(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let ops: Vec<(bool, usize, usize, usize, Vec<u8>)> = (0..s.range(2, 12))
        .map(|i| (s.bool(), s.below(4), s.below(1 << 20), i * 5 + 1, { let n = s.range(1, 32); s.bytes(n) }))
        .collect();
    let tab = vh::byte_packing_trace(all_stark(), &ops);
    let look = &sys().ctls[1].looked;
    // the bytes of the value, from the least significant one
    let bytes: Vec<usize> = (6..14).flat_map(|i| made_of(1, i)).collect();
    let lens: Vec<usize> = look.filter.consts[0].cur.iter().map(|x| x.0).collect();
    for ((rd, _, virt, _, b), (r, _)) in ops.iter().zip(side(look, &tab)) {
        for _ in 0..8 {
            let real = row(&tab, r);
            let mut new = real.clone();
            let (kind, refused) = match s.below(4) {
                0 if b.len() < 32 => {
                    let c = bytes[s.range(b.len(), 31)];
                    new[c] = F::from_canonical_usize(s.range(1, 255));
                    ("byte beyond the length", refusal(BYTE_PACKING, &tab, &[(r, new.clone())]).local)
                }
                0 | 1 => {
                    let c = s.pick(&bytes[..b.len()]);
                    new[c] += F::from_canonical_u64(1 << (8 + s.below(40)));
                    ("byte out of range", out_of_table(BYTE_PACKING, &tab, &[(r, new.clone())]))
                }
                2 => {
                    // another length at the same place
                    let c = s.pick(&lens);
                    if real[c].is_nonzero() {
                        continue;
                    }
                    new[c] = F::ONE;
                    if s.bool() {
                        // the value is zero beyond a shorter length: fine for the
                        // table itself, refused by its claims to others
                        for l in &lens {
                            if *l != c {
                                new[*l] = F::ZERO;
                            }
                        }
                        let x = refusal(BYTE_PACKING, &tab, &[(r, new.clone())]);
                        ("length", x.local || (x.ctls.contains(&1) && x.ctls.contains(&CTL_MEMORY)))
                    } else {
                        ("two lengths", refusal(BYTE_PACKING, &tab, &[(r, new.clone())]).local)
                    }
                }
                _ => {
                    let c = s.pick(&lens);
                    if real[c].is_nonzero() {
                        continue;
                    }
                    new[c] = s.pick(&[F::TWO, F::NEG_ONE]);
                    ("length flag", refusal(BYTE_PACKING, &tab, &[(r, new.clone())]).local)
                }
            };
            rec.evals += 1;
            rec.label(format!("packing {kind}"));
            if !refused {
                report(format!("packing:{kind}"), format!("row {r}: {rd} {virt} {b:02x?}: {kind} is not refused: {:?}", nonzero(&new)))?;
            }
        }
    }
    Ok(())
}

fn keccak(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let ops: Vec<([u64; 25], usize)> = vec![(permutation(s), 1 + s.below(100)), (permutation(s), 1 + s.below(100))];
    let tab = vh::keccak_trace(all_stark(), &ops);
    let n = tab[0].values.len();
    let outs: Vec<usize> = (0..50).flat_map(|i| made_of(CTL_KECCAK_OUT, i)).collect();
    let last: Vec<usize> = side(&sys().ctls[CTL_KECCAK_OUT].looked, &tab).iter().map(|x| x.0).collect();
    for _ in 0..12 {
        rec.evals += 1;
        match s.below(3) {
            // the state after a round
            0 => {
                let r = s.below(48);
                let mut new = row(&tab, r);
                let c = s.pick(&outs);
                new[c] += if s.bool() { F::ONE } else { F::from_canonical_u64(1 << s.below(33)) };
                rec.label("keccak result");
                if !refusal(KECCAK, &tab, &[(r, new)]).local {
                    report("keccak:result", format!("row {r} column {c}: {ops:x?}"))?;
                }
            }
            // the rounds of another permutation from some round on
            1 => {
                let k = s.range(1, 23);
                rec.label("keccak splice");
                let (a, b) = (row(&tab, k - 1), row(&tab, 24 + k));
                if ops[0] == ops[1] {
                    continue;
                }
                if holds(KECCAK, &a, &b, k - 1, n) {
                    report("keccak:splice", format!("round {k}: {ops:x?}"))?;
                }
                // the same with the time of the first
                let mut b = b;
                let at = |c: usize, _: bool| c;
                let _ = at;
                for c in &sys().ctls[CTL_KECCAK_OUT].looked.cols[50].cur {
                    b[c.0] = tab[c.0].values[k - 1];
                }
                if ops[0].0 != ops[1].0 && holds(KECCAK, &a, &b, k - 1, n) {
                    report("keccak:splice", format!("round {k} with the time: {ops:x?}"))?;
                }
            }
            // a permutation that ends early, or isn't finished
            _ => {
                let r = s.below(47);
                if last.contains(&r) {
                    continue;
                }
                rec.label("keccak rounds");
                // skip a round
                let (a, b) = (row(&tab, r), row(&tab, r + 2));
                if r % 24 < 22 && holds(KECCAK, &a, &b, r, n) {
                    report("keccak:skip", format!("row {r}: {ops:x?}"))?;
                }
                // claim the state after a round as the result
                let mut new = row(&tab, r);
                for c in &sys().ctls[CTL_KECCAK_OUT].looked.filter.consts[0].cur {
                    new[c.0] = F::ONE;
                }
                if !refusal(KECCAK, &tab, &[(r, new)]).local {
                    report("keccak:early", format!("row {r}: {ops:x?}"))?;
                }
            }
        }
    }
    Ok(())
}

pub fn c08() -> Check {
    Check {
        property: "C08",
        level: "exploration",
        assumptions: vec!["feature eth_mainnet".into(), "constraints are evaluated in the base field, as the prover does".into()],
        facets: vec![
            Facet::new(
                "segments",
                "traces of random segments (2^10..2^14 cycles) of random blocks and batches: every constraint on every row, every lookup, every lookup between tables with the public operations holds; results in the CPU, sponge and packing tables are those of the operations; non-trivial = every accepted trace, distinct by segment and roots",
                260,
                8_000,
                1900,
                c08_segments,
            )
            .shrink(60),
            Facet::new(
                "operations",
                "tables of random arithmetic, logic, packing and Keccak operations on boundary operands: constraints, lookups and results; non-trivial = every table, distinct by operations",
                160,
                4_000,
                4000,
                c08_operations,
            )
            .shrink(60),
        ],
    }
}

pub fn c09() -> Check {
    Check {
        property: "C09",
        level: "exploration",
        assumptions: vec![
            "feature eth_mainnet".into(),
            "first reads of the segments that needn't be initialized (code, trie data, linked lists) and prover inputs are free by design".into(),
        ],
        facets: vec![
            Facet::new(
                "cpu",
                "400 changes of cells of CPU rows of a random segment, spread over all kinds of operations: the next state, memory operations and the operation itself; each must be refused by the constraints on its rows or the lookups into the tables that compute it; non-trivial = every segment, distinct by segment and roots",
                160,
                6_000,
                6000,
                c09_cpu,
            )
            .shrink(60),
            Facet::new(
                "kernel-push",
                "changed operands of PUSH in kernel mode must be refused (a known finding: they aren't); non-trivial = every segment, distinct by segment and roots",
                6,
                60,
                6000,
                c09_kernel_push,
            )
            .shrink(0),
            Facet::new(
                "memory",
                "300 changes of the memory table of a random segment, spread over its segments: values read, order of times and addresses with all that depends on them recomputed, words passed on, flags; each must be refused by a constraint or by a range check that no frequencies can repair; non-trivial = every segment, distinct by segment and roots",
                160,
                6_000,
                6000,
                c09_memory,
            )
            .shrink(60),
            Facet::new(
                "operations",
                "changes of tables of random arithmetic, logic, packing and Keccak operations: results, operands, limbs out of range, unreduced results with their quotients, rows of another kind that make the same claim, spliced permutations; each must be refused within the table; non-trivial = every table, distinct by operations",
                200,
                6_000,
                9000,
                c09_operations,
            )
            .shrink(60),
        ],
    }
}
