//! The constraint system outside of the prover: constraints on rows, lookups
//! within tables and lookups between tables, as functions of the trace.
use std::collections::HashMap;

use evm_arithmetization::verif_hooks::{cross_table_lookups, visit_stark, StarkVisitor};
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, PrimeField64};
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use super::seg::all_stark;
use crate::refevm::block::F;

pub type Table = Vec<PolynomialValues<F>>;

pub const ARITHMETIC: usize = 0;
pub const BYTE_PACKING: usize = 1;
pub const CPU: usize = 2;
pub const KECCAK: usize = 3;
pub const SPONGE: usize = 4;
pub const LOGIC: usize = 5;
pub const MEMORY: usize = 6;
pub const NAMES: [&str; 9] = ["arithmetic", "byte packing", "cpu", "keccak", "sponge", "logic", "memory", "memory before", "memory after"];

pub const CTL_ARITHMETIC: usize = 0;
pub const CTL_SPONGE: usize = 2;
pub const CTL_KECCAK_OUT: usize = 4;
pub const CTL_LOGIC: usize = 5;
pub const CTL_MEMORY: usize = 6;

// ---- a reader of the derived Debug form, the only public view of lookups ----

#[derive(Debug)]
enum V {
    Num(u64),
    List(Vec<V>),
    Rec(Vec<(String, V)>),
}

impl V {
    fn get(&self, k: &str) -> &V {
        match self {
            V::Rec(f) => &f.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no field {k}")).1,
            _ => panic!("no record"),
        }
    }
    fn list(&self) -> &[V] {
        match self {
            V::List(l) => l,
            _ => panic!("no list"),
        }
    }
    fn num(&self) -> u64 {
        match self {
            V::Num(n) => *n,
            _ => panic!("no number"),
        }
    }
}

fn read(b: &[u8], i: &mut usize) -> V {
    let skip = |i: &mut usize| {
        while b.get(*i).is_some_and(|c| c.is_ascii_whitespace()) {
            *i += 1
        }
    };
    skip(i);
    match b[*i] {
        o @ (b'[' | b'(') => {
            let end = if o == b'[' { b']' } else { b')' };
            *i += 1;
            let mut l = vec![];
            loop {
                skip(i);
                if b[*i] == end {
                    *i += 1;
                    return V::List(l);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                l.push(read(b, i));
            }
        }
        c if c.is_ascii_digit() => {
            let s = *i;
            while b.get(*i).is_some_and(|c| c.is_ascii_digit()) {
                *i += 1
            }
            V::Num(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
        _ => {
            while b[*i] != b'{' {
                *i += 1
            }
            *i += 1;
            let mut f = vec![];
            loop {
                skip(i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return V::Rec(f);
                    }
                    b',' => *i += 1,
                    _ => {
                        let s = *i;
                        while b[*i] != b':' {
                            *i += 1
                        }
                        let k = std::str::from_utf8(&b[s..*i]).unwrap().to_string();
                        *i += 1;
                        f.push((k, read(b, i)));
                    }
                }
            }
        }
    }
}

fn parse(x: &impl std::fmt::Debug) -> V {
    let s = format!("{x:?}");
    read(s.as_bytes(), &mut 0)
}

// ---- lookups ----

#[derive(Clone)]
pub struct Col {
    pub cur: Vec<(usize, F)>,
    pub next: Vec<(usize, F)>,
    pub k: F,
}

impl Col {
    fn of(v: &V) -> Col {
        let lc = |v: &V| v.list().iter().map(|x| (x.list()[0].num() as usize, F::from_noncanonical_u64(x.list()[1].num()))).collect();
        Col { cur: lc(v.get("linear_combination")), next: lc(v.get("next_row_linear_combination")), k: F::from_noncanonical_u64(v.get("constant").num()) }
    }
    pub fn eval(&self, at: &impl Fn(usize, bool) -> F) -> F {
        let mut s = self.k;
        for &(c, f) in &self.cur {
            s += at(c, false) * f;
        }
        for &(c, f) in &self.next {
            s += at(c, true) * f;
        }
        s
    }
}

#[derive(Clone)]
pub struct Filt {
    prods: Vec<(Col, Col)>,
    pub consts: Vec<Col>,
}

impl Filt {
    fn of(v: &V) -> Filt {
        Filt {
            prods: v.get("products").list().iter().map(|p| (Col::of(&p.list()[0]), Col::of(&p.list()[1]))).collect(),
            consts: v.get("constants").list().iter().map(Col::of).collect(),
        }
    }
    pub fn eval(&self, at: &impl Fn(usize, bool) -> F) -> F {
        let mut s = F::ZERO;
        for (a, b) in &self.prods {
            s += a.eval(at) * b.eval(at);
        }
        for c in &self.consts {
            s += c.eval(at);
        }
        s
    }
}

/// One side of a lookup between tables.
#[derive(Clone)]
pub struct Side {
    pub table: usize,
    pub cols: Vec<Col>,
    pub filter: Filt,
}

impl Side {
    fn of(v: &V) -> Side {
        Side { table: v.get("table").num() as usize, cols: v.get("columns").list().iter().map(Col::of).collect(), filter: Filt::of(v.get("filter")) }
    }
}

pub struct Ctl {
    pub looking: Vec<Side>,
    pub looked: Side,
}

/// A lookup within a table.
pub struct Lookup {
    pub cols: Vec<(Col, Filt)>,
    pub table: Col,
    pub freq: Col,
}

pub struct Sys {
    pub ctls: Vec<Ctl>,
    pub lookups: Vec<Vec<Lookup>>,
    pub widths: Vec<usize>,
    /// For the sums of constraints, and for the fingerprints of rows.
    alphas: Vec<F>,
    beta: F,
    gamma: F,
}

struct Describe(Vec<Lookup>, usize);

impl StarkVisitor<F, 2> for Describe {
    fn visit<S: Stark<F, 2>>(&mut self, s: &S) {
        self.1 = S::COLUMNS;
        for l in s.lookups() {
            let cols = parse(&l.columns).list().iter().map(Col::of).collect::<Vec<_>>();
            let mut f: Vec<Filt> = parse(&l.filter_columns).list().iter().map(Filt::of).collect();
            assert!(f.len() == cols.len());
            self.0.push(Lookup {
                cols: cols.into_iter().zip(f.drain(..)).collect(),
                table: Col::of(&parse(&l.table_column)),
                freq: Col::of(&parse(&l.frequencies_column)),
            });
        }
    }
}

pub fn sys() -> &'static Sys {
    static S: std::sync::OnceLock<Sys> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let ctls = cross_table_lookups(all_stark())
            .iter()
            .map(|c| {
                let v = parse(c);
                Ctl { looking: v.get("looking_tables").list().iter().map(Side::of).collect(), looked: Side::of(v.get("looked_table")) }
            })
            .collect();
        let (lookups, widths) = (0..9)
            .map(|t| {
                let mut d = Describe(vec![], 0);
                visit_stark(all_stark(), t, &mut d);
                (d.0, d.1)
            })
            .unzip();
        let r = |i: u64| F::from_noncanonical_u64(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * i + 0x1234_5677)) + F::from_canonical_u64(i);
        Sys { ctls, lookups, widths, alphas: vec![r(1), r(2)], beta: r(3), gamma: r(4) }
    })
}

impl Sys {
    /// A field element that stands for a row of values.
    fn print(&self, i: usize, v: impl Iterator<Item = F>) -> u64 {
        let mut x = self.gamma + F::from_canonical_usize(i);
        for y in v {
            x = (x + y) * self.beta;
        }
        x.to_canonical_u64()
    }
}

// ---- constraints ----

/// The pairs of rows (current, next, number, height) to check.
struct Local<'a, R: Iterator<Item = (&'a [F], &'a [F], usize, usize)>> {
    rows: Option<R>,
    bad: Vec<usize>,
    max: usize,
}

impl<'a, R: Iterator<Item = (&'a [F], &'a [F], usize, usize)>> StarkVisitor<F, 2> for Local<'a, R> {
    fn visit<S: Stark<F, 2>>(&mut self, stark: &S) {
        for (k, (lv, nv, i, n)) in self.rows.take().unwrap().enumerate() {
            let one = |b: bool| if b { F::ONE } else { F::ZERO };
            let mut c = ConstraintConsumer::<F>::new(sys().alphas.clone(), one(i + 1 != n), one(i == 0), one(i + 1 == n));
            let frame = S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, &[]);
            stark.eval_packed_base(&frame, &mut c);
            if c.accumulators().iter().any(|x| x.is_nonzero()) {
                self.bad.push(k);
                if self.bad.len() >= self.max {
                    return;
                }
            }
        }
    }
}

/// Whether a row satisfies its constraints.
pub fn holds(t: usize, lv: &[F], nv: &[F], i: usize, n: usize) -> bool {
    let mut v = Local { rows: Some(std::iter::once((lv, nv, i, n))), bad: vec![], max: 1 };
    visit_stark(all_stark(), t, &mut v);
    v.bad.is_empty()
}

pub fn row(t: &Table, i: usize) -> Vec<F> {
    t.iter().map(|c| c.values[i]).collect()
}

/// The first row that violates a constraint.
fn local(t: usize, tab: &Table) -> Option<usize> {
    let n = tab[0].values.len();
    let w = tab.len();
    // row-major, in strips
    const STRIP: usize = 1 << 10;
    let mut at = 0;
    while at < n {
        let m = STRIP.min(n - at);
        let mut rows = vec![F::ZERO; (m + 1) * w];
        for (c, col) in tab.iter().enumerate() {
            for i in 0..=m {
                rows[i * w + c] = col.values[(at + i) % n];
            }
        }
        let it = (0..m).map(|i| (&rows[i * w..(i + 1) * w], &rows[(i + 1) * w..(i + 2) * w], at + i, n));
        let mut v = Local { rows: Some(it), bad: vec![], max: 1 };
        visit_stark(all_stark(), t, &mut v);
        if let Some(k) = v.bad.first() {
            return Some(at + k);
        }
        at += m;
    }
    None
}

fn at(tab: &Table, i: usize) -> impl Fn(usize, bool) -> F + '_ {
    let n = tab[0].values.len();
    let j = (i + 1) % n;
    move |c, next| tab[c].values[if next { j } else { i }]
}

/// A lookup that doesn't balance.
fn lookups(t: usize, tab: &Table) -> Option<String> {
    let n = tab[0].values.len();
    for (k, l) in sys().lookups[t].iter().enumerate() {
        let mut small = vec![F::ZERO; 1 << 17];
        let mut big: HashMap<u64, F> = HashMap::new();
        let mut add = |v: F, m: F| {
            let v = v.to_canonical_u64();
            if (v as usize) < small.len() {
                small[v as usize] += m
            } else {
                *big.entry(v).or_insert(F::ZERO) += m
            }
        };
        for i in 0..n {
            let a = at(tab, i);
            for (c, f) in &l.cols {
                let f = f.eval(&a);
                if f.is_nonzero() {
                    add(c.eval(&a), f);
                }
            }
            add(l.table.eval(&a), -l.freq.eval(&a));
        }
        if let Some(v) = small.iter().position(|x| x.is_nonzero()).map(|v| v as u64).or_else(|| big.iter().find(|x| x.1.is_nonzero()).map(|x| *x.0)) {
            return Some(format!("lookup {k} of {}: value {v:#x}", NAMES[t]));
        }
    }
    None
}

/// Checks everything; returns the first thing that is wrong.
pub fn check_all(tables: &[Table], in_use: &[bool], extra: &[Vec<F>]) -> Result<u64, String> {
    let mut evals = 0;
    for (t, tab) in tables.iter().enumerate() {
        if !in_use[t] {
            continue;
        }
        let w = sys().widths[t];
        if tab.len() != w || tab.iter().any(|c| c.values.len() != tab[0].values.len()) || !tab[0].values.len().is_power_of_two() {
            return Err(format!("shape: {} has {} of {w} columns", NAMES[t], tab.len()));
        }
        evals += tab[0].values.len() as u64;
        if let Some(i) = local(t, tab) {
            return Err(format!("constraint: {} row {i}: {:?}\n    then {:?}", NAMES[t], nonzero(&row(tab, i)), nonzero(&row(tab, (i + 1) % tab[0].values.len()))));
        }
        if let Some(e) = lookups(t, tab) {
            return Err(e);
        }
    }
    let s = sys();
    for (k, c) in s.ctls.iter().enumerate() {
        let mut m: HashMap<u64, (F, usize, usize)> = HashMap::new();
        for (side, sign) in c.looking.iter().map(|x| (x, F::ONE)).chain([(&c.looked, F::NEG_ONE)]) {
            if !in_use[side.table] {
                continue;
            }
            let tab = &tables[side.table];
            for i in 0..tab[0].values.len() {
                let a = at(tab, i);
                let f = side.filter.eval(&a);
                if f.is_nonzero() {
                    if !f.is_one() {
                        return Err(format!("ctl {k}: filter of {} is {f} in row {i}", NAMES[side.table]));
                    }
                    let p = s.print(k, side.cols.iter().map(|c| c.eval(&a)));
                    let e = m.entry(p).or_insert((F::ZERO, side.table, i));
                    e.0 += f * sign;
                }
            }
        }
        if k == CTL_MEMORY {
            for v in extra {
                if v.len() != c.looked.cols.len() {
                    return Err("ctl 6: shape of the public operations".into());
                }
                m.entry(s.print(k, v.iter().copied())).or_insert((F::ZERO, 99, 0)).0 += F::ONE;
            }
        }
        if let Some((n, t, i)) = m.values().find(|x| x.0.is_nonzero()) {
            let d = if *t == 99 { "public values".to_string() } else { format!("{} row {i}: {:?}", NAMES[*t], nonzero(&row(&tables[*t], *i))) };
            return Err(format!("ctl {k}: unbalanced by {n}: {d}"));
        }
    }
    Ok(evals)
}

pub fn nonzero(r: &[F]) -> Vec<(usize, u64)> {
    r.iter().enumerate().filter(|x| x.1.is_nonzero()).map(|(i, x)| (i, x.to_canonical_u64())).collect()
}

// ---- changes ----

/// What refuses a changed row.
#[derive(Debug, Default, Clone)]
pub struct Refusal {
    pub local: bool,
    pub lookup: bool,
    pub ctls: Vec<usize>,
}

/// What refuses a table in which some rows are replaced (all other tables stay).
pub fn refusal(t: usize, tab: &Table, new: &[(usize, Vec<F>)]) -> Refusal {
    let s = sys();
    let n = tab[0].values.len();
    let get = |i: usize| new.iter().find(|x| x.0 == i).map(|x| x.1.clone()).unwrap_or_else(|| row(tab, i));
    let mut touched: Vec<usize> = new.iter().flat_map(|x| [(x.0 + n - 1) % n, x.0]).collect();
    touched.sort();
    touched.dedup();
    let mut r = Refusal::default();
    let mut delta: Vec<HashMap<u64, F>> = vec![HashMap::new(); s.lookups[t].len() + s.ctls.len()];
    for i in touched {
        let (a, b) = (get(i), get((i + 1) % n));
        if !holds(t, &a, &b, i, n) {
            r.local = true;
        }
        let (a0, b0) = (row(tab, i), row(tab, (i + 1) % n));
        for (a, b, sign) in [(&a0, &b0, F::NEG_ONE), (&a, &b, F::ONE)] {
            let at = |c: usize, next: bool| if next { b[c] } else { a[c] };
            for (k, l) in s.lookups[t].iter().enumerate() {
                for (c, f) in &l.cols {
                    let f = f.eval(&at);
                    if f.is_nonzero() {
                        *delta[k].entry(c.eval(&at).to_canonical_u64()).or_insert(F::ZERO) += f * sign;
                    }
                }
                *delta[k].entry(l.table.eval(&at).to_canonical_u64()).or_insert(F::ZERO) -= l.freq.eval(&at) * sign;
            }
            for (k, c) in s.ctls.iter().enumerate() {
                for (side, g) in c.looking.iter().map(|x| (x, F::ONE)).chain([(&c.looked, F::NEG_ONE)]) {
                    if side.table == t {
                        let f = side.filter.eval(&at);
                        if f.is_nonzero() {
                            let p = s.print(k, side.cols.iter().map(|c| c.eval(&at)));
                            *delta[s.lookups[t].len() + k].entry(p).or_insert(F::ZERO) += f * g * sign;
                        }
                    }
                }
            }
        }
    }
    for (k, d) in delta.iter().enumerate() {
        if d.values().any(|x| x.is_nonzero()) {
            if k < s.lookups[t].len() {
                r.lookup = true
            } else {
                r.ctls.push(k - s.lookups[t].len())
            }
        }
    }
    r
}

/// Whether some looked-up value of these rows isn't in the lookup's table, so
/// that no choice of frequencies can help.
pub fn out_of_table(t: usize, tab: &Table, new: &[(usize, Vec<F>)]) -> bool {
    let n = tab[0].values.len();
    let get = |i: usize| new.iter().find(|x| x.0 == i).map(|x| x.1.clone()).unwrap_or_else(|| row(tab, i));
    for l in &sys().lookups[t] {
        let mut known: Option<std::collections::HashSet<u64>> = None;
        for (i, _) in new {
            for i in [(i + n - 1) % n, *i] {
                let (a, b) = (get(i), get((i + 1) % n));
                let at_new = |c: usize, next: bool| if next { b[c] } else { a[c] };
                for (c, f) in &l.cols {
                    if f.eval(&at_new).is_nonzero() {
                        let v = c.eval(&at_new).to_canonical_u64();
                        let k = known.get_or_insert_with(|| (0..n).map(|i| l.table.eval(&at(tab, i)).to_canonical_u64()).collect());
                        if !k.contains(&v) {
                            return true;
                        }
                    }
                }
            }
        }
    }
    false
}

/// The rows a looked table offers: row number and values.
pub fn looked(ctl: usize, tables: &[Table]) -> Vec<(usize, Vec<F>)> {
    side(&sys().ctls[ctl].looked, &tables[sys().ctls[ctl].looked.table])
}

pub fn side(s: &Side, tab: &Table) -> Vec<(usize, Vec<F>)> {
    (0..tab[0].values.len())
        .filter_map(|i| {
            let a = at(tab, i);
            s.filter.eval(&a).is_one().then(|| (i, s.cols.iter().map(|c| c.eval(&a)).collect()))
        })
        .collect()
}

/// A word of eight 32-bit limbs; `None` if a limb is out of range.
pub fn word(v: &[F]) -> Option<ethereum_types::U256> {
    let mut b = [0u8; 32];
    for (i, x) in v.iter().enumerate() {
        let x = x.to_canonical_u64();
        if x >> 32 != 0 {
            return None;
        }
        b[4 * i..4 * i + 4].copy_from_slice(&(x as u32).to_le_bytes());
    }
    Some(ethereum_types::U256::from_little_endian(&b))
}

/// The constraints and lookups of one table alone.
pub fn check_single(t: usize, tab: &Table, _used: &[bool]) -> Result<(), String> {
    if tab.len() != sys().widths[t] {
        return Err(format!("shape: {} columns", tab.len()));
    }
    if let Some(i) = local(t, tab) {
        return Err(format!("constraint: row {i}: {:?}\n    then {:?}", nonzero(&row(tab, i)), nonzero(&row(tab, (i + 1) % tab[0].values.len()))));
    }
    match lookups(t, tab) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
