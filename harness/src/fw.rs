//! The property-testing framework: choice sequences drawn by proptest, parallel
//! evaluation, integrated shrinking, replay files, known findings, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use ethereum_types::{Address, H256, U256};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use rayon::prelude::*;
use serde_json::{json, Value};

/// A source of choices. All randomness of a case comes from one vector of
/// `u32`s drawn by proptest; an exhausted source yields zeros, and smaller
/// choices mean simpler cases, so deleting / lowering choices shrinks a case.
pub struct Src<'a> {
    data: &'a [u32],
    pub pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Self { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    /// Uniform-ish in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    pub fn u8(&mut self) -> u8 {
        (self.raw() >> 24) as u8
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 4);
        while v.len() < n {
            v.extend_from_slice(&self.raw().to_be_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn rand_u256(&mut self) -> U256 {
        U256::from_big_endian(&self.bytes(32))
    }
    pub fn h256(&mut self) -> H256 {
        H256::from_slice(&self.bytes(32))
    }
    pub fn address(&mut self) -> Address {
        Address::from_slice(&self.bytes(20))
    }
    /// A word biased to boundary values.
    pub fn word(&mut self) -> U256 {
        match self.weighted(&[6, 4, 3, 3, 3, 4, 2, 2]) {
            0 => U256::from(self.below(5)),
            1 => U256::from(self.below(300)),
            2 => {
                // 2^k + {-1,0,1}
                let k = self.below(256);
                let b = U256::one() << k;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b + 1,
                }
            }
            3 => {
                // close to max
                U256::MAX - U256::from(self.below(5))
            }
            4 => {
                // around the sign bit
                let b = U256::one() << 255;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b + 1,
                }
            }
            5 => self.rand_u256(),
            6 => {
                let k = 8 * self.range(1, 31);
                self.rand_u256() >> k
            }
            _ => {
                // sparse bytes
                let mut b = [0u8; 32];
                for _ in 0..self.range(1, 4) {
                    let i = self.below(32);
                    b[i] = self.pick(&[0xffu8, 1, 0x80, 0x7f]);
                }
                U256::from_big_endian(&b)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// What identifies the failure (for the known-findings file).
    pub sig: String,
    pub msg: String,
}

pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure_prop {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::fw::fail($sig, format!($($arg)*));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq_prop {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return $crate::fw::fail($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
                }
            }
        }
    };
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Rec {
    pub labels: Vec<String>,
    pub key: Option<u64>,
    pub sample: Option<String>,
    pub evals: u64,
}

impl Rec {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    /// Marks the case non-trivial; `h` identifies it.
    pub fn nontrivial<T: std::hash::Hash>(&mut self, h: &T) {
        use std::hash::Hasher;
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.key = Some(s.finish());
    }
    pub fn sample(&mut self, s: String) {
        self.sample = Some(s);
    }
}

pub struct Facet {
    pub name: &'static str,
    /// How cases are made and what is non-trivial.
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// Number of choices per case (the upper bound).
    pub len: usize,
    /// Evaluate cases in parallel.
    pub parallel: bool,
    pub shrink_budget: usize,
    /// Seconds after which a case counts as hung.
    pub limit: u64,
    pub f: Box<dyn Fn(&mut Src, &mut Rec) -> CaseResult + Sync + Send>,
}

impl Facet {
    pub fn new(
        name: &'static str,
        rule: &'static str,
        quick: usize,
        thorough: usize,
        len: usize,
        f: impl Fn(&mut Src, &mut Rec) -> CaseResult + Sync + Send + 'static,
    ) -> Self {
        Self {
            name,
            rule,
            quick,
            thorough,
            len,
            parallel: true,
            shrink_budget: 4000,
            limit: 180,
            f: Box::new(f),
        }
    }
    pub fn serial(mut self) -> Self {
        self.parallel = false;
        self
    }
    pub fn limit(mut self, n: u64) -> Self {
        self.limit = n;
        self
    }
    pub fn shrink(mut self, n: usize) -> Self {
        self.shrink_budget = n;
        self
    }
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    pub facets: Vec<Facet>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static VERBOSE_PANICS: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    if std::env::var("ZKVP_PANICS").is_ok() {
        VERBOSE_PANICS.store(true, Ordering::SeqCst);
    }
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(loc));
        if VERBOSE_PANICS.load(Ordering::SeqCst) {
            old(info);
        }
    }));
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    let loc = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    let mut s = s;
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    format!("{s} @ {loc}")
}

/// Runs code under test, turning a panic into an Err with its text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(e.as_ref()))
}

/// The cases being evaluated, and a failure found but not yet reported, for
/// the two ways a case can end without returning: a hang, or an allocation that
/// cannot be made.
static RUNNING: Mutex<BTreeMap<u64, (Instant, &'static str, u64, Vec<u32>)>> = Mutex::new(BTreeMap::new());
static PENDING: Mutex<Option<(&'static str, Vec<u32>, Fail)>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(0);
static PROPERTY: Mutex<&'static str> = Mutex::new("");
thread_local! {
    static MINE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}

struct Running(u64, u64);
impl Running {
    fn new(f: &Facet, data: &[u32]) -> Self {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        RUNNING.lock().unwrap().insert(id, (Instant::now(), f.name, f.limit, data.to_vec()));
        Running(id, MINE.with(|m| m.replace(id)))
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        RUNNING.lock().unwrap().remove(&self.0);
        MINE.with(|m| m.set(self.1));
    }
}

/// Reports a violation from outside the normal flow and exits.
fn report_and_exit(facet: &str, data: &[u32], f: &Fail) -> ! {
    let prop = *PROPERTY.lock().unwrap();
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{facet}-fatal.json"));
    let doc = json!({
        "property": prop, "facet": facet, "signature": f.sig, "failure": f.msg, "choices": data,
        "replay": format!("/verif/run.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("facet={facet} signature={}", f.sig);
    println!("VIOLATION property={prop} replay={}", path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

fn report_running(id: u64, sig: &str) -> ! {
    if let Some((facet, data, f)) = PENDING.lock().unwrap().clone() {
        report_and_exit(facet, &data, &f);
    }
    let r = RUNNING.lock().unwrap().get(&id).cloned();
    let (_, facet, _, data) = r.unwrap_or((Instant::now(), "unknown", 0, vec![]));
    report_and_exit(facet, &data, &Fail { sig: sig.into(), msg: sig.into() });
}

/// A case that runs for longer than its facet's limit (about a hundred times
/// the usual) never ends: the code under test hangs.
fn watch_hangs() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let hung = RUNNING
            .lock()
            .unwrap()
            .iter()
            .find(|(_, r)| r.0.elapsed().as_secs() > r.2)
            .map(|(k, r)| (*k, r.2));
        if let Some((id, limit)) = hung {
            report_running(id, &format!("hang: the case did not end within {limit} s"));
        }
    });
}

/// An allocation that cannot be made aborts the process; report the case first.
pub fn install_alloc_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        let id = MINE.with(|m| m.get());
        if id != u64::MAX {
            report_running(id, &format!("allocation of {} bytes", l.size()));
        }
    });
}

fn eval(f: &Facet, data: &[u32]) -> (Rec, CaseResult) {
    let _running = Running::new(f, data);
    let mut rec = Rec {
        evals: 1,
        ..Default::default()
    };
    let mut src = Src::new(data);
    let r = catch_unwind(AssertUnwindSafe(|| (f.f)(&mut src, &mut rec)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let t = panic_text(e.as_ref());
            Err(Fail {
                sig: format!("panic:{t}"),
                msg: format!("panic: {t}"),
            })
        }
    };
    (rec, r)
}

fn seed_bytes(seed: u64, prop: &str, facet: &str, idx: u64) -> [u8; 32] {
    keccak_hash::keccak(format!("zkvp/{seed}/{prop}/{facet}/{idx}")).0
}

fn draw(seed: u64, prop: &str, facet: &Facet, idx: u64) -> Vec<u32> {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop, facet.name, idx));
    let mut runner = TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        rng,
    );
    // Vary the amount of available choices: short sources give small cases.
    let lo = (facet.len / 8).max(1);
    proptest::collection::vec(proptest::num::u32::ANY, lo..=facet.len)
        .new_tree(&mut runner)
        .unwrap()
        .current()
}

/// Shrinks a failing choice sequence: chunk deletion, zeroing, lowering.
fn shrink(f: &Facet, data: Vec<u32>, sig_class: &str) -> (Vec<u32>, Fail, usize) {
    let start = Instant::now();
    let mut budget = f.shrink_budget;
    let mut best = data;
    let (_, r) = eval(f, &best);
    let mut best_fail = match r {
        Err(e) => e,
        Ok(()) => Fail {
            sig: "flaky".into(),
            msg: "did not fail again when re-run".into(),
        },
    };
    let mut used = 0;
    let class = |s: &str| s.split(['@', ' ']).next().unwrap_or("").to_string();
    let mut attempt = |cand: &[u32], best_fail: &mut Fail, budget: &mut usize| -> bool {
        if *budget == 0 || start.elapsed().as_secs() > 120 {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        used += 1;
        match eval(f, cand).1 {
            Err(e) if class(&e.sig) == class(sig_class) => {
                *best_fail = e;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // cut the tail
        let mut n = best.len() / 2;
        while n > 0 {
            while best.len() > n {
                let cand = best[..best.len() - n].to_vec();
                if attempt(&cand, &mut best_fail, &mut budget) {
                    best = cand;
                } else {
                    break;
                }
            }
            n /= 2;
        }
        // delete / zero chunks
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..j);
                if attempt(&cand, &mut best_fail, &mut budget) {
                    best = cand;
                    continue;
                }
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..j].iter_mut().for_each(|x| *x = 0);
                    if attempt(&cand, &mut best_fail, &mut budget) {
                        best = cand;
                    }
                }
                i = j;
            }
        }
        // lower values
        for i in 0..best.len() {
            let mut step = best[i] / 2;
            while step > 0x0100_0000 / 4 && budget > 0 {
                let mut cand = best.clone();
                cand[i] -= step;
                if attempt(&cand, &mut best_fail, &mut budget) {
                    best = cand;
                    step = best[i] / 2;
                } else {
                    step /= 2;
                }
            }
        }
        if budget == 0 || best == before {
            break;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, best_fail, used)
}

pub fn verif_dir() -> PathBuf {
    std::env::var("ZKVP_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig_prefix: String,
    pub what: String,
}

fn known_findings(prop: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json is not JSON");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|k| k["property"] == prop && k["status"] == "known")
        .map(|k| Known {
            property: prop.into(),
            sig_prefix: k["signature"].as_str().unwrap().into(),
            what: k["what"].as_str().unwrap().into(),
        })
        .collect()
}

static STOP: AtomicBool = AtomicBool::new(false);

#[derive(Default)]
struct Stats {
    evals: u64,
    cases: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(usize, String)>,
}

pub fn run_check(c: Check) -> i32 {
    let start = Instant::now();
    *PROPERTY.lock().unwrap() = c.property;
    watch_hangs();
    install_alloc_hook();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let soft_deadline: u64 = std::env::var("ZKVP_DEADLINE_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 6 * 3600 } else { 560 });
    let hard = if thorough { 8 * 3600 } else { 850 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(hard));
        if let Some((facet, data, f)) = PENDING.lock().unwrap().clone() {
            report_and_exit(facet, &data, &f);
        }
        eprintln!("watchdog: the check did not finish in {hard} s (no verdict)");
        std::process::exit(3);
    });
    let scale: f64 = std::env::var("ZKVP_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("ZKVP_FACET").ok();
    let known = known_findings(c.property);
    let mut known_seen: BTreeMap<usize, u64> = BTreeMap::new();
    let mut violations = vec![];
    let mut facets_json = serde_json::Map::new();
    let (mut tot_eval, mut tot_nontriv) = (0u64, 0u64);
    let mut samples = vec![];
    let mut inconclusive = false;

    for f in &c.facets {
        if let Some(o) = &only {
            if !f.name.contains(o.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let n = (((if thorough { f.thorough } else { f.quick }) as f64) * scale).ceil() as usize;
        let stats = Mutex::new(Stats::default());
        let failures: Mutex<Vec<(usize, Vec<u32>, Fail)>> = Mutex::new(vec![]);
        let min_fail = AtomicU64::new(u64::MAX);
        STOP.store(false, Ordering::SeqCst);
        let body = |i: usize| {
            if start.elapsed().as_secs() > soft_deadline {
                STOP.store(true, Ordering::SeqCst);
            }
            if STOP.load(Ordering::SeqCst) || (i as u64) > min_fail.load(Ordering::SeqCst) {
                return;
            }
            let data = draw(seed, c.property, f, i as u64);
            let (rec, r) = eval(f, &data);
            let mut s = stats.lock().unwrap();
            s.cases += 1;
            s.evals += rec.evals;
            if let Some(k) = rec.key {
                s.keys.insert(k);
            }
            for l in rec.labels {
                *s.labels.entry(l).or_default() += 1;
            }
            if let Some(x) = rec.sample {
                if i < 3 || (i % (n / 3).max(1) == 0) {
                    s.samples.push((i, x));
                }
            }
            drop(s);
            if let Err(e) = r {
                let k = known.iter().position(|k| e.sig.starts_with(&k.sig_prefix));
                if k.is_none() {
                    PENDING.lock().unwrap().get_or_insert_with(|| (f.name, data.clone(), e.clone()));
                    min_fail.fetch_min(i as u64, Ordering::SeqCst);
                }
                failures.lock().unwrap().push((i, data, e));
            }
        };
        if f.parallel {
            let chunk = 64.max(rayon::current_num_threads() * 4);
            let mut i = 0;
            while i < n {
                let j = (i + chunk).min(n);
                (i..j).into_par_iter().with_max_len(1).for_each(&body);
                if STOP.load(Ordering::SeqCst) || min_fail.load(Ordering::SeqCst) != u64::MAX {
                    break;
                }
                i = j;
            }
        } else {
            (0..n).for_each(&body);
        }
        if STOP.load(Ordering::SeqCst) {
            inconclusive = true;
        }
        let s = stats.into_inner().unwrap();
        let mut fs = failures.into_inner().unwrap();
        fs.sort_by_key(|x| x.0);
        let mut reported = false;
        for (i, data, e) in fs {
            if let Some(k) = known.iter().position(|k| e.sig.starts_with(&k.sig_prefix)) {
                *known_seen.entry(k).or_default() += 1;
                continue;
            }
            if reported {
                continue;
            }
            reported = true;
            eprintln!("facet {}: case {i} fails: [{}] {}", f.name, e.sig, e.msg);
            let (small, fl, used) = shrink(f, data.clone(), &e.sig);
            let (small, fl) = if known.iter().any(|k| fl.sig.starts_with(&k.sig_prefix)) || fl.sig == "flaky" {
                (data, e)
            } else {
                (small, fl)
            };
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.json", c.property, f.name, i));
            let (rec, _) = eval(f, &small);
            let doc = json!({
                "property": c.property, "facet": f.name, "case_index": i, "seed": seed,
                "shrink_steps": used, "signature": fl.sig, "failure": fl.msg,
                "case": rec.sample, "choices": small,
                "replay": format!("/verif/run.sh replay {}", path.display()),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("facet={} signature={}", f.name, fl.sig.replace('\n', " "));
            println!("failure: {}", fl.msg);
            if let Some(x) = &rec.sample {
                println!("minimal case: {x}");
            }
            println!("VIOLATION property={} replay={}", c.property, path.display());
            violations.push(path.display().to_string());
        }
        tot_eval += s.evals;
        tot_nontriv += s.keys.len() as u64;
        let mut sm = s.samples;
        sm.sort_by_key(|x| x.0);
        for (_, x) in sm.iter().take(3) {
            let mut x = x.clone();
            if x.len() > 1500 {
                let mut n = 1500;
                while !x.is_char_boundary(n) {
                    n -= 1;
                }
                x.truncate(n);
                x.push_str("...");
            }
            samples.push(json!({"facet": f.name, "case": x}));
        }
        facets_json.insert(
            f.name.into(),
            json!({
                "rule": f.rule, "cases": s.cases, "evaluations": s.evals,
                "distinct_nontrivial": s.keys.len(), "planned": n, "labels": s.labels,
                "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
            }),
        );
        eprintln!(
            "{} {}: {} cases ({} evaluations, {} distinct non-trivial) in {:.1?}",
            c.property,
            f.name,
            s.cases,
            s.evals,
            s.keys.len(),
            t0.elapsed()
        );
        if std::env::var("ZKVP_LABELS").is_ok() {
            for (l, n) in &s.labels {
                eprintln!("    {l}: {n}");
            }
        }
    }
    for (i, k) in known.iter().enumerate() {
        println!(
            "KNOWN-FINDING: property={} {} (seen in {} generated cases of this run)",
            c.property,
            k.what,
            known_seen.get(&i).copied().unwrap_or(0)
        );
    }
    let rule = c
        .facets
        .iter()
        .map(|f| format!("{}: {}", f.name, f.rule))
        .collect::<Vec<_>>()
        .join(" | ");
    let ev = json!({
        "property": c.property, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed,
        "level": c.level,
        "coverage": {
            "evaluations": tot_eval, "distinct_nontrivial": tot_nontriv, "rule": rule,
            "samples": samples, "facets": facets_json, "stopped_by_time_budget": inconclusive,
        },
        "assumptions": c.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations.len(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", c.property)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    if violations.is_empty() {
        println!(
            "OK property={} evaluations={} distinct_nontrivial={} wall_s={:.1}",
            c.property,
            tot_eval,
            tot_nontriv,
            start.elapsed().as_secs_f64()
        );
        0
    } else {
        1
    }
}

pub fn replay(path: &str, checks: impl Fn(&str) -> Option<Check>) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let facet = v["facet"].as_str().unwrap();
    let choices: Vec<u32> = serde_json::from_value(v["choices"].clone()).unwrap();
    let c = checks(prop).expect("unknown property");
    let f = c.facets.iter().find(|f| f.name == facet).expect("unknown facet");
    let (rec, r) = eval(f, &choices);
    if let Some(s) = rec.sample {
        println!("case: {s}");
    }
    for l in rec.labels {
        println!("label: {l}");
    }
    match r {
        Ok(()) => {
            println!("replay: the case passes");
            0
        }
        Err(e) => {
            println!("replay: [{}] {}", e.sig, e.msg);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}
