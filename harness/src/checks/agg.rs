//! C10: aggregations of proofs claim nothing that their parts do not.
//!
//! The layers run over a stub in place of the root circuit: a circuit of the
//! same shape that proves any public values. What a layer has to require of its
//! children is written here as relations between flat public values.
use std::sync::OnceLock;

use evm_arithmetization::fixed_recursive_verifier::{AllRecursiveCircuits, RecursionConfig};
use evm_arithmetization::verif_hooks::{evm_constants, kernel_code_fresh, kernel_labels};
use plonky2::field::polynomial::PolynomialValues;
use plonky2::fri::oracle::PolynomialBatch;
use plonky2::util::timing::TimingTree;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::PoseidonHash;
use plonky2::plonk::circuit_data::{CircuitData, VerifierOnlyCircuitData};
use plonky2::plonk::config::{Hasher, PoseidonGoldilocksConfig};
use plonky2::plonk::proof::ProofWithPublicInputs;

use super::pubvals::*;
use crate::fw::*;

type C = PoseidonGoldilocksConfig;
type All = AllRecursiveCircuits<F, C, 2>;
type Proof = ProofWithPublicInputs<F, C, 2>;
type Key = VerifierOnlyCircuitData<C, 2>;

/// Degree of the stub: the least that holds the layers.
const DEGREE: usize = 12;
/// Degree of the stub where the layers do not verify its proofs: the least that
/// holds the public inputs.
const LITTLE: usize = 9;
/// Number of elements of the final public values.
const FINAL: usize = 25;

/// The aggregation circuits, and what takes the place of their children.
struct Rig {
    all: All,
    wrapper: CircuitData<F, C, 2>,
    /// Whether the circuits verify the proofs of the children.
    verifies: bool,
    /// A proof of a child of the first layers, and one of the last layer.
    any: [Proof; 2],
    /// The keys of the stubs.
    keys: [Vec<F>; 2],
    /// Circuits like the stubs, with other keys.
    others: Vec<CircuitData<F, C, 2>>,
}
/// `verifies`: the complete circuits; otherwise only the relations between public
/// inputs.
fn rig(verifies: bool) -> &'static Rig {
    static L: OnceLock<Rig> = OnceLock::new();
    static N: OnceLock<Rig> = OnceLock::new();
    let cell = if verifies { &L } else { &N };
    cell.get_or_init(|| {
        let config = RecursionConfig::test_config();
        let (all, wrapper) = match verifies {
            true => All::verif_stub(DEGREE, config, true),
            false => All::verif_relations(LITTLE, config),
        };
        let any = [&all.root.circuit, &wrapper].map(|x| {
            let zeros = vec![F::ZERO; x.prover_only.public_inputs.len()];
            All::verif_stub_proof(x, &zeros).expect("a stub proof")
        });
        let keys = [&all.root.circuit, &wrapper].map(|x| key_elements(&x.verifier_only));
        let others = match verifies {
            true => [&all.root.circuit, &wrapper]
                .map(|x| All::verif_other_stub(&x.common))
                .into(),
            false => vec![],
        };
        Rig {
            all,
            wrapper,
            verifies,
            any,
            keys,
            others,
        }
    })
}
fn key_elements(x: &Key) -> Vec<F> {
    let mut v = x.circuit_digest.elements.to_vec();
    v.extend(x.constants_sigmas_cap.0.iter().flat_map(|h| h.elements));
    v
}
impl Rig {
    fn stub(&self, layer: Layer) -> &CircuitData<F, C, 2> {
        if layer == Pair { &self.wrapper } else { &self.all.root.circuit }
    }
    fn key(&self, layer: Layer) -> &[F] {
        &self.keys[(layer == Pair) as usize]
    }
    /// The public inputs of a child.
    fn inputs(&self, layer: Layer, values: &[F], key: &[F]) -> Vec<F> {
        let mut x = values.to_vec();
        x.resize(self.stub(layer).prover_only.public_inputs.len() - key.len(), F::ZERO);
        x.extend(key);
        x
    }
    /// A child with these public inputs, whatever it proves.
    fn child(&self, layer: Layer, inputs: Vec<F>) -> Proof {
        let mut x = self.any[(layer == Pair) as usize].clone();
        x.public_inputs = inputs;
        x
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Layer {
    Segments,
    Batches,
    Blocks,
    Wrapper,
    Pair,
}
use Layer::*;

/// One claim of a layer: the public values of the children, the flags, and the
/// public values of the result.
///
/// Flags: Segments (lhs is agg, rhs is agg, rhs is dummy), Batches and Pair (lhs
/// is agg, rhs is agg), Blocks (has parent).
#[derive(Clone)]
struct Claim {
    layer: Layer,
    kids: Vec<Vec<F>>,
    flags: Vec<bool>,
    /// The children (by index) that claim to belong to circuits with another
    /// verification key, and which element of the key is another one.
    keys: Vec<(usize, usize)>,
    out: Vec<F>,
}

fn empty_trie() -> Vec<F> {
    // keccak(rlp(""))
    let x: [u8; 32] = keccak_hash::keccak([0x80]).0;
    (0..8)
        .map(|i| {
            let k = 28 - 4 * i;
            F::from_canonical_u32(u32::from_be_bytes(x[k..k + 4].try_into().unwrap()))
        })
        .collect()
}
fn poseidon(x: &[F]) -> Vec<F> {
    PoseidonHash::hash_no_pad(x).elements.to_vec()
}

fn get<'a>(x: &'a [F], name: &str) -> &'a [F] {
    &x[part(name)]
}
fn put(x: &mut [F], name: &str, v: &[F]) {
    x[part(name)].copy_from_slice(v)
}
const ROOTS_BEFORE: std::ops::Range<usize> = 0..24;
const ROOTS_AFTER: std::ops::Range<usize> = 24..48;
fn upto(a: &str, b: &str) -> std::ops::Range<usize> {
    part(a).start..part(b).end
}
fn meta() -> std::ops::Range<usize> {
    upto("beneficiary", "bloom")
}
fn hash_range() -> std::ops::Range<usize> {
    upto("previous hashes", "current hash")
}
fn extra_range() -> std::ops::Range<usize> {
    upto("checkpoint root", "gas after")
}
fn regs_before() -> std::ops::Range<usize> {
    upto("before: pc", "before: gas")
}
fn regs_after() -> std::ops::Range<usize> {
    upto("after: pc", "after: gas")
}

struct Broken(Vec<String>);
impl Broken {
    fn eq(&mut self, what: &str, a: &[F], b: &[F]) {
        if a != b {
            self.0.push(what.to_string());
        }
    }
    fn range(&mut self, what: &str, r: std::ops::Range<usize>, a: &[F], b: &[F]) {
        let mut last = "";
        for i in r {
            if a[i] != b[i] && part_of(i) != last {
                last = part_of(i);
                self.0.push(format!("{what}, {last}"));
            }
        }
    }
}

impl Claim {
    /// What the claim gets wrong.
    fn broken(&self, verifies: bool) -> Vec<String> {
        let mut b = Broken(vec![]);
        let out = &self.out;
        for &(k, _) in &self.keys {
            let matters = match self.layer {
                // a root proof has none, a wrapped block has no use for it
                Segments | Pair => self.flags[k] && verifies,
                Batches => !self.flags[k] || verifies,
                Blocks => k == 1 || self.flags[0] && verifies,
                Wrapper => true,
            };
            if matters {
                b.0.push(format!("the key of child {k}"));
            }
        }
        match self.layer {
            Segments => {
                let (l, r) = (&self.kids[0], &self.kids[1]);
                let dummy = self.flags[2];
                let shared = 0..extra_range().end;
                b.range("result and left", shared.clone(), out, l);
                b.range("result and left", regs_before(), out, l);
                b.range("result and left", part("memory before"), out, l);
                if dummy {
                    if self.flags[0] {
                        b.0.push("aggregation next to a dummy".into());
                    }
                    b.range("result and left", regs_after(), out, l);
                    b.range("result and left", part("memory after"), out, l);
                } else {
                    b.range("result and right", shared, out, r);
                    b.range("result and right", regs_after(), out, r);
                    b.range("result and right", part("memory after"), out, r);
                    b.eq("registers between segments", &l[regs_after()], &r[regs_before()]);
                    b.eq(
                        "memory between segments",
                        get(l, "memory after"),
                        get(r, "memory before"),
                    );
                }
            }
            Batches => {
                let (l, r) = (&self.kids[0], &self.kids[1]);
                for x in [l, r] {
                    b.range("metadata", meta(), out, x);
                    b.range("hashes", hash_range(), out, x);
                    for n in ["checkpoint root", "checkpoint hash"] {
                        b.eq(n, get(out, n), get(x, n));
                    }
                    let is = |n: &str| get(x, n)[0].to_canonical_u64();
                    for (n, want) in [
                        ("before: pc", kernel_labels()["main"] as u64),
                        ("after: pc", kernel_labels()["halt"] as u64),
                        ("before: kernel", 1),
                        ("after: kernel", 1),
                        ("before: stack length", 0),
                        ("after: stack length", 0),
                        ("before: context", 0),
                        ("after: context", 0),
                        ("before: gas", 0),
                    ] {
                        if is(n) != want {
                            b.0.push(format!("of a batch, {n}"));
                        }
                    }
                    b.eq("initial memory", get(x, "memory before"), initial_memory());
                }
                b.eq("first roots", &out[ROOTS_BEFORE], &l[ROOTS_BEFORE]);
                b.eq("roots between batches", &l[ROOTS_AFTER], &r[ROOTS_BEFORE]);
                b.eq("last roots", &out[ROOTS_AFTER], &r[ROOTS_AFTER]);
                for (x, y) in [
                    ("transactions before", "transactions after"),
                    ("gas before", "gas after"),
                ] {
                    b.eq(x, get(out, x), get(l, x));
                    b.eq(&format!("{x} of the right"), get(l, y), get(r, x));
                    b.eq(y, get(out, y), get(r, y));
                }
                b.eq("first registers", &out[regs_before()], &l[regs_before()]);
                b.eq("last registers", &out[regs_after()], &r[regs_after()]);
            }
            Blocks => {
                let (p, a) = (&self.kids[0], &self.kids[1]);
                b.range("roots before the range", ROOTS_BEFORE, out, p);
                b.range("result and block", ROOTS_AFTER, out, a);
                b.range("result and block", meta(), out, a);
                b.range("result and block", hash_range(), out, a);
                b.range("result and block", extra_range(), out, a);
                b.eq(
                    "state between blocks",
                    get(p, "roots after: state"),
                    get(a, "roots before: state"),
                );
                for n in ["roots before: transactions", "roots before: receipts"] {
                    b.eq(n, get(a, n), &empty_trie());
                }
                for n in ["checkpoint root", "checkpoint hash"] {
                    b.eq(n, get(p, n), get(a, n));
                }
                b.eq("number", &[get(p, "number")[0] + F::ONE], get(a, "number"));
                let later = get(a, "timestamp")[0] - get(p, "timestamp")[0];
                if later.to_canonical_u64() >> 32 != 0 {
                    b.0.push("timestamp".into());
                }
                for n in ["transactions before", "gas before"] {
                    b.eq(n, get(a, n), &[F::ZERO]);
                }
                b.eq("gas used", get(a, "gas used"), get(a, "gas after"));
                b.eq(
                    "hashes between blocks",
                    &p[hash_range()][8..],
                    get(a, "previous hashes"),
                );
                if self.flags[0] {
                    b.eq("chain id", get(p, "chain id"), get(a, "chain id"));
                } else {
                    b.eq(
                        "first state and checkpoint",
                        get(a, "roots before: state"),
                        get(a, "checkpoint root"),
                    );
                    b.eq(
                        "first hashes and checkpoint",
                        get(a, "checkpoint hash"),
                        &poseidon(get(a, "previous hashes")),
                    );
                    b.range("roots before the first block", ROOTS_BEFORE, out, a);
                }
            }
            Wrapper => {
                let x = &self.kids[0];
                b.eq("chain id", &out[..1], get(x, "chain id"));
                b.eq("first state", &out[1..9], get(x, "roots before: state"));
                b.eq("checkpoint", &out[1..9], get(x, "checkpoint root"));
                b.eq("last state", &out[9..17], get(x, "roots after: state"));
                b.eq("checkpoint hash", &out[17..21], get(x, "checkpoint hash"));
                b.eq("last hashes", &out[21..25], &poseidon(&x[hash_range()][8..]));
            }
            Pair => {
                b.eq("hash", &out[..4], &self.honest(false)[..4]);
                b.eq("padding", &out[4..], &[F::ZERO; FINAL - 4]);
            }
        }
        b.0
    }

    /// The result that the children give; `right`: what all share comes from the
    /// last child instead of the first.
    fn honest(&self, right: bool) -> Vec<F> {
        let l = &self.kids[0];
        let r = self.kids.last().unwrap();
        match self.layer {
            Segments => {
                let dummy = self.flags[2];
                let mut x = if right && !dummy { r } else { l }.clone();
                let last = if dummy { l } else { r };
                x[regs_before()].copy_from_slice(&l[regs_before()]);
                x[regs_after()].copy_from_slice(&last[regs_after()]);
                put(&mut x, "memory before", get(l, "memory before"));
                put(&mut x, "memory after", get(last, "memory after"));
                x
            }
            Batches => {
                let mut x = if right { r } else { l }.clone();
                x[ROOTS_BEFORE].copy_from_slice(&l[ROOTS_BEFORE]);
                x[ROOTS_AFTER].copy_from_slice(&r[ROOTS_AFTER]);
                x[regs_before()].copy_from_slice(&l[regs_before()]);
                x[regs_after()].copy_from_slice(&r[regs_after()]);
                for n in ["transactions before", "gas before"] {
                    put(&mut x, n, get(l, n));
                }
                for n in ["transactions after", "gas after"] {
                    put(&mut x, n, get(r, n));
                }
                x
            }
            Blocks => {
                let mut x = r.clone();
                let first = if right && !self.flags[0] { r } else { l };
                x[ROOTS_BEFORE].copy_from_slice(&first[ROOTS_BEFORE]);
                x
            }
            Wrapper => [
                get(l, "chain id"),
                get(l, if right { "checkpoint root" } else { "roots before: state" }),
                get(l, "roots after: state"),
                get(l, "checkpoint hash"),
                &poseidon(&l[hash_range()][8..]),
            ]
            .concat(),
            Pair => {
                let h: Vec<F> = (0..2)
                    .flat_map(|i| match self.flags[i] {
                        true => self.kids[i][..4].to_vec(),
                        false => poseidon(&self.kids[i]),
                    })
                    .collect();
                let mut x = poseidon(&h);
                x.resize(FINAL, F::ZERO);
                x
            }
        }
    }

    /// The public inputs of the children.
    fn inputs(&self, rig: &Rig) -> Vec<Vec<F>> {
        self.kids
            .iter()
            .enumerate()
            .map(|(i, values)| {
                let mut key = rig.key(self.layer).to_vec();
                for x in &self.keys {
                    if x.0 == i {
                        key[x.1] += F::ONE;
                    }
                }
                rig.inputs(self.layer, values, &key)
            })
            .collect()
    }

    /// Whether the circuit accepts the claim for these children (as far as
    /// witness generation tells, or with a proof).
    fn run(&self, rig: &Rig, kids: &[Proof], prove: bool) -> Result<(), String> {
        let all = &rig.all;
        let key = &rig.stub(self.layer).verifier_only;
        let kid = |i: usize| (&kids[i], self.flags[i]);
        let out = &self.out;
        let r = guarded(|| {
            let (p, circuit) = match self.layer {
                Segments => (
                    all.verif_segment_aggregation(kid(0), kid(1), self.flags[2], out, key, prove),
                    &all.segment_aggregation.circuit,
                ),
                Batches => (
                    all.verif_batch_aggregation(kid(0), kid(1), out, key, prove),
                    &all.batch_aggregation.circuit,
                ),
                Blocks => {
                    let parent = match self.flags[0] {
                        true => Ok(&kids[0]),
                        false => Err(&self.kids[0][..]),
                    };
                    (
                        all.verif_block(parent, &kids[1], out, key, prove),
                        &all.block.circuit,
                    )
                }
                Wrapper => (
                    all.verif_block_wrapper(&kids[0], out, prove),
                    &all.block_wrapper.circuit,
                ),
                Pair => (
                    all.verif_two_to_one_block(kid(0), kid(1), out, key, prove),
                    &all.two_to_one_block.circuit,
                ),
            };
            let p = p.map_err(|e| e.to_string())?;
            if let Some(p) = p {
                if p.public_inputs[..out.len()] != out[..] {
                    return Err("proves other public values".into());
                }
                circuit.verify(p).map_err(|e| e.to_string())?;
            }
            Ok(())
        });
        match r {
            Ok(x) => x,
            Err(p) => Err(format!("panic: {p}")),
        }
    }

    /// Children with these public inputs, whatever they prove.
    fn unproved(&self, rig: &Rig) -> Vec<Proof> {
        self.inputs(rig).into_iter().map(|x| rig.child(self.layer, x)).collect()
    }
    fn prove_kid(&self, i: usize, rig: &Rig) -> Proof {
        let x = self.inputs(rig).swap_remove(i);
        if self.layer == Blocks && i == 0 && !self.flags[0] {
            return rig.child(self.layer, x);
        }
        All::verif_stub_proof(rig.stub(self.layer), &x).expect("a stub proof")
    }
    fn prove_kids(&self, rig: &Rig) -> Vec<Proof> {
        (0..self.kids.len()).map(|i| self.prove_kid(i, rig)).collect()
    }

    /// Compares the circuit and the relations.
    fn judge(
        &self,
        rig: &Rig,
        kids: &[Proof],
        prove: bool,
        rec: &mut Rec,
        about: &str,
    ) -> Result<(), Fail> {
        rec.evals += 1;
        let broken = self.broken(rig.verifies);
        let got = self.run(rig, kids, prove);
        let layer = format!("{:?}", self.layer).to_lowercase();
        match (broken.is_empty(), got) {
            (true, Err(e)) => fail(
                format!("{layer}: refused"),
                format!("{about}: a claim that satisfies all the relations (flags {:?}) is refused: {e}", self.flags),
            ),
            (false, Ok(())) => {
                if !prove && self.run(rig, kids, true).is_err() {
                    rec.label("refused by a proof only");
                    return Ok(());
                }
                fail(
                    format!("{layer}: {}", broken[0]),
                    format!(
                        "{about}: there is a valid proof of a claim that breaks {} (flags {:?})",
                        broken.join("; "),
                        self.flags
                    ),
                )
            }
            (ok, _) => {
                rec.label(match ok {
                    true => "accepted",
                    false if broken.len() == 1 => "refused for one reason",
                    false => "refused",
                });
                Ok(())
            }
        }
    }
}

/// The commitment to what memory holds before a batch: the code of the kernel and
/// the powers of two.
fn initial_memory() -> &'static [F] {
    static X: OnceLock<Vec<F>> = OnceLock::new();
    X.get_or_init(|| {
        let config = RecursionConfig::test_config().stark_config.fri_config;
        let code = kernel_code_fresh().0;
        let shift = (evm_constants()["SEGMENT_SHIFT_TABLE"] >> 32).as_u64();
        // in use, context, segment, offset, 8 limbs
        let mut rows: Vec<[u64; 12]> = code
            .iter()
            .enumerate()
            .map(|(i, &b)| [1, 0, 0, i as u64, b as u64, 0, 0, 0, 0, 0, 0, 0])
            .collect();
        for i in 0..256 {
            let mut row = [1, 0, shift, i, 0, 0, 0, 0, 0, 0, 0, 0];
            row[4 + i as usize / 32] = 1 << (i % 32);
            rows.push(row);
        }
        rows.resize(rows.len().next_power_of_two(), [0; 12]);
        let columns = (0..12)
            .map(|i| {
                PolynomialValues::new(rows.iter().map(|r| F::from_canonical_u64(r[i])).collect())
            })
            .collect();
        let batch = PolynomialBatch::<F, C, 2>::from_values(
            columns,
            config.rate_bits,
            false,
            config.cap_height,
            &mut TimingTree::default(),
            None,
        );
        batch.merkle_tree.cap.0.iter().flat_map(|x| x.elements).collect()
    })
}

fn valid(layer: Layer, s: &mut Src) -> Claim {
    let mut c = Claim {
        layer,
        kids: vec![],
        flags: vec![],
        keys: vec![],
        out: vec![],
    };
    let mut l = flat(&any(s));
    let mut r = flat(&any(s));
    match layer {
        Segments => {
            let dummy = s.chance(1, 4);
            c.flags = vec![!dummy && s.bool(), s.bool(), dummy];
            if !dummy {
                let n = extra_range().end;
                r[..n].copy_from_slice(&l[..n]);
                let x = l[regs_after()].to_vec();
                r[regs_before()].copy_from_slice(&x);
                let x = get(&l, "memory after").to_vec();
                put(&mut r, "memory before", &x);
            }
        }
        Batches => {
            c.flags = vec![s.bool(), s.bool()];
            for x in [&mut l, &mut r] {
                for n in ["before", "after"] {
                    put(x, &format!("{n}: kernel"), &[F::ONE]);
                    put(x, &format!("{n}: stack length"), &[F::ZERO]);
                    put(x, &format!("{n}: context"), &[F::ZERO]);
                }
                put(x, "before: gas", &[F::ZERO]);
                for (n, k) in [("before", "main"), ("after", "halt")] {
                    let pc = F::from_canonical_usize(kernel_labels()[k]);
                    put(x, &format!("{n}: pc"), &[pc]);
                }
                put(x, "memory before", initial_memory());
            }
            r[meta().start..hash_range().end].copy_from_slice(&l[meta().start..hash_range().end]);
            for n in ["checkpoint root", "checkpoint hash"] {
                let x = get(&l, n).to_vec();
                put(&mut r, n, &x);
            }
            for (a, b) in [
                ("transactions after", "transactions before"),
                ("gas after", "gas before"),
            ] {
                let x = get(&l, a).to_vec();
                put(&mut r, b, &x);
            }
            let x = l[ROOTS_AFTER].to_vec();
            r[ROOTS_BEFORE].copy_from_slice(&x);
        }
        Blocks => {
            c.flags = vec![s.bool()];
            let (p, a) = (&mut l, &mut r);
            let x = get(a, "previous hashes").to_vec();
            p[hash_range()][8..].copy_from_slice(&x);
            if c.flags[0] {
                let x = get(p, "chain id").to_vec();
                put(a, "chain id", &x);
            } else {
                let h = poseidon(&x);
                put(p, "checkpoint hash", &h);
                let x = get(p, "roots after: state").to_vec();
                put(p, "checkpoint root", &x);
            }
            for (x, y) in [
                ("roots after: state", "roots before: state"),
                ("checkpoint root", "checkpoint root"),
                ("checkpoint hash", "checkpoint hash"),
                ("number", "number"),
                ("timestamp", "timestamp"),
            ] {
                let v = get(p, x).to_vec();
                put(a, y, &v);
            }
            a[part("number").start] += F::ONE;
            let t = [0, 1, 12, u32::MAX, s.u64() as u32];
            a[part("timestamp").start] += F::from_canonical_u32(s.pick(&t));
            for n in ["roots before: transactions", "roots before: receipts"] {
                put(a, n, &empty_trie());
            }
            put(a, "transactions before", &[F::ZERO]);
            put(a, "gas before", &[F::ZERO]);
            let x = get(a, "gas used").to_vec();
            put(a, "gas after", &x);
            if !c.flags[0] {
                p[ROOTS_BEFORE].copy_from_slice(&a[ROOTS_BEFORE]);
            }
        }
        Wrapper => {
            let x = get(&l, "roots before: state").to_vec();
            put(&mut l, "checkpoint root", &x);
            c.kids = vec![l];
            c.out = c.honest(false);
            return c;
        }
        Pair => {
            c.flags = vec![s.bool(), s.bool()];
            for x in [&mut l, &mut r] {
                *x = (0..FINAL).map(|_| F::from_canonical_u64(element(s))).collect();
            }
            if s.chance(1, 6) {
                r = l.clone();
            }
        }
    }
    c.kids = vec![l, r];
    c.out = c.honest(false);
    c
}

/// Changes one part of flat public values; returns its name.
fn mutate(s: &mut Src, x: &mut [F], other: &[F], from: Option<usize>) -> String {
    // where: a part, then an element of it
    let (name, range) = if x.len() == FINAL {
        let i = from.unwrap_or(s.below(FINAL)) % FINAL;
        (format!("element {i}"), i..i + 1)
    } else {
        let p = from.unwrap_or_else(|| s.below(PARTS.len())) % PARTS.len();
        (PARTS[p].0.to_string(), part(PARTS[p].0))
    };
    let n = range.len();
    let at = range.start + [0, n - 1, s.below(n), s.below(n)][s.below(4)];
    match s.below(7) {
        0 => x[at] += F::ONE,
        1 => x[at] = F::from_canonical_u64(element(s)),
        2 if x[at] != F::ZERO => x[at] = F::ZERO,
        3 if other[range.clone()] != x[range.clone()] => {
            x[range.clone()].copy_from_slice(&other[range])
        }
        4 => x[at] += F::from_canonical_u64(1 << 32),
        5 => {
            let k = at - range.start;
            let y = range.start + (k + 1 + s.below(n)) % n;
            if x[y] != x[at] {
                x.swap(at, y);
            } else {
                x[at] += F::TWO;
            }
        }
        _ => x[at] -= F::ONE,
    }
    name
}

/// The relations between public inputs, on their own.
fn layer(s: &mut Src, rec: &mut Rec, layer: Layer) -> Result<(), Fail> {
    let rig = rig(false);
    let base = valid(layer, s);
    rec.label(format!("flags {:?}", base.flags));
    rec.sample(format!(
        "{layer:?}, flags {:?}, result starts with {:?}",
        base.flags,
        &nums(&base.out)[..6]
    ));
    rec.nontrivial(&nums(&base.out));
    let mut judge = |c: &Claim, prove: bool, about: &str| {
        c.judge(rig, &c.unproved(rig), prove, rec, about)
    };
    judge(&base, s.chance(1, 8), "unchanged")?;

    // the claimed result is changed
    let n = base.out.len();
    let first = s.below(PARTS.len());
    for i in 0..12 {
        let mut c = base.clone();
        let other = match n {
            FINAL => base.honest(true),
            _ => base.kids[s.below(base.kids.len())].clone(),
        };
        let name = mutate(s, &mut c.out, &other, Some(first + 7 * i));
        judge(&c, false, &format!("result changed ({name})"))?;
    }
    // the flags are changed
    for i in 0..base.flags.len() {
        let mut c = base.clone();
        c.flags[i] = !c.flags[i];
        for right in [false, true] {
            c.out = c.honest(right);
            judge(&c, false, "flag changed")?;
        }
    }
    // a child is changed, and the result follows or not
    for i in 0..8 {
        let mut c = base.clone();
        let k = s.below(c.kids.len());
        let other = match base.kids[k].len() {
            FINAL => base.kids[1 - k].clone(),
            _ => flat(&any(s)),
        };
        let other = if s.bool() { other } else { base.kids[base.kids.len() - 1 - k].clone() };
        let name = mutate(s, &mut c.kids[k], &other, Some(first + 7 * i + 3));
        let about = format!("child {k} changed ({name})");
        let mut outs = vec![base.out.clone()];
        for right in [false, true] {
            let o = c.honest(right);
            if !outs.contains(&o) {
                outs.push(o);
            }
        }
        for o in outs {
            c.out = o;
            judge(&c, false, &about)?;
        }
    }
    // a child has another key
    for k in 0..base.kids.len() {
        let mut c = base.clone();
        c.keys = vec![(k, s.below(rig.key(layer).len()))];
        judge(&c, false, "key changed")?;
    }
    Ok(())
}

/// The complete circuits: the proofs of the children count.
fn proofs(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    let rig = rig(true);
    let layer = s.pick(&[Segments, Batches, Blocks, Wrapper, Pair]);
    let base = valid(layer, s);
    let kids = base.prove_kids(rig);
    rec.label(format!("{layer:?}"));
    rec.sample(format!("{layer:?}, flags {:?}", base.flags));
    base.judge(rig, &kids, true, rec, "proofs of the children")?;
    let name = format!("{layer:?}").to_lowercase();

    // which children the circuit looks at
    let seen: Vec<usize> = (0..kids.len())
        .filter(|&k| match layer {
            Segments => k == 0 || !base.flags[2] || base.flags[1],
            Blocks => k == 1 || base.flags[0],
            _ => true,
        })
        .collect();
    let mut trials: Vec<(String, Claim, Vec<Proof>)> = vec![];
    for &k in &seen {
        // the right public inputs, and the proof of others
        let mut x = kids.clone();
        x[k] = rig.child(layer, kids[k].public_inputs.clone());
        trials.push((format!("unproved child {k}"), base.clone(), x));
        // a proof with one other element
        let mut x = kids.clone();
        let what = damage(s, &mut x[k]);
        trials.push((format!("child {k}: {what}"), base.clone(), x));
        // of another circuit
        if s.bool() {
            let mut x = kids.clone();
            let stub = &rig.others[(layer == Pair) as usize];
            x[k] = All::verif_stub_proof(stub, &kids[k].public_inputs).expect("a stub proof");
            stub.verify(x[k].clone()).expect("a valid proof");
            trials.push((format!("child {k} of another circuit"), base.clone(), x));
        }
        // one that claims another key
        if s.bool() {
            continue;
        }
        let mut c = base.clone();
        c.keys = vec![(k, s.below(rig.key(layer).len()))];
        let mut x = kids.clone();
        x[k] = c.prove_kid(k, rig);
        if c.broken(true).is_empty() {
            c.judge(rig, &x, false, rec, "key without a meaning")?;
        } else {
            trials.push((format!("child {k} with another key"), c, x));
        }
    }
    for _ in 0..4.min(trials.len()) {
        let (about, c, x) = trials.swap_remove(s.below(trials.len()));
        rec.evals += 1;
        let got = c.run(rig, &x, false).and_then(|_| c.run(rig, &x, true));
        if got.is_ok() {
            return fail(
                format!("{name}: {}", about.trim_end_matches(|x: char| x.is_numeric())),
                format!("{about} (flags {:?}): there is a valid proof of the result", c.flags),
            );
        }
        rec.label(format!("refused: {about}"));
        rec.nontrivial(&nums(&base.out));
    }
    Ok(())
}

/// Changes one element of a proof.
fn damage(s: &mut Src, p: &mut Proof) -> &'static str {
    let p = &mut p.proof;
    let n = s.below(1000);
    match s.below(7) {
        0 => {
            let cap = &mut p.wires_cap.0;
            let k = cap.len();
            cap[n % k].elements[n / 7 % 4] += F::ONE;
            "wires"
        }
        1 => {
            let cap = &mut p.quotient_polys_cap.0;
            let k = cap.len();
            cap[n % k].elements[n / 7 % 4] += F::ONE;
            "quotient"
        }
        2 => {
            let x = &mut p.openings.wires;
            let k = x.len();
            x[n % k].0[n / 7 % 2] += F::ONE;
            "opened wires"
        }
        3 => {
            let x = &mut p.openings.plonk_zs_next;
            let k = x.len();
            x[n % k].0[n / 7 % 2] += F::ONE;
            "opened products"
        }
        4 => {
            let x = &mut p.opening_proof.final_poly.coeffs;
            let k = x.len();
            x[n % k].0[n / 7 % 2] += F::ONE;
            "final polynomial"
        }
        5 => {
            let x = &mut p.opening_proof.query_round_proofs;
            let k = x.len();
            let x = &mut x[n % k].initial_trees_proof.evals_proofs;
            let k = x.len();
            x[n / 7 % k].0[0] += F::ONE;
            "leaf"
        }
        _ => {
            p.openings.constants[0].0[0] += F::ONE;
            "opened constants"
        }
    }
}

fn segments(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    layer(s, rec, Segments)
}
fn batches(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    layer(s, rec, Batches)
}
fn blocks(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    layer(s, rec, Blocks)
}
fn wrapper(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    layer(s, rec, Wrapper)
}
fn pair(s: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    layer(s, rec, Pair)
}

const RELATIONS: &str = "a satisfied claim was accepted, and changed ones (other results, \
    flags, children and keys, about 30 per case) were judged against the relations";
const PROOFS: &str = "a child that is not proved, or not by the right circuit, was refused";

pub fn c10() -> Check {
    // not in a case: building uses all of the threads
    rig(false);
    rig(true);
    Check {
        property: "C10",
        level: "exploration",
        assumptions: vec![],
        facets: vec![
            Facet::new("segments", RELATIONS, 80, 4000, 600, segments),
            Facet::new("batches", RELATIONS, 80, 4000, 600, batches),
            Facet::new("blocks", RELATIONS, 80, 4000, 600, blocks),
            Facet::new("wrapper", RELATIONS, 80, 4000, 600, wrapper),
            Facet::new("pair", RELATIONS, 80, 4000, 600, pair),
            Facet::new("proofs", PROOFS, 20, 400, 600, proofs).limit(240),
        ],
    }
}
