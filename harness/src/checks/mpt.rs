//! C12: MPT as an ordered map with the Ethereum root. C13: partial tries.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::H256;
use mpt_trie::builder::PartialTrieBuilder;
use mpt_trie::debug_tools::diff::create_full_diff_between_tries;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie, StandardTrie};
use mpt_trie::special_query::path_for_query;
use mpt_trie::trie_ops::ValOrHash;
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use mpt_trie::utils::{IntoTrieKey, TryFromIterator};

use crate::fw::*;
use crate::refevm::mpt::{self, Map, RNode};
use crate::refevm::rlp;
use crate::{ensure_eq_prop, ensure_prop};

pub fn nib(k: &[u8]) -> Nibbles {
    let mut n = Nibbles::default();
    for x in k {
        n.push_nibble_back(*x);
    }
    n
}

pub fn unnib(n: &Nibbles) -> Vec<u8> {
    (0..n.count).map(|i| n.get_nibble(i)).collect()
}

/// A pool of keys, none a proper prefix of another (as all Ethereum tries have).
pub fn key_pool(s: &mut Src, n: usize) -> (Vec<Vec<u8>>, &'static str) {
    let kind = s.weighted(&[4, 3, 3, 2, 2]);
    let mut out: BTreeSet<Vec<u8>> = BTreeSet::new();
    let name = match kind {
        0 | 4 => {
            // fixed length, few distinct nibbles: deep shared prefixes
            let len = if kind == 4 { 64 } else { s.range(1, 8) };
            let alpha = s.range(2, 4);
            let mut base: Vec<u8> = (0..len).map(|_| s.below(alpha) as u8).collect();
            for _ in 0..n {
                if s.chance(1, 4) {
                    base = (0..len).map(|_| s.below(16) as u8).collect();
                }
                let mut k = base.clone();
                for _ in 0..s.range(0, 2) {
                    let i = if s.bool() { s.below(len) } else { len - 1 - s.below(len.min(3)) };
                    k[i] = if s.bool() { s.below(alpha) as u8 } else { s.below(16) as u8 };
                }
                out.insert(k);
            }
            if kind == 4 { "keys:64-nibble clustered" } else { "keys:short fixed" }
        }
        1 => {
            for _ in 0..n {
                let mut b = s.bytes(32);
                if s.chance(1, 4) {
                    let z = s.range(1, 31);
                    b[..z].iter_mut().for_each(|x| *x = 0);
                }
                out.insert(mpt::to_nibbles(&b));
            }
            "keys:32-byte"
        }
        2 => {
            // RLP-encoded indices (transaction / receipt tries)
            let big = s.chance(1, 5);
            for i in 0..n {
                let x = if big { s.below(70000) } else if s.bool() { i } else { s.below(300) };
                out.insert(mpt::to_nibbles(&rlp::uint(x.into())));
            }
            "keys:rlp index"
        }
        _ => {
            // variable length, made prefix-free by dropping offenders
            let alpha = s.range(2, 3);
            for _ in 0..n {
                let len = s.range(1, 12);
                let k: Vec<u8> = (0..len).map(|_| s.below(alpha) as u8 * 5).collect();
                if !out.iter().any(|o| o.starts_with(&k) || k.starts_with(o)) {
                    out.insert(k);
                }
            }
            "keys:variable prefix-free"
        }
    };
    (out.into_iter().collect(), name)
}

pub fn value(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[3, 3, 2, 2, 1, 1]) {
        0 => 1,
        1 => s.range(1, 8),
        2 => s.range(20, 34),
        3 => 32,
        4 => s.range(50, 60),
        _ => s.range(60, 300),
    };
    let mut v = s.bytes(n);
    if s.chance(1, 4) {
        v[0] = s.pick(&[0u8, 0x7f, 0x80, 0xc0]);
    }
    v
}

/// The structure of the trie must be the canonical one.
pub fn same_structure<N: PartialTrie>(n: &Node<N>, r: &RNode) -> Result<(), String> {
    match (n, r) {
        (Node::Empty, RNode::Empty) => Ok(()),
        (Node::Leaf { nibbles, value }, RNode::Leaf(k, v)) => {
            if unnib(nibbles) == *k && value == v {
                Ok(())
            } else {
                Err(format!("leaf {nibbles:?} {value:?} vs {k:?} {v:?}"))
            }
        }
        (Node::Extension { nibbles, child }, RNode::Ext(k, c)) => {
            if unnib(nibbles) != *k {
                return Err(format!("extension {nibbles:?} vs {k:?}"));
            }
            same_structure(child, c)
        }
        (Node::Branch { children, value }, RNode::Branch(ch, v)) => {
            if value != v {
                return Err("branch value".into());
            }
            for i in 0..16 {
                same_structure(&children[i], &ch[i])?;
            }
            Ok(())
        }
        (Node::Hash(h), r) => {
            let e = mpt::encode(r);
            if keccak_hash::keccak(&e) == *h {
                Ok(())
            } else {
                Err(format!("hash node {h:?} for {r:?}"))
            }
        }
        (n, r) => Err(format!("node {n:?} vs {r:?}")),
    }
}

fn check_full<N: PartialTrie>(t: &N, m: &Map, what: &str) -> CaseResult {
    let r = mpt::build(m);
    ensure_eq_prop!(t.hash(), mpt::root_of(&r), "root", "{what}: root of {m:?}");
    if let Err(e) = same_structure(t, &r) {
        return fail("structure", format!("{what}: not canonical: {e}; map {m:?}"));
    }
    let items: Vec<(Vec<u8>, ValOrHash)> = t.items().map(|(k, v)| (unnib(&k), v)).collect();
    let want: Vec<(Vec<u8>, ValOrHash)> =
        m.iter().map(|(k, v)| (k.clone(), ValOrHash::Val(v.clone()))).collect();
    ensure_eq_prop!(items, want, "items", "{what}: items()");
    let keys: Vec<Vec<u8>> = t.keys().map(|k| unnib(&k)).collect();
    ensure_eq_prop!(keys, m.keys().cloned().collect::<Vec<_>>(), "keys", "{what}: keys()");
    let vals: Vec<ValOrHash> = t.values().collect();
    ensure_eq_prop!(
        vals,
        m.values().map(|v| ValOrHash::Val(v.clone())).collect::<Vec<_>>(),
        "values",
        "{what}: values()"
    );
    Ok(())
}

fn map_ops<N: PartialTrie>(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let n = s.range(1, 24);
    let (pool, kn) = key_pool(s, n);
    rec.label(kn);
    let mut t = N::new(Node::Empty);
    let mut m = Map::new();
    let mut snaps: Vec<(N, Map)> = vec![];
    let mut log = vec![];
    let steps = s.range(2, 60);
    let (mut dels, mut maxlen) = (0, 0);
    for step in 0..steps {
        let k = s.pick(&pool);
        match s.weighted(&[8, 6, 3, 2, 2, 2, 1]) {
            0 => {
                let v = value(s);
                log.push(format!("insert {} ({}B)", hex::encode(&k), v.len()));
                let r = t.insert(nib(&k), v.clone());
                ensure_prop!(r.is_ok(), "insert-err", "insert failed: {r:?}; ops {log:?}");
                m.insert(k, v);
            }
            1 => {
                // prefer present keys
                let k = if !m.is_empty() && s.chance(3, 4) {
                    m.keys().nth(s.below(m.len())).unwrap().clone()
                } else {
                    k
                };
                log.push(format!("delete {}", hex::encode(&k)));
                let r = t.delete(nib(&k));
                let want = m.remove(&k);
                dels += want.is_some() as usize;
                match r {
                    Ok(got) => ensure_eq_prop!(got, want, "delete", "deleted value; ops {log:?}"),
                    Err(e) => return fail("delete-err", format!("{e}; ops {log:?}")),
                }
            }
            2 => {
                log.push(format!("get {}", hex::encode(&k)));
                let got = t.get(nib(&k)).map(|x| x.to_vec());
                ensure_eq_prop!(got, m.get(&k).cloned(), "get", "get {k:?}; ops {log:?}");
                ensure_eq_prop!(t.contains(nib(&k)), m.contains_key(&k), "contains", "contains; ops {log:?}");
            }
            3 => {
                let kv: Vec<(Vec<u8>, Vec<u8>)> =
                    (0..s.range(0, 5)).map(|_| (s.pick(&pool), value(s))).collect();
                log.push(format!("extend {}", kv.len()));
                let r = t.extend(kv.iter().map(|(k, v)| (nib(k), v.clone())));
                ensure_prop!(r.is_ok(), "extend-err", "{r:?}");
                for (k, v) in kv {
                    m.insert(k, v);
                }
            }
            4 => {
                log.push("hash".into());
                ensure_eq_prop!(t.hash(), mpt::root(&m), "root", "mid-sequence root; ops {log:?}");
            }
            5 => {
                log.push("snapshot".into());
                snaps.push((t.clone(), m.clone()));
            }
            _ => {
                if !snaps.is_empty() {
                    let i = s.below(snaps.len());
                    log.push(format!("switch to snapshot {i}"));
                    let (t2, m2) = snaps[i].clone();
                    snaps[i] = (t, m);
                    t = t2;
                    m = m2;
                }
            }
        }
        maxlen = maxlen.max(m.len());
        if step % 8 == 7 {
            check_full(&t, &m, &format!("after {log:?}"))?;
        }
    }
    check_full(&t, &m, &format!("at the end of {log:?}"))?;
    for k in &pool {
        let got = t.get(nib(k)).map(|x| x.to_vec());
        ensure_eq_prop!(got, m.get(k).cloned(), "get", "final get {k:?}; ops {log:?}");
    }
    for (i, (t, m)) in snaps.iter().enumerate() {
        check_full(t, m, &format!("snapshot {i} after {log:?}"))?;
    }
    if !snaps.is_empty() {
        rec.label("with snapshots");
    }
    // Insertion order does not matter.
    let mut kv: Vec<(&Vec<u8>, &Vec<u8>)> = m.iter().collect();
    for i in (1..kv.len()).rev() {
        let j = s.below(i + 1);
        kv.swap(i, j);
    }
    let mut t2 = N::new(Node::Empty);
    for (k, v) in kv {
        t2.insert(nib(k), v.clone()).unwrap();
    }
    ensure_prop!(t2 == t, "order", "a trie built in another order differs; ops {log:?}");
    if dels > 0 && maxlen >= 3 {
        rec.label("with deletions");
        rec.nontrivial(&log);
    }
    rec.sample(format!("{kn}: {}", log.join("; ")));
    Ok(())
}

/// Random map with the pool it was drawn from.
fn random_map(s: &mut Src, max: usize) -> (Map, Vec<Vec<u8>>, &'static str) {
    let n = s.range(1, max);
    let (pool, kn) = key_pool(s, n);
    let mut m = Map::new();
    for k in &pool {
        if !s.chance(1, 3) {
            m.insert(k.clone(), value(s));
        }
    }
    (m, pool, kn)
}

fn trie_of(m: &Map) -> HashedPartialTrie {
    HashedPartialTrie::try_from_iter(m.iter().map(|(k, v)| (nib(k), v.clone()))).unwrap()
}

fn count_hash_nodes<N: PartialTrie>(n: &Node<N>) -> usize {
    match n {
        Node::Hash(_) => 1,
        Node::Branch { children, .. } => children.iter().map(|c| count_hash_nodes(c)).sum(),
        Node::Extension { child, .. } => count_hash_nodes(child),
        _ => 0,
    }
}

/// Every value of a partial trie is the full one's; every hash node stands for
/// the subtree the full trie has there.
fn check_partial(p: &HashedPartialTrie, m: &Map, keep: &BTreeSet<Vec<u8>>, what: &str) -> CaseResult {
    let full = mpt::build(m);
    ensure_eq_prop!(p.hash(), mpt::root_of(&full), "subset-root", "{what}: root of the partial trie");
    if let Err(e) = same_structure(p, &full) {
        return fail("subset-structure", format!("{what}: {e}"));
    }
    for k in keep {
        let got = p.get(nib(k)).map(|x| x.to_vec());
        ensure_eq_prop!(got, m.get(k).cloned(), "subset-get", "{what}: get of kept key {k:?}");
    }
    Ok(())
}

/// Applies updates to a partial trie and the model: each either succeeds with
/// the model's result or reports an error; the root never comes out wrong.
fn mutate_partial(
    s: &mut Src,
    p: &mut HashedPartialTrie,
    m: &mut Map,
    allowed: &[Vec<u8>],
    all: &[Vec<u8>],
    rec: &mut Rec,
    log: &mut Vec<String>,
) -> CaseResult {
    for _ in 0..s.range(1, 12) {
        let inside = s.chance(7, 8) && !allowed.is_empty();
        let k = if inside { s.pick(allowed) } else { s.pick(all) };
        let inside = allowed.contains(&k);
        if s.bool() {
            let v = value(s);
            log.push(format!("insert {} ({}B) inside={inside}", hex::encode(&k), v.len()));
            match p.insert(nib(&k), v.clone()) {
                Ok(()) => {
                    m.insert(k, v);
                }
                Err(e) => {
                    rec.label("insert hit a hash node");
                    ensure_prop!(!inside, "insert-inside", "insert of a kept key failed: {e}; {log:?}");
                }
            }
        } else {
            log.push(format!("delete {} inside={inside}", hex::encode(&k)));
            let before = p.clone();
            match p.delete(nib(&k)) {
                Ok(got) => {
                    let want = m.remove(&k);
                    ensure_eq_prop!(got, want, "delete", "deleted value; {log:?}");
                }
                Err(e) => {
                    rec.label("delete refused");
                    let es = format!("{e}");
                    ensure_prop!(
                        !inside || es.contains("collapse an extension"),
                        "delete-inside",
                        "delete of a kept key failed: {e}; {log:?}"
                    );
                    ensure_prop!(*p == before, "delete-atomic", "refused delete changed the trie; {log:?}");
                }
            }
        }
        ensure_eq_prop!(p.hash(), mpt::root(m), "partial-root", "root after {log:?}");
    }
    Ok(())
}

fn subset(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (mut m, pool, kn) = random_map(s, 30);
    rec.label(kn);
    let t = trie_of(&m);
    let mut sets = vec![];
    for _ in 0..s.range(1, 3) {
        let keep: BTreeSet<Vec<u8>> = pool.iter().filter(|_| s.chance(1, 3)).cloned().collect();
        sets.push(keep);
    }
    // Paths to inner nodes, or into extensions and leaves.
    let inner = s.chance(1, 4);
    if inner {
        rec.label("keeps partial paths");
        for keep in &mut sets {
            let short: Vec<Vec<u8>> = keep.iter().filter(|_| s.bool()).cloned().collect();
            for k in short {
                if s.bool() {
                    keep.remove(&k);
                }
                // (not the empty path, nor one that is a key of its own)
                if k.len() > 1 {
                    let k = k[..1 + s.below(k.len() - 1)].to_vec();
                    if !m.contains_key(&k) {
                        keep.insert(k);
                    }
                }
            }
        }
    }
    let what = format!("{kn}, map {:?}, kept {:?}", hexmap(&m), hexset(&sets[0]));
    rec.sample(what.clone());
    let p = match create_trie_subset(&t, sets[0].iter().map(|k| nib(k))) {
        Ok(p) => p,
        Err(e) => return fail("subset-err", format!("{e}; {what}")),
    };
    check_partial(&p, &m, &sets[0], &what)?;
    let ps: Vec<HashedPartialTrie> =
        create_trie_subsets(&t, sets.iter().map(|x| x.iter().map(|k| nib(k)))).map_err(|e| Fail {
            sig: "subsets-err".into(),
            msg: e.to_string(),
        })?;
    for (p, keep) in ps.iter().zip(&sets) {
        check_partial(p, &m, keep, "create_trie_subsets")?;
        let alone = create_trie_subset(&t, keep.iter().map(|k| nib(k))).unwrap();
        ensure_prop!(alone == *p, "subsets-alone", "create_trie_subsets differs from create_trie_subset: {what}");
    }
    // Narrowing a subset keeps the root.
    let narrower: BTreeSet<Vec<u8>> = sets[0].iter().filter(|_| s.bool()).cloned().collect();
    match create_trie_subset(&p, narrower.iter().map(|k| nib(k))) {
        Ok(p2) => check_partial(&p2, &m, &narrower, "subset of a subset")?,
        Err(e) => return fail("subset-subset-err", format!("{e}; {what}")),
    }
    // Minimality: what no kept key traverses is hashed out (if at least 32 bytes).
    let hn = count_hash_nodes(&p);
    let mut want_h = 0;
    count_expected_hashes(&mpt::build(&m), &sets[0].iter().map(|k| k.as_slice()).collect::<Vec<_>>(), true, &mut want_h);
    if !inner {
        ensure_eq_prop!(hn, want_h, "subset-minimal", "number of hash nodes: {what}");
    }
    if hn > 0 {
        rec.label("has hash nodes");
        rec.nontrivial(&what);
    }
    let kept: Vec<Vec<u8>> = sets[0].iter().filter(|k| pool.contains(k)).cloned().collect();
    let mut p = p;
    let mut log = vec![what];
    mutate_partial(s, &mut p, &mut m, &kept, &pool, rec, &mut log)
}

fn count_expected_hashes(n: &RNode, keys: &[&[u8]], _root: bool, out: &mut usize) {
    if keys.is_empty() {
        if matches!(n, RNode::Empty) {
            return;
        }
        if mpt::encode(n).len() >= 32 {
            *out += 1;
            return;
        }
    }
    match n {
        RNode::Empty | RNode::Leaf(..) => {}
        RNode::Ext(p, c) => {
            let sub: Vec<&[u8]> = keys.iter().filter(|k| k.starts_with(p)).map(|k| &k[p.len()..]).collect();
            count_expected_hashes(c, &sub, false, out)
        }
        RNode::Branch(ch, _) => {
            for (i, c) in ch.iter().enumerate() {
                let sub: Vec<&[u8]> =
                    keys.iter().filter(|k| !k.is_empty() && k[0] as usize == i).map(|k| &k[1..]).collect();
                count_expected_hashes(c, &sub, false, out)
            }
        }
    }
}

fn hexmap(m: &Map) -> BTreeMap<String, String> {
    m.iter()
        .map(|(k, v)| (nib_str(k), hex::encode(v)))
        .collect()
}
pub fn nib_str(k: &[u8]) -> String {
    k.iter().map(|x| char::from_digit(*x as u32, 16).unwrap()).collect()
}
fn hexset(m: &BTreeSet<Vec<u8>>) -> Vec<String> {
    m.iter().map(|k| nib_str(k)).collect()
}

fn builder(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (mut m, pool, kn) = random_map(s, 24);
    rec.label(kn);
    let full = mpt::build(&m);
    let root = mpt::root_of(&full);
    let proven: BTreeSet<Vec<u8>> = pool.iter().filter(|_| s.chance(1, 2)).cloned().collect();
    let what = format!("{kn}, map {:?}, proven {:?}", hexmap(&m), hexset(&proven));
    rec.sample(what.clone());
    if has_inline(&full) {
        rec.label("inline nodes");
    }
    let mut b = PartialTrieBuilder::<HashedPartialTrie>::new(root, HashMap::new());
    for k in &proven {
        b.insert_proof(mpt::proof(&full, k));
    }
    if s.bool() {
        for k in &proven {
            b.insert_short_node_variants_from_proof(mpt::proof(&full, k));
        }
        rec.label("with short variants");
    }
    let mut p = b.build();
    let keep: BTreeSet<Vec<u8>> = if m.is_empty() { BTreeSet::new() } else { proven.clone() };
    check_partial(&p, &m, &keep, &what)?;
    if count_hash_nodes(&p) > 0 {
        rec.nontrivial(&what);
        rec.label("has hash nodes");
    }
    let kept: Vec<Vec<u8>> = keep.into_iter().collect();
    let mut log = vec![what];
    mutate_partial(s, &mut p, &mut m, &kept, &pool, rec, &mut log)
}

fn has_inline(n: &RNode) -> bool {
    match n {
        RNode::Ext(_, c) => mpt::encode(c).len() < 32 || has_inline(c),
        RNode::Branch(ch, _) => ch
            .iter()
            .any(|c| !matches!(c, RNode::Empty) && (mpt::encode(c).len() < 32 || has_inline(c))),
        _ => false,
    }
}

/// Deleting with a hashed-out sibling that is a branch, under the collapse
/// strategy, gives the true root; under the default strategy it is refused.
fn orphan(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let plen = s.range(0, 5);
    let prefix: Vec<u8> = (0..plen).map(|_| s.below(16) as u8).collect();
    let total = prefix.len() + s.range(3, 20);
    let a = s.below(16) as u8;
    let b = ((a as usize + 1 + s.below(15)) % 16) as u8;
    let mut m = Map::new();
    let mut k1 = prefix.clone();
    k1.push(a);
    while k1.len() < total {
        k1.push(s.below(16) as u8);
    }
    m.insert(k1.clone(), value(s));
    // the sibling: a branch right below nibble b
    let (x, y) = (s.below(16) as u8, s.below(16) as u8);
    let y = if x == y { (y + 1) % 16 } else { y };
    for z in [x, y] {
        let mut k = prefix.clone();
        k.push(b);
        k.push(z);
        while k.len() < total {
            k.push(s.below(16) as u8);
        }
        m.insert(k, s.bytes(40));
    }
    // elsewhere
    if s.bool() && !prefix.is_empty() {
        let mut k = prefix.clone();
        let i = s.below(prefix.len());
        k[i] = (k[i] + 1) % 16;
        while k.len() < total {
            k.push(s.below(16) as u8);
        }
        m.insert(k, value(s));
        rec.label("parent branch");
    }
    let what = format!("map {:?} delete {}", hexmap(&m), nib_str(&k1));
    rec.sample(what.clone());
    rec.nontrivial(&what);
    let t = trie_of(&m);
    let p = create_trie_subset(&t, [nib(&k1)]).unwrap();
    let mut reject = p.clone();
    let r = reject.delete(nib(&k1));
    ensure_prop!(r.is_err(), "orphan-reject", "deleting next to a hashed-out sibling was not refused: {what}");
    let mut collapse = HashedPartialTrie::new_with_strategy((*p).clone(), OnOrphanedHashNode::CollapseToExtension);
    match collapse.delete(nib(&k1)) {
        Ok(v) => ensure_eq_prop!(v, m.get(&k1).cloned(), "orphan-val", "{what}"),
        Err(e) => return fail("orphan-collapse", format!("{e}: {what}")),
    }
    m.remove(&k1);
    ensure_eq_prop!(collapse.hash(), mpt::root(&m), "orphan-root", "{what}");
    Ok(())
}

/// Path queries and the diff tool agree with the tries.
fn queries(s: &mut Src, rec: &mut Rec) -> CaseResult {
    let (m, pool, kn) = random_map(s, 16);
    rec.label(kn);
    let t = trie_of(&m);
    let full = mpt::build(&m);
    for k in &pool {
        let segs: Vec<_> = path_for_query(&t, nib(k), false).collect();
        let key = segs.iter().into_key();
        if m.contains_key(k) {
            ensure_eq_prop!(unnib(&key), k.clone(), "path-key", "path of a present key in {:?}", hexmap(&m));
        }
        // number of nodes = depth of the reference path
        let mut d = 0;
        let mut cur = &full;
        let mut kk = k.as_slice();
        loop {
            match cur {
                RNode::Empty => {
                    d += 1;
                    break;
                }
                RNode::Leaf(p, _) => {
                    d += (p.as_slice() == kk) as usize;
                    break;
                }
                RNode::Ext(p, c) => {
                    if !kk.starts_with(p) {
                        break;
                    }
                    d += 1;
                    kk = &kk[p.len()..];
                    cur = c;
                }
                RNode::Branch(ch, _) => {
                    d += 1;
                    cur = &ch[kk[0] as usize];
                    kk = &kk[1..];
                }
            }
        }
        ensure_eq_prop!(segs.len(), d, "path-len", "path length of {k:?} in {:?}", hexmap(&m));
    }
    // diff: empty iff same root, and it points at what changed
    let mut m2 = m.clone();
    let mut changed = BTreeSet::new();
    for _ in 0..s.range(0, 4) {
        let k = s.pick(&pool);
        if s.chance(1, 3) {
            m2.remove(&k);
        } else {
            m2.insert(k.clone(), value(s));
        }
        if m2.get(&k) != m.get(&k) {
            changed.insert(k);
        } else {
            changed.remove(&k);
        }
    }
    let t2 = trie_of(&m2);
    let d = create_full_diff_between_tries(&t, &t2);
    let what = format!("{:?} vs {:?}", hexmap(&m), hexmap(&m2));
    ensure_eq_prop!(d.diff_points.is_empty(), m == m2, "diff-empty", "diff emptiness: {what}");
    for p in &d.diff_points {
        ensure_prop!(p.a_info.hash != p.b_info.hash, "diff-same", "diff point with equal hashes {p:?}: {what}");
        let key = unnib(&p.key);
        ensure_prop!(
            changed.iter().any(|c| c.starts_with(&key)),
            "diff-where",
            "diff point {key:?} where nothing changed: {what}"
        );
    }
    // same keys, one value changed: exactly the leaf is found
    if changed.len() == 1 && m.keys().eq(m2.keys()) {
        let k = changed.iter().next().unwrap();
        rec.label("one value changed");
        ensure_prop!(
            d.diff_points.iter().any(|p| unnib(&p.a_info.key) == *k
                && p.a_info.value.as_ref() == m.get(k)
                && p.b_info.value.as_ref() == m2.get(k)),
            "diff-leaf",
            "the changed leaf {k:?} is not among {:?}: {what}",
            d.diff_points
        );
    }
    if m != m2 {
        rec.nontrivial(&what);
    }
    rec.sample(what);
    Ok(())
}

pub fn c12() -> Check {
    let rule = "sequences of insert/overwrite/delete/get/extend/hash/snapshot over prefix-free key pools, compared with a BTreeMap and a from-scratch trie; non-trivial = a present key deleted and at least 3 keys at once";
    Check {
        property: "C12",
        level: "exploration",
        assumptions: vec![
            "keys of one trie are prefix-free (fixed length or RLP indices), as in every Ethereum trie; values are non-empty".into(),
            "tiny-keccak (via keccak-hash) is trusted for Keccak-256".into(),
        ],
        facets: vec![
            Facet::new("hashed", rule, 240_000, 4_000_000, 700, map_ops::<HashedPartialTrie>),
            Facet::new("standard", rule, 60_000, 1_000_000, 700, map_ops::<StandardTrie>),
            Facet::new("queries", "path queries and diffs on a random trie and an edited copy; non-trivial = the tries differ", 100_000, 2_000_000, 500, queries),
        ],
    }
}

pub fn c13() -> Check {
    Check {
        property: "C13",
        level: "exploration",
        assumptions: vec![
            "keys of one trie are prefix-free, values non-empty".into(),
        ],
        facets: vec![
            Facet::new("subset", "random trie and key sets: subset(s), subset of a subset, then updates on the partial trie against the full model; non-trivial = the subset has hash nodes", 200_000, 4_000_000, 700, subset),
            Facet::new("builder", "partial trie built from Merkle proofs, then updated; non-trivial = it has hash nodes", 120_000, 2_000_000, 900, builder),
            Facet::new("orphan", "deletion leaving a single hashed-out sibling; all non-trivial", 60_000, 600_000, 300, orphan),
        ],
    }
}

#[allow(dead_code)]
fn _unused(_: H256) {}
