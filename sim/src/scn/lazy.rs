//! C12: lazily loaded trees under concurrent first access. C13: what is loaded when, and loads that fail.
use super::radix::{settle_threads, worker, Held, Mailed};
use super::tree::*;
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::{reg, E};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const REAL: &[&str] = &["radix_tree/lazy_radix_tree.rs (LazyRadixTree, Lazy, loading, From, Clone, all_arcs, Serialize)", "radix_tree/mod.rs", "parking_lot mutex, std Arc, rkyv (real)"];
const STUB: &[&str] = &["value and key component types, combining functions, predicates (instrumented caller code)", "global allocator (deterministic arena)", "thread scheduler, futex and clock (simulated; one real thread at a time)"];
pub const C12: Scn = Scn {
    id: "C12",
    run: run12,
    quick: 1_000_000,
    thorough: 12_000_000,
    rule: "an execution is non-trivial when a thread was preempted while another one used a clone of the same lazily loaded tree",
    real: REAL,
    stub: STUB,
    assumes: &["atomic operations are sequentially consistent (weak-memory reorderings are not simulated)", "a value's clone does not itself use the tree that is being loaded"],
};
pub const C13: Scn = Scn {
    id: "C13",
    run: run13,
    quick: 4_000_000,
    thorough: 80_000_000,
    rule: "an execution is non-trivial when a lookup, scan or insertion on a partially loaded tree was judged, or a load failed",
    real: REAL,
    stub: STUB,
    assumes: &["what is loaded is seen through the copies made of archived values and through all_arcs"],
};

const SLOT: usize = 6;
/// write the map as an archive and return its root
fn archived(m: &M) -> &'static <LazyT as Flav>::Arch {
    let t = build::<LazyT>(m);
    let b = lib("archive", || t.archive());
    lib("drop", move || drop(t));
    let buf: &'static [u8] = guard::place(SLOT, &b, coin());
    LazyT::root(buf)
}
fn open(a: &'static <LazyT as Flav>::Arch) -> LazyT {
    lib("open", || LazyT::from(a))
}

// ---------------------------------------------------------------- C12

fn reader(mut hs: Vec<H<LazyT>>, mut kg: KeyGen, n: u64, arm: bool, slot: usize) {
    let mut held: Option<Held<LazyT>> = None;
    for _ in 0..n {
        let _s = span();
        let i = idx(hs.len());
        let armed = arm && chance(1, 3);
        let op = weighted(&[6, 4, 3, 2, 2, 2, 4, 1, 2]);
        if armed && op < 4 {
            ctx().arm_mask = K_CLONE;
            ctx().arm = 1 + draw(4);
        }
        let failed = |e: Stop, what: &str| match e {
            Stop::Injected if armed => probe("a load failed"),
            e => violation("panic", format!("{what}: {e:?}")),
        };
        match op {
            0 => {
                let h = &hs[i];
                let k = kg.key();
                tr!("get {k:?}");
                match lib_catch(|| h.t.get(ks(&k)).map(|e| e.kt())) {
                    Ok(g) => check!(g == h.m.get(&k).copied(), "lookup", "get {k:?}: {g:?} instead of {:?}", h.m.get(&k)),
                    Err(e) => failed(e, "get"),
                }
            }
            1 => {
                let h = &hs[i];
                let p = kg.key();
                tr!("scan {p:?}");
                let stop = if coin() { usize::MAX } else { idx(4) };
                let mut got: Vec<(Key, (i32, u32))> = Vec::new();
                let r = lib_catch(|| {
                    for (k, v) in h.t.scan_prefix(ks(&p)).take(stop) {
                        let _o = out_lib();
                        got.push((bs(&k).to_vec(), v.kt()));
                    }
                });
                let want: Vec<_> = m_prefix(&h.m, &p).into_iter().take(stop).collect();
                match r {
                    Ok(()) => check!(got == want, "result", "scan {p:?}: {got:?} instead of {want:?}"),
                    Err(e) => {
                        check!(want.starts_with(&got), "result", "scan {p:?} before it failed: {got:?} instead of {want:?}");
                        failed(e, "scan")
                    }
                }
            }
            2 => {
                let h = &hs[i];
                tr!("values");
                let mut n = 0;
                match lib_catch(|| n = h.t.values().count()) {
                    Ok(()) => check!(n == h.m.len(), "result", "values() yields {n} of {}", h.m.len()),
                    Err(e) => failed(e, "values"),
                }
            }
            3 => {
                let h = &hs[i];
                tr!("serialize");
                match lib_catch(|| h.t.archive()) {
                    Ok(b) => {
                        let buf: &'static [u8] = guard::place(slot, &b, coin());
                        let g = read_tree("serialized", LazyT::root(buf));
                        check!(g == h.m, "result", "serialized: {}", diff(&g, &h.m));
                    }
                    Err(e) => failed(e, "serialize"),
                }
            }
            4 => {
                tr!("clone");
                let c = lib("clone", || hs[i].t.clone());
                let m = hs[i].m.clone();
                if hs.len() < 3 {
                    hs.push(H { t: c, m, bent: false });
                } else {
                    let old = std::mem::replace(&mut hs[i].t, c);
                    lib("drop", move || drop(old));
                }
            }
            5 => {
                if hs.len() > 1 {
                    tr!("drop");
                    drop_h(hs.remove(i));
                }
            }
            6 => match &mut held {
                Some(x) => {
                    if coin() {
                        let n = 1 + idx(4);
                        x.advance(n)
                    } else {
                        held.take().unwrap().close()
                    }
                }
                None => held = Some(Held::new(&hs[i], &mut kg)),
            },
            7 => {
                tr!("all_arcs");
                let mut p = BTreeMap::<usize, Arc<Vec<LazyT>>>::new();
                lib("all_arcs", || hs[i].t.all_arcs(&mut p));
                lib("drop", move || drop(p));
            }
            _ => {
                // two clones of one tree, read against each other
                let j = idx(hs.len());
                tr!("compare");
                let r = lib_catch(|| (hs[i].t.is_subset(&hs[j].t), hs[i].t.intersects(&hs[j].t)));
                match r {
                    Ok((s, x)) => {
                        check!(s, "predicate", "is_subset of a clone is false");
                        check!(x != hs[i].m.is_empty(), "predicate", "intersects with a clone is {x} for {} entries", hs[i].m.len());
                    }
                    Err(e) => failed(e, "compare"),
                }
            }
        }
        disarm();
        sched::pause();
    }
    if let Some(x) = held {
        x.close();
    }
    for h in hs {
        LazyT::mail().push(h);
    }
}

/// a few operations on a small tree, preempted between instructions, and nothing read until the end
fn racer(mut h: H<LazyT>, keys: Vec<Key>, n: u64) {
    for _ in 0..n {
        let _s = span();
        let k = &keys[idx(keys.len())];
        match weighted(&[3, 3, 2, 1, 1, 1]) {
            0 => {
                let v = val();
                tr!("insert {k:?} {v:?}");
                match lib_catch(|| h.t.insert(ks(k), E::new(v.0, v.1))) {
                    Ok(()) => h.m.insert(k.clone(), v),
                    Err(e) => violation("panic", format!("insert: {e:?}")),
                };
            }
            1 => {
                tr!("get {k:?}");
                match lib_catch(|| h.t.get(ks(k)).map(|e| e.kt())) {
                    Ok(g) => check!(g == h.m.get(k).copied(), "lookup", "get {k:?}: {g:?} instead of {:?}", h.m.get(k)),
                    Err(e) => violation("panic", format!("get: {e:?}")),
                }
            }
            2 => {
                tr!("clone");
                match lib_catch(|| h.t.clone()) {
                    Ok(t) => LazyT::mail().push(H { t, m: h.m.clone(), bent: false }),
                    Err(e) => violation("panic", format!("clone: {e:?}")),
                }
            }
            3 => {
                tr!("values");
                match lib_catch(|| h.t.values().count()) {
                    Ok(n) => check!(n == h.m.len(), "result", "values() yields {n} of {}", h.m.len()),
                    Err(e) => violation("panic", format!("values: {e:?}")),
                }
            }
            4 => {
                tr!("filter_prefix {k:?}");
                match lib_catch(|| h.t.filter_prefix(ks(k))) {
                    Ok(t) => LazyT::mail().push(H { t, m: m_prefix(&h.m, k), bent: false }),
                    Err(e) => violation("panic", format!("filter_prefix: {e:?}")),
                }
            }
            _ => {
                tr!("all_arcs");
                let mut p = BTreeMap::<usize, Arc<Vec<LazyT>>>::new();
                match lib_catch(|| h.t.all_arcs(&mut p)) {
                    Ok(()) => lib("drop", move || drop(p)),
                    Err(e) => violation("panic", format!("all_arcs: {e:?}")),
                }
            }
        }
        sched::pause();
    }
    LazyT::mail().push(h);
}
fn race() {
    let mut kg = KeyGen::draw();
    kg.alpha = kg.alpha.min(3);
    kg.maxlen = kg.maxlen.min(4);
    let m = gen_map(&mut kg, 5);
    let a = archived(&m);
    tr!("race on lazy tree {m:?}");
    let mut keys: Vec<Key> = m.keys().cloned().collect();
    keys.push(kg.key());
    sched::enable_steps(pick(&[2_000u64, 6_000]), true);
    let t = open(a);
    lib("children", || t.children().len());
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..2 + draw(2) {
        let h = H { t: lib("clone", || t.clone()), m: m.clone(), bent: false };
        let (k, n) = (keys.clone(), 1 + draw(3));
        jobs.push(Box::new(move || racer(h, k, n)));
    }
    let base = H { t, m, bent: false };
    if coin() {
        LazyT::mail().push(base);
    } else {
        drop_h(base);
    }
    sched::run_threads(jobs);
    nontrivial();
    settle_threads::<LazyT>();
}
fn run12() {
    LazyT::mail().clear();
    if chance(1, 30) {
        return race();
    }
    let mut kg = KeyGen { small: true, ..KeyGen::draw() };
    let m = gen_map(&mut kg, 16);
    let a = archived(&m);
    tr!("lazy tree {m:?}");
    let threads = [2usize, 3, 1][idx(3)];
    let panics = chance(1, 3);
    if chance(1, 400) {
        sched::enable_steps(pick(&[1_000u64, 4_000]), false);
    }
    let readers = coin();
    let t = open(a);
    let mut shared = coin();
    if shared {
        lib("children", || t.children().len());
    }
    if chance(1, 4) {
        // partly loaded already
        let k = kg.key();
        lib("get", || t.contains_key(ks(&k)));
        shared = shared || !k.is_empty() && k.len() > t.prefix().len() && k.starts_with(bs(t.prefix()));
    }
    reg().loads = Some(Vec::new());
    let base = H { t, m, bent: false };
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for i in 0..threads {
        let mut hs = vec![H { t: lib("clone", || base.t.clone()), m: base.m.clone(), bent: false }];
        let kg2 = KeyGen { alpha: kg.alpha, maxlen: kg.maxlen, pool: kg.pool.clone(), small: true };
        if readers {
            let n = ops(10);
            jobs.push(Box::new(move || reader(hs, kg2, n, panics, 2 * i)));
        } else {
            if chance(1, 3) {
                // a second tree over the same archive
                hs.push(H { t: open(a), m: base.m.clone(), bent: false });
            }
            let env = Env { kg: kg2, mask: if panics { K_CLONE | K_CLOSURE } else { 0 }, max_handles: 3, check_all: chance(1, 3), cross: chance(1, 3), slot: 2 * i };
            let n = ops(10);
            jobs.push(Box::new(move || worker::<LazyT>(hs, env, n)));
        }
    }
    if coin() {
        LazyT::mail().push(base);
    } else {
        drop_h(base);
    }
    let before = sched::stats().1;
    sched::run_threads(jobs);
    if sched::stats().1 - before > 2 {
        nontrivial();
    }
    let loads = reg().loads.take().unwrap();
    if readers && shared {
        let bad = ctx().fired[F::panic_clone as usize];
        let mut n = BTreeMap::<usize, u64>::new();
        for l in loads.into_iter().filter(|l| in_archive(*l)) {
            let c = n.entry(l).or_default();
            *c += 1;
            check!(*c <= 1 + bad, "loaded-twice", "a shared node of the archive was loaded {c} times, {bad} loads failed");
        }
        probe("loads of shared nodes counted");
    }
    settle_threads::<LazyT>();
}
fn in_archive(a: usize) -> bool {
    guard::slot_of(a) == Some(SLOT)
}

// ---------------------------------------------------------------- C13

/// The archived nodes: for every archived value, the path of its node's parent and the edge into the parent
struct Shape {
    /// address of the value -> (path of the parent node, its length up to and including the first symbol of the
    /// prefix of the parent's parent)
    at: BTreeMap<usize, (Key, usize)>,
    /// paths of all nodes that have children, with that length for the parent
    inner: Vec<(Key, usize)>,
}
fn shape(a: &<LazyT as Flav>::Arch) -> Shape {
    let mut s = Shape { at: BTreeMap::new(), inner: Vec::new() };
    fn go(n: &<LazyT as Flav>::Arch, path: &Key, up: usize, edge: usize, s: &mut Shape) {
        if !n.children().is_empty() {
            s.inner.push((path.clone(), up));
        }
        for c in n.children() {
            let mut p = path.clone();
            p.extend_from_slice(bs(c.prefix()));
            if let Some(v) = c.value() {
                s.at.insert(v as *const E as usize, (path.clone(), up));
            }
            go(c, &p, edge, path.len() + 1, s);
        }
    }
    go(a, &bs(a.prefix()).to_vec(), 0, 0, &mut s);
    s
}
fn loaded_vectors(t: &LazyT) -> usize {
    let mut p = BTreeMap::<usize, Arc<Vec<LazyT>>>::new();
    lib("all_arcs", || t.all_arcs(&mut p));
    let n = p.values().filter(|v| !v.is_empty()).count();
    lib("drop", move || drop(p));
    n
}

fn run13() {
    let mut kg = KeyGen::draw();
    let m = gen_map(&mut kg, 16);
    let a = archived(&m);
    let sh = shape(a);
    tr!("lazy tree {m:?}");
    let before = reg().clones;
    reg().loads = Some(Vec::new());
    let t = open(a);
    let n = reg().clones - before;
    check!(n <= a.value().is_some() as u64, "eager", "opening the tree copies {n} values");
    let n = loaded_vectors(&t);
    check!(n == 0, "eager", "opening the tree loads {n} child vectors");
    reg().loads.as_mut().unwrap().clear();
    let mut h = H { t, m, bent: false };
    // what was loaded so far is known as long as only judged operations ran
    let mut judged = true;
    let mut failed_loads = 0u64;
    let mut made = 0;
    let mut snap: Option<H<LazyT>> = None;
    // paths that operations asked for
    let mut may: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..ops(14) {
        let _s = span();
        let armed = chance(1, 4);
        if armed {
            ctx().arm_mask = K_CLONE;
            ctx().arm = 1 + draw(5);
        }
        let op = weighted(&[6, 4, 5, 1, 2, 1, 2, 1, 2]);
        // the key that says which paths may be loaded
        let mut key: Option<Key> = None;
        let mut scan = false;
        let mut edge = false;
        let mut hit = false;
        match op {
            0 => {
                let k = kg.key();
                tr!("get {k:?}");
                let r = lib_catch(|| if op == 0 { h.t.get(ks(&k)).map(|e| e.kt()) } else { None });
                disarm();
                match r {
                    Ok(g) => check!(g == h.m.get(&k).copied(), "lookup", "get {k:?}: {g:?} instead of {:?}", h.m.get(&k)),
                    Err(Stop::Injected) if armed => {
                        hit = true;
                        // the same access succeeds when retried
                        let g = lib("get", || h.t.get(ks(&k)).map(|e| e.kt()));
                        check!(g == h.m.get(&k).copied(), "retry", "get {k:?} after a failed load: {g:?} instead of {:?}", h.m.get(&k));
                    }
                    Err(e) => violation("panic", format!("get: {e:?}")),
                }
                key = Some(k);
            }
            1 => {
                let p = kg.key();
                let stop = if coin() { usize::MAX } else { idx(3) };
                tr!("scan {p:?}");
                let go = |got: &mut Vec<(Key, (i32, u32))>| {
                    lib_catch(|| {
                        for (k, v) in h.t.scan_prefix(ks(&p)).take(stop) {
                            let _o = out_lib();
                            got.push((bs(&k).to_vec(), v.kt()));
                        }
                    })
                };
                let want: Vec<_> = m_prefix(&h.m, &p).into_iter().take(stop).collect();
                let mut got = Vec::new();
                let r = go(&mut got);
                disarm();
                match r {
                    Ok(()) => check!(got == want, "result", "scan {p:?}: {got:?} instead of {want:?}"),
                    Err(Stop::Injected) if armed => {
                        hit = true;
                        check!(want.starts_with(&got), "result", "scan {p:?} before it failed: {got:?} instead of {want:?}");
                        let mut got = Vec::new();
                        match go(&mut got) {
                            Ok(()) => check!(got == want, "retry", "scan {p:?} after a failed load: {got:?} instead of {want:?}"),
                            Err(e) => violation("panic", format!("scan: {e:?}")),
                        }
                    }
                    Err(e) => violation("panic", format!("scan: {e:?}")),
                }
                key = Some(p);
                scan = true;
            }
            2 => {
                let (k, v) = (kg.key(), val());
                made += 1;
                tr!("insert {k:?} {v:?}");
                let r = lib_catch(|| h.t.insert(ks(&k), E::new(v.0, v.1)));
                disarm();
                match r {
                    Ok(()) => {
                        h.m.insert(k.clone(), v);
                    }
                    Err(Stop::Injected) if armed => {
                        hit = true;
                        // an interrupted insertion may have removed what it went through (C11), but nothing else;
                        // whether it did is found out without loading more than the path
                        interrupted(&mut h, &k, v);
                        judged = false;
                    }
                    Err(e) => violation("panic", format!("insert: {e:?}")),
                }
                key = Some(k);
                edge = true;
            }
            3 => {
                // a snapshot: in-place operations copy from here on
                disarm();
                if let Some(s) = snap.take() {
                    let g = read_tree("snapshot", &s.t);
                    check!(g == s.m, "snapshot-changed", "a snapshot changed: {}", diff(&g, &s.m));
                    drop_h(s);
                    judged = false;
                } else {
                    tr!("clone");
                    let n = loaded_vectors(&h.t);
                    let l = reg().loads.as_ref().unwrap().len();
                    let t = lib("clone", || h.t.clone());
                    check!(reg().loads.as_ref().unwrap()[l..].iter().all(|l| !in_archive(*l)), "eager", "taking a clone loads nodes");
                    let (n1, n2) = (loaded_vectors(&h.t), loaded_vectors(&t));
                    check!(n1 == n && n2 == n, "eager", "{n} child vectors were loaded, after taking a clone {n1}, and {n2} in the clone");
                    snap = Some(H { t, m: h.m.clone(), bent: false });
                }
            }
            4 => {
                // other parts stay readable
                disarm();
                let k = kg.key();
                let g = lib("contains_key", || h.t.contains_key(ks(&k)));
                check!(g == h.m.contains_key(&k), "lookup", "contains_key {k:?} is {g}");
                key = Some(k);
            }
            5 => {
                // an operation over the whole tree, possibly failing
                let mut om = gen_map(&mut kg, 4);
                om.extend(h.m.iter().filter(|_| chance(1, 4)).map(|(k, v)| (k.clone(), *v)));
                disarm();
                let o = build::<LazyT>(&om);
                tr!("union_with/difference with {om:?}");
                let mut r = M::new();
                if coin() {
                    lib("union_with", || h.t.union_with(&o));
                    h.m = m_outer(&h.m, &om, |v, _| Some(v));
                } else {
                    let d = lib("difference", || h.t.difference(&o));
                    r = read_tree("difference", &d);
                    let want = m_left(&h.m, &om, |_, _| None);
                    check!(r == want, "result", "difference: {}", diff(&r, &want));
                    lib("drop", move || drop(d));
                }
                obs(r.len() as u64);
                lib("drop", move || drop(o));
                judged = false;
            }
            6 => {
                disarm();
                tr!("load count");
                let n = loaded_vectors(&h.t);
                obs(n as u64);
            }
            7 => {
                // prefix operations of the root only
                disarm();
                let g = lib("is_empty", || h.t.is_empty());
                check!(g == h.m.is_empty(), "lookup", "is_empty is {g}");
                may.insert(0);
            }
            _ => {
                // a part of the tree, or a clone of it elsewhere: like a lookup, and one level at the place
                let n = loaded_vectors(&h.t);
                let fil = coin();
                let p = kg.key();
                tr!("{} {p:?}", if fil { "filter_prefix" } else { "prepend" });
                let go = |h: &H<LazyT>| {
                    lib_catch(|| {
                        if fil {
                            h.t.filter_prefix(ks(&p))
                        } else {
                            let mut t = h.t.clone();
                            t.prepend(ks(&p));
                            t
                        }
                    })
                };
                let r = match go(&h) {
                    Err(Stop::Injected) if armed => {
                        hit = true;
                        disarm();
                        go(&h)
                    }
                    r => r,
                };
                disarm();
                let want = if fil { m_prefix(&h.m, &p) } else { h.m.iter().map(|(k, v)| ([&p[..], k].concat(), *v)).collect() };
                match r {
                    Ok(t) => {
                        let path = if fil { p.len() } else { 0 } + 1;
                        let n2 = loaded_vectors(&t);
                        check!(n2 <= n + path + 1, "eager", "{n} child vectors were loaded, {n2} in a part of the tree");
                        if chance(1, 4) {
                            let g = read_tree("part", &t);
                            check!(g == want, "result", "part: {}", diff(&g, &want));
                            judged = false;
                        }
                        lib("drop", move || drop(t));
                    }
                    Err(e) => violation("panic", format!("filter_prefix/prepend: {e:?}")),
                }
                probe("a part of a lazy tree taken");
                key = Some(if fil { p } else { Key::new() });
                edge = true;
            }
        }
        disarm();
        if hit {
            failed_loads += 1;
            nontrivial();
            probe("a load failed and was retried");
        }
        let new: Vec<usize> = std::mem::take(reg().loads.as_mut().unwrap()).into_iter().filter(|l| in_archive(*l)).collect();
        if let (Some(k), true) = (&key, judged) {
            for l in &new {
                let (path, e) = &sh.at[l];
                let ok = k.starts_with(path) || scan && path.starts_with(k) || edge && k.starts_with(&path[..*e]);
                check!(ok, "eager", "{} {k:?} loads a child vector below {path:?}", ["get", "scan", "insert", "", "contains_key", "", "", "", "filter_prefix/prepend"][op]);
            }
            nontrivial();
            probe("partial loads judged");
            // vectors without values are seen by their number only
            for (i, (path, e)) in sh.inner.iter().enumerate() {
                if k.starts_with(path) || scan && path.starts_with(k) || edge && k.starts_with(&path[..*e]) {
                    may.insert(i);
                }
            }
        }
        if judged && snap.is_none() && !h.m.is_empty() && coin() && reg().loads.is_some() {
            let n = loaded_vectors(&h.t);
            // an insertion makes at most one node with children, besides the ones on its path
            check!(n <= may.len() + made, "eager", "{n} child vectors are loaded, {} were asked for", may.len());
        }
    }
    obs(failed_loads);
    reg().loads = None;
    let g = read_tree("end", &h.t);
    check!(g == h.m, "content", "at the end: {}", diff(&g, &h.m));
    drop_h(h);
    if let Some(s) = snap {
        let g = read_tree("snapshot", &s.t);
        check!(g == s.m, "snapshot-changed", "a snapshot changed: {}", diff(&g, &s.m));
        drop_h(s);
    }
}
/// after an interrupted insertion the tree is a map made of the old and the new entries
fn interrupted(h: &mut H<LazyT>, k: &[u8], v: (i32, u32)) {
    let got = read_tree("interrupted insert", &h.t);
    for (x, w) in &got {
        check!(h.m.get(x) == Some(w) || x == k && *w == v, "value-origin", "after a failed insertion of {k:?} the tree has {x:?} -> {w:?}");
    }
    h.m = got;
    h.bent = true;
}
