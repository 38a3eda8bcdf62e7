//! C08, C09: a database that appends snapshots of a reference-counted tree to a log, on a disk that fails and
//! a machine that crashes.
use super::disk::*;
use super::medium::*;
use super::tree::*;
use super::*;
use crate::rt::arena::{in_lib, out_lib};
use crate::rt::inst::{reg, E};
use rkyv::de::deserializers::SharedDeserializeMapError;
use rkyv::de::{SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::Serializer;
use rkyv::{Deserialize, Fallible};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const STUB: &[&str] = &[
    "disk (simulated: sectors, torn, short, failed and lost writes, full disk, failing sync)",
    "the application around the tree: commit records, registry and pins, recovery, compaction (modelled on examples/radix_db.rs)",
    "value and key types (instrumented)",
    "global allocator (reuses addresses eagerly in a third of the runs)",
];
pub const C08: Scn = Scn {
    id: "C08",
    run: run08,
    quick: 2_500_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least two commits became durable",
    real: &["ArcRadixTree and LazyRadixTree: Serialize with a registry carried across appends, Deserialize, all_arcs, copy on write", "radix_tree/mod.rs (all operations)", "rkyv (real)"],
    stub: STUB,
    assumes: &["the application frames commits with a checksum and syncs before it calls a commit durable", "a registry is only carried on together with the arcs it names, as the documentation of all_arcs asks"],
};
pub const C09: Scn = Scn {
    id: "C09",
    run: run09,
    quick: 2_500_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one tree was modified while a snapshot of it existed, or appended twice",
    real: &["ArcRadixTree: in-place operations with copy on write, Clone, Serialize with a carried registry, Deserialize, all_arcs", "radix_tree/mod.rs", "rkyv (real)"],
    stub: STUB,
    assumes: &["a subtree counts as reached when a key of the operand continues along the edge into it"],
};

/// Deserialization registry that can be turned into the registry of the next append (as in examples/radix_db.rs).
struct LogLoader {
    ptrs: BTreeMap<usize, Box<dyn SharedPointer>>,
}
impl LogLoader {
    fn new() -> Self {
        LogLoader { ptrs: BTreeMap::new() }
    }
    fn registry(&self, base: usize) -> BTreeMap<usize, usize> {
        self.ptrs.iter().map(|(k, v)| (v.data_address() as usize, k - base)).collect()
    }
}
impl Drop for LogLoader {
    fn drop(&mut self) {
        let p = std::mem::take(&mut self.ptrs);
        let _i = in_lib();
        drop(p);
    }
}
impl Fallible for LogLoader {
    type Error = SharedDeserializeMapError;
}
impl SharedDeserializeRegistry for LogLoader {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> {
        self.ptrs.get(&(p as usize)).map(|b| &**b)
    }
    fn add_shared_ptr(&mut self, p: *const u8, s: Box<dyn SharedPointer>) -> Result<(), Self::Error> {
        let _o = out_lib();
        check!(self.ptrs.insert(p as usize, s).is_none(), "registered-twice", "loading registers a shared pointer twice");
        Ok(())
    }
}

type Pins<T> = BTreeMap<usize, Arc<Vec<T>>>;
trait Logged: Flav {
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail>;
    fn arcs(&self, into: &mut Pins<Self>);
    /// load from the log, with the registry for further appends
    fn load(b: &'static [u8], pos: usize) -> (Self, BTreeMap<usize, usize>);
    fn at(b: &'static [u8], pos: usize) -> &'static Self::Arch;
    /// keeps the buffer in use
    const LAZY: bool;
}
impl Logged for ArcT {
    fn at(b: &'static [u8], pos: usize) -> &'static Self::Arch {
        unsafe { rkyv::archived_value::<ArcT>(b, pos) }
    }
    const LAZY: bool = false;
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail> {
        m.serialize_value(self)
    }
    fn arcs(&self, into: &mut Pins<Self>) {
        self.all_arcs(into)
    }
    fn load(b: &'static [u8], pos: usize) -> (Self, BTreeMap<usize, usize>) {
        let a = unsafe { rkyv::archived_value::<ArcT>(b, pos) };
        let mut l = LogLoader::new();
        let t: ArcT = match a.deserialize(&mut l) {
            Ok(t) => t,
            Err(e) => violation("load-failed", format!("loading a commit reports {e:?}")),
        };
        let _o = out_lib();
        let r = l.registry(b.as_ptr() as usize);
        (t, r)
    }
}
impl Logged for LazyT {
    fn at(b: &'static [u8], pos: usize) -> &'static Self::Arch {
        unsafe { rkyv::archived_value::<LazyT>(b, pos) }
    }
    const LAZY: bool = true;
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail> {
        m.serialize_value(self)
    }
    fn arcs(&self, into: &mut Pins<Self>) {
        self.all_arcs(into)
    }
    fn load(b: &'static [u8], pos: usize) -> (Self, BTreeMap<usize, usize>) {
        let a = unsafe { rkyv::archived_value::<LazyT>(b, pos) };
        (LazyT::from(a), BTreeMap::new())
    }
}
fn pins_of<T: Logged>(t: &T) -> Pins<T> {
    let mut p = Pins::<T>::new();
    lib("all_arcs", || t.arcs(&mut p));
    p
}
fn drop_pins<T: Logged>(p: Pins<T>) {
    lib("drop", move || drop(p));
}

// ---------------------------------------------------------------- frames

const HDR: usize = 32;
const LOG: &str = "log";
const TMP: &str = "log.tmp";
const MARK: u64 = 0xC0FF_EE00_1234_5678;
fn sum(b: &[u8], len: u64, root: u64) -> u64 {
    let mut h = mix(len, root);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h
}
fn frame(body: &[u8], root: usize) -> Vec<u8> {
    let mut f = Vec::with_capacity(HDR + body.len() + 16);
    for w in [MARK, body.len() as u64, root as u64, sum(body, body.len() as u64, root as u64)] {
        f.extend_from_slice(&w.to_le_bytes());
    }
    f.extend_from_slice(body);
    while f.len() % 16 != 0 {
        f.push(0);
    }
    f
}
/// roots of the intact commits, and the length of the intact part
fn scan(log: &[u8]) -> (Vec<usize>, usize) {
    let mut at = 0;
    let mut roots = Vec::new();
    while at + HDR <= log.len() {
        let w = |i: usize| u64::from_le_bytes(log[at + i * 8..at + i * 8 + 8].try_into().unwrap());
        let (len, root) = (w(1) as usize, w(2) as usize);
        if w(0) != MARK || len > log.len() - at - HDR {
            break;
        }
        let body = &log[at + HDR..at + HDR + len];
        if w(3) != sum(body, len as u64, root as u64) {
            break;
        }
        let end = (at + HDR + len + 15) & !15;
        if end > log.len() {
            break;
        }
        roots.push(root);
        at = end;
    }
    (roots, at)
}

// ---------------------------------------------------------------- the application

struct Commit {
    root: usize,
    m: M,
    durable: bool,
}
struct App<T: Logged> {
    disk: Disk,
    /// in memory
    hs: Vec<H<T>>,
    known: BTreeMap<usize, usize>,
    pins: Pins<T>,
    pos: usize,
    /// what the log should contain
    commits: Vec<Commit>,
    /// forget arcs of older snapshots at every append
    prune: bool,
    /// bent handles were saved in these commits
    kg: KeyGen,
    judge_sharing: bool,
    durable: u64,
}
impl<T: Logged> App<T> {
    fn forget_memory(&mut self) {
        while let Some(h) = self.hs.pop() {
            drop_h(h);
        }
        drop_pins(std::mem::take(&mut self.pins));
        self.known.clear();
    }
    /// the machine crashed (or the process ended): start again from the disk
    fn restart(&mut self, crash: bool) {
        let _s = span();
        self.forget_memory();
        if crash {
            tr!("  !! crash");
            self.disk.crash();
        } else {
            tr!("  restart");
            fired(F::reload);
        }
        if chance(1, 2) {
            self.disk.free_up();
        }
        self.disk.remove(TMP);
        let log = self.disk.read(LOG);
        let (roots, len) = scan(&log);
        let must = self.commits.iter().rposition(|c| c.durable).map_or(0, |i| i + 1);
        // the frames are the harness's own; the library cannot lose one
        assert!(roots.len() >= must, "harness: a durable commit vanished from the simulated disk");
        assert!(roots.len() <= self.commits.len());
        for (i, r) in roots.iter().enumerate() {
            assert!(*r == self.commits[i].root);
        }
        self.commits.truncate(roots.len());
        // what was recovered counts as durable only once it is synced
        while self.disk.sync(LOG).is_err() {}
        for c in &mut self.commits {
            c.durable = true;
        }
        if len < log.len() {
            self.disk.truncate(LOG, len);
        }
        self.pos = len;
        tr!("  recovered {} commits, {} bytes", roots.len(), len);
        self.verify(None);
        self.open();
    }
    /// load the newest commit for further work
    fn open(&mut self) {
        let Some(c) = self.commits.last() else {
            let t = lib("empty", T::empty);
            self.hs.push(H { t, m: M::new(), bent: false });
            return;
        };
        let log = self.disk.read(LOG);
        let buf: &'static [u8] = guard::place(3, &log, coin());
        let root = c.root;
        let (t, known) = lib("load", || T::load(buf, root));
        self.known = known;
        let h = H { t, m: c.m.clone(), bent: false };
        if !T::LAZY || coin() {
            let g = read_tree("loaded", &h.t);
            check!(g == h.m, "content", "a reloaded commit differs: {}", diff(&g, &h.m));
        }
        self.pins = pins_of(&h.t);
        if self.judge_sharing {
            for a in self.pins.keys() {
                check!(self.known.contains_key(a), "reload-unshared", "after a reload the tree holds a child vector that the loading registry does not know");
            }
        }
        self.hs.push(h);
        if self.hs.len() > 1 {
            violation("harness", "handles survived a restart".into());
        }
    }
    /// read commits back: one, or all of them
    fn verify(&self, which: Option<usize>) {
        if self.commits.is_empty() {
            return;
        }
        let log = self.disk.read(LOG);
        let buf: &'static [u8] = guard::place(2, &log, coin());
        let range = match which {
            Some(i) => i..i + 1,
            None => 0..self.commits.len(),
        };
        for i in range {
            let c = &self.commits[i];
            let root = c.root;
            if coin() {
                let a = T::at(buf, root);
                let g = read_tree("commit", a);
                check!(g == c.m, "commit-changed", "commit {i} of {} reads back differently: {}", self.commits.len(), diff(&g, &c.m));
            } else {
                let (t, _) = lib("load", || T::load(buf, root));
                let g = read_tree("commit", &t);
                check!(g == c.m, "commit-changed", "commit {i} of {} loads differently: {}", self.commits.len(), diff(&g, &c.m));
                lib("drop", move || drop(t));
            }
        }
    }
    /// Append handle h as a commit. Returns false if the machine crashed.
    fn flush(&mut self, h: usize) -> bool {
        let _s = span();
        let mut m = Medium::new(self.pos + HDR);
        m.known = self.known.clone();
        let fault = weighted(&[8, 1, 1]);
        match fault {
            1 => (m.kind, m.at) = (Kind::Any, 1 + draw(40)),
            2 => {
                ctx().arm_mask = K_CLONE | K_SER;
                ctx().arm = 1 + draw(30);
            }
            _ => {}
        }
        tr!("  append #{h}: {} entries at {}", self.hs[h].m.len(), self.pos);
        let before = if self.judge_sharing { Some(pins_of(&self.hs[h].t)) } else { None };
        let r = {
            let t = &self.hs[h].t;
            lib_catch(|| t.ser(&mut m))
        };
        disarm();
        let root = match r {
            Ok(Ok(p)) => p,
            Ok(Err(_)) if m.failed.is_some() => {
                // nothing was written; the registry of before the attempt stays in use
                drop(m);
                if let Some(b) = before {
                    drop_pins(b);
                }
                return true;
            }
            Err(Stop::Injected) if fault == 2 => {
                drop(m);
                if let Some(b) = before {
                    drop_pins(b);
                }
                return true;
            }
            Ok(Err(e)) => violation("spurious-failure", format!("appending reports {e:?} although nothing failed")),
            Err(e) => violation("panic", format!("appending: {e:?}")),
        };
        if let Some(b) = before {
            self.judge_append(h, &m, &b);
            drop_pins(b);
        }
        let f = frame(&m.out, root);
        let known = std::mem::take(&mut m.known);
        drop(m);
        // the pins that make the registry valid
        let mut pins = pins_of(&self.hs[h].t);
        self.commits.push(Commit { root, m: self.hs[h].m.clone(), durable: false });
        let crash_at = weighted(&[12, 1, 1]);
        let ok = self.disk.append(LOG, &f).is_ok();
        if crash_at == 1 {
            drop_pins(pins);
            self.restart(true);
            return false;
        }
        let ok = ok && self.disk.sync(LOG).is_ok();
        if ok {
            let c = self.commits.last_mut().unwrap();
            c.durable = true;
            self.durable += 1;
        }
        if crash_at == 2 {
            drop_pins(pins);
            self.restart(true);
            return false;
        }
        if !ok {
            if coin() {
                // take the failed append back and go on with the old registry
                self.commits.pop();
                self.disk.truncate(LOG, self.pos);
                drop_pins(pins);
                return true;
            }
            drop_pins(pins);
            self.restart(coin());
            return false;
        }
        self.pos += f.len();
        self.known = known;
        let mut old = std::mem::take(&mut self.pins);
        if self.prune {
            self.known.retain(|a, _| pins.contains_key(a));
        } else {
            for (a, p) in std::mem::take(&mut old) {
                pins.insert(a, p);
            }
        }
        self.pins = pins;
        drop_pins(old);
        true
    }
    /// rewrite everything into a fresh file
    fn compact(&mut self, h: usize) -> bool {
        let _s = span();
        fired(F::compaction);
        tr!("  compaction with #{h}");
        let mut m = Medium::new(HDR);
        let t = &self.hs[h].t;
        let root = match lib("archive", || t.ser(&mut m)) {
            Ok(p) => p,
            Err(e) => violation("spurious-failure", format!("compaction reports {e:?} although nothing failed")),
        };
        let f = frame(&m.out, root);
        let known = std::mem::take(&mut m.known);
        drop(m);
        self.disk.remove(TMP);
        let ok = self.disk.append(TMP, &f).is_ok() && self.disk.sync(TMP).is_ok();
        let crash_at = weighted(&[8, 1, 1]);
        if crash_at == 1 {
            self.restart(true);
            return false;
        }
        if !ok {
            self.disk.remove(TMP);
            return true;
        }
        self.disk.rename(TMP, LOG);
        self.commits = vec![Commit { root, m: self.hs[h].m.clone(), durable: true }];
        self.durable += 1;
        if crash_at == 2 {
            self.restart(true);
            return false;
        }
        self.pos = f.len();
        let pins = pins_of(&self.hs[h].t);
        let old = std::mem::replace(&mut self.pins, pins);
        drop_pins(old);
        self.known = known;
        true
    }
    fn judge_append(&self, h: usize, m: &Medium, arcs: &Pins<T>) {
        let new: BTreeSet<usize> = arcs.keys().filter(|a| !self.known.contains_key(a)).copied().collect();
        for (a, _) in &m.log {
            check!(new.contains(a), "rewrote-known", "an append writes a child vector that the registry already knows, or that is not part of the tree");
        }
        check!(m.log.len() == new.len(), "append-set", "an append writes {} child vectors, {} are new", m.log.len(), new.len());
        // bytes: the root, and per new child vector its nodes
        let node = std::mem::size_of::<T::Arch>();
        let t = &self.hs[h].t;
        let mut bound = node + t.prefix().len() + 8;
        for a in &new {
            let v = &arcs[a];
            bound += 16;
            for n in v.iter() {
                bound += node + n.prefix().len() + 4;
            }
        }
        check!(m.out.len() <= bound, "append-size", "an append of {} new child vectors writes {} bytes, more than {bound}", new.len(), m.out.len());
        if new.is_empty() {
            probe("appended an unchanged tree (root only)");
        }
    }
    fn finish(mut self) {
        self.verify(None);
        self.forget_memory();
    }
}
fn app<T: Logged>(judge_sharing: bool) -> App<T> {
    let mut kg = KeyGen::draw();
    let m = gen_map(&mut kg, 14);
    let disk = Disk::new();
    let t = build::<T>(&m);
    tr!("{} tree {m:?}", T::NAME);
    App { disk, hs: vec![H { t, m, bent: false }], known: BTreeMap::new(), pins: Pins::<T>::new(), pos: 0, commits: Vec::new(), prune: coin(), kg, judge_sharing, durable: 0 }
}

fn history<T: Logged>() {
    let mut a = app::<T>(false);
    let mask = if chance(1, 3) { K_CLONE | K_CLOSURE } else { 0 };
    for _ in 0..ops(30) {
        let _s = span();
        match weighted(&[8, 5, 1, 1, 1, 2]) {
            0 => {
                let kg = std::mem::replace(&mut a.kg, KeyGen { alpha: 1, maxlen: 1, pool: Vec::new(), small: true });
                let mut env = Env { kg, mask, max_handles: 3, check_all: false, cross: chance(1, 4), slot: 0 };
                step(&mut a.hs, &mut env);
                a.kg = env.kg;
            }
            1 => {
                let h = idx(a.hs.len());
                if a.flush(h) && !a.commits.is_empty() {
                    a.verify(Some(idx(a.commits.len())));
                }
            }
            2 => {
                let h = idx(a.hs.len());
                a.compact(h);
            }
            3 => a.restart(true),
            4 => a.restart(false),
            _ => {
                // keep or drop snapshots, so that memory is reused
                if a.hs.len() > 1 {
                    let i = idx(a.hs.len());
                    drop_h(a.hs.remove(i));
                } else {
                    let t = lib("clone", || a.hs[0].t.clone());
                    let m = a.hs[0].m.clone();
                    let bent = a.hs[0].bent;
                    a.hs.push(H { t, m, bent });
                }
            }
        }
        if a.pos > 300_000 {
            break;
        }
    }
    if a.durable >= 2 {
        nontrivial();
    }
    obs(a.pos as u64);
    a.finish();
}
fn run08() {
    ctx().nontrivial = false;
    if chance(1, 4) {
        history::<LazyT>()
    } else {
        history::<ArcT>()
    }
}

// ---------------------------------------------------------------- C09

/// Compare a snapshot with the tree it was taken from, after an operation with the given operand keys.
fn judge_shared(s: &ArcT, t: &ArcT, keys: &BTreeSet<Key>) {
    fn reached(edge: &[u8], keys: &BTreeSet<Key>) -> bool {
        keys.range(edge.to_vec()..).next().is_some_and(|k| k.starts_with(edge))
    }
    /// the node whose full path is `path`
    fn at<'a>(mut t: &'a ArcT, mut path: &[u8]) -> Option<&'a ArcT> {
        loop {
            path = path.strip_prefix(bs(t.prefix()))?;
            if path.is_empty() {
                return Some(t);
            }
            t = t.children().iter().find(|c| c.prefix()[0].0 == path[0])?;
        }
    }
    fn go(n: &ArcT, path: &mut Key, t: &ArcT, keys: &BTreeSet<Key>, seen: &mut u64) {
        let len = path.len();
        for c in n.children() {
            path.push(c.prefix()[0].0);
            if reached(path, keys) {
                path.truncate(len);
                path.extend_from_slice(bs(c.prefix()));
                go(c, path, t, keys, seen);
            } else {
                path.truncate(len);
                path.extend_from_slice(bs(c.prefix()));
                if !c.children().is_empty() {
                    if let Some(x) = at(t, path) {
                        if !x.children().is_empty() {
                            check!(
                                std::ptr::eq(c.children(), x.children()),
                                "unshared",
                                "the subtree under {path:?}, which no key of the operand reaches, was copied"
                            );
                            *seen += 1;
                        }
                    } else {
                        let kept = t.filter_prefix_count(path);
                        check!(kept == 0, "unshared", "the subtree under {path:?}, which no key of the operand reaches, was taken apart");
                    }
                }
            }
            path.truncate(len);
        }
    }
    let mut seen = 0;
    let mut path = bs(s.prefix()).to_vec();
    let _g = in_lib();
    go(s, &mut path, t, keys, &mut seen);
    drop(path);
    let _o = out_lib();
    if seen > 0 {
        probe_n("unreached subtrees compared", seen);
    }
}
trait Count {
    fn filter_prefix_count(&self, p: &[u8]) -> usize;
}
impl Count for ArcT {
    fn filter_prefix_count(&self, p: &[u8]) -> usize {
        self.iter().filter(|(k, _)| bs(k).starts_with(p)).count()
    }
}
/// modify a handle in place while a snapshot exists
fn modify(a: &mut App<ArcT>) {
    let _s = span();
    let h = idx(a.hs.len());
    let before = reg().clones;
    let snap = lib("clone", || a.hs[h].t.clone());
    let copied = reg().clones - before;
    check!(copied <= 1, "snapshot-copies", "taking a snapshot copied {copied} values");
    check!(std::ptr::eq(snap.children(), a.hs[h].t.children()) || snap.children().is_empty(), "snapshot-copies", "a snapshot does not share the children of the root");
    let sm = a.hs[h].m.clone();
    let op = weighted(&[6, 3, 3, 3, 3, 2, 2, 2]);
    let (om, o) = if op == 0 {
        let k = a.kg.key();
        ([(k, val())].into_iter().collect::<M>(), None)
    } else {
        let mut om = gen_map(&mut a.kg, 4);
        if chance(1, 3) {
            om.extend(sm.iter().filter(|_| chance(1, 3)).map(|(k, v)| (k.clone(), *v)));
        }
        let o = build::<ArcT>(&om);
        (om, Some(o))
    };
    let seed = draw(1 << 20);
    let names = ["insert", "union_with", "outer_combine_with", "difference_with", "left_combine_with", "remove_prefix_with", "intersection_with", "retain_prefix_with"];
    let armed = chance(1, 6);
    if armed {
        ctx().arm_mask = K_CLONE | K_CLOSURE;
        ctx().arm = 1 + draw(12);
    }
    tr!("  #{h} {} with {om:?}", names[op]);
    let r = {
        let t = &mut a.hs[h].t;
        let o = o.as_ref();
        lib_catch(|| match op {
            0 => {
                let (k, v) = om.iter().next().unwrap();
                t.insert(ks(k), E::new(v.0, v.1))
            }
            1 => t.union_with(o.unwrap()),
            2 => t.outer_combine_with(o.unwrap(), move |v, w| f_mut(seed, v, w)),
            3 => t.difference_with(o.unwrap()),
            4 => t.left_combine_with(o.unwrap(), move |v, w: &E| f_mut(seed, v, w)),
            5 => t.remove_prefix_with(o.unwrap(), move |w: &E| {
                callback(K_CLOSURE);
                sel(seed, w.kt())
            }),
            6 => t.intersection_with(o.unwrap()),
            _ => t.retain_prefix_with(o.unwrap(), move |w: &E| {
                callback(K_CLOSURE);
                sel(seed, w.kt())
            }),
        })
    };
    disarm();
    match r {
        Ok(()) => {}
        Err(Stop::Injected) if armed => a.hs[h].bent = true,
        Err(e) => violation("panic", format!("{}: {e:?}", names[op])),
    }
    // contents are the business of C11; here the tree itself says what it holds
    a.hs[h].m = read_tree(names[op], &a.hs[h].t);
    nontrivial();
    let g = read_tree("snapshot", &snap);
    check!(g == sm, "snapshot-changed", "a snapshot changed: {}", diff(&g, &sm));
    let keys: BTreeSet<Key> = om.keys().cloned().collect();
    judge_shared(&snap, &a.hs[h].t, &keys);
    if let Some(o) = o {
        lib("drop", move || drop(o));
    }
    if chance(1, 4) && a.hs.len() < 3 {
        a.hs.push(H { t: snap, m: sm, bent: false });
    } else {
        lib("drop", move || drop(snap));
    }
}
fn run09() {
    ctx().nontrivial = false;
    let mut a = app::<ArcT>(true);
    for _ in 0..ops(20) {
        let _s = span();
        match weighted(&[6, 4, 1, 1, 1, 1]) {
            0 => modify(&mut a),
            1 => {
                let h = idx(a.hs.len());
                a.flush(h);
            }
            2 => {
                let h = idx(a.hs.len());
                a.compact(h);
            }
            3 => a.restart(true),
            4 => a.restart(false),
            _ => {
                if a.hs.len() > 1 {
                    let i = idx(a.hs.len());
                    drop_h(a.hs.remove(i));
                }
            }
        }
        if a.pos > 300_000 {
            break;
        }
    }
    if a.durable >= 2 {
        nontrivial();
    }
    obs(a.pos as u64);
    a.finish();
}
