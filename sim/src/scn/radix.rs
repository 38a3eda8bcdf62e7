//! C10: isolation of snapshots under preemption. C11: radix trees under failing caller code.
use super::tree::*;
use vec_collections::radix_tree::{Iter, IterKey};
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::{reg, E, K};
use std::cell::UnsafeCell;
use std::collections::HashSet;

const REAL: &[&str] = &["radix_tree/mod.rs", "radix_tree/flat_radix_tree.rs", "radix_tree/arc_radix_tree.rs", "radix_tree/lazy_radix_tree.rs", "merge_state.rs", "inplace-vec-builder, binary-merge, smallvec, parking_lot, rkyv, std Arc (dependencies, real code)"];
const STUB: &[&str] = &["value and key component types, combining functions, predicates (instrumented caller code)", "global allocator (deterministic arena with poison, canaries, leak accounting)", "thread scheduler (one real thread at a time, chosen by the simulator)"];

pub const C11: Scn = Scn {
    id: "C11",
    run: run11,
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "an execution is non-trivial when at least one panic was injected into a value clone, combining function or predicate inside a tree operation",
    real: REAL,
    stub: STUB,
    assumes: &["value destructors do not panic", "comparisons of key components do not panic and are a total order", "structural == of plain trees is not claimed for trees an interrupted in-place operation went through"],
};
pub const C10: Scn = Scn {
    id: "C10",
    run: run10,
    quick: 1_200_000,
    thorough: 20_000_000,
    rule: "an execution is non-trivial when at least one thread was preempted inside a tree operation, or a value was reached through several handles",
    real: REAL,
    stub: STUB,
    assumes: &["value destructors do not panic", "atomic operations are sequentially consistent (weak-memory reorderings are not simulated)"],
};

fn history<T: Flav>() {
    let kg = KeyGen::draw();
    let mut env = Env { kg, mask: K_CLONE | K_CLOSURE, max_handles: 4, check_all: chance(2, 3), cross: true, slot: 0 };
    let mut hs: Vec<H<T>> = Vec::new();
    for _ in 0..1 + draw(2) {
        let m = gen_map(&mut env.kg, 12);
        let t = build::<T>(&m);
        tr!("{} #{} starts as {m:?}", T::NAME, hs.len());
        hs.push(H { t, m, bent: false });
    }
    for _ in 0..ops(24) {
        step(&mut hs, &mut env);
    }
    for h in &hs {
        let g = read_tree("end", &h.t);
        check!(g == h.m, "content", "{} at the end: {}", T::NAME, diff(&g, &h.m));
    }
    while let Some(h) = hs.pop() {
        drop_h(h);
    }
}
fn run11() {
    match draw(3) {
        0 => history::<Flat>(),
        1 => history::<ArcT>(),
        _ => history::<LazyT>(),
    }
}

// ---------------------------------------------------------------- C10

struct Mail<T>(UnsafeCell<Vec<H<T>>>);
unsafe impl<T> Sync for Mail<T> {}
/// Flavours whose handles can be sent between threads.
/// Harness code of simulated threads is never preempted, so plain access is exclusive.
pub trait Mailed: Flav {
    fn mail() -> &'static mut Vec<H<Self>>;
}
macro_rules! mailed {
    ($t:ty) => {
        impl Mailed for $t {
            fn mail() -> &'static mut Vec<H<$t>> {
                static MAIL: Mail<$t> = Mail(UnsafeCell::new(Vec::new()));
                unsafe { &mut *MAIL.0.get() }
            }
        }
    };
}
mailed!(ArcT);
mailed!(LazyT);

/// an iterator or a reference obtained from a handle, kept while other handles are modified
pub struct Held<T: Flav> {
    it: Option<Iter<'static, K, E, T>>,
    refs: Vec<(&'static E, (i32, u32))>,
    want: std::vec::IntoIter<(Key, (i32, u32))>,
    keys: Vec<(IterKey<K>, Key)>,
    tree: Box<T>,
    m: M,
}
impl<T: Flav> Held<T> {
    pub fn new(h: &H<T>, kg: &mut KeyGen) -> Self {
        let t = lib("clone", || h.t.clone());
        let tree = Box::new(t);
        let r: &'static T = unsafe { &*(tree.as_ref() as *const T) };
        let mut refs = Vec::new();
        for k in h.m.keys().filter(|_| coin()) {
            let e = lib("get", || r.get(ks(k)));
            check!(e.is_some(), "lookup", "get {k:?} on a fresh clone finds nothing");
            refs.push((e.unwrap(), h.m[k]));
        }
        let (it, want) = if coin() {
            let p = kg.key();
            let p: &'static [u8] = unsafe { &*(p.as_slice() as *const [u8]) };
            // scan_prefix copies the prefix into the iterator's key before it returns
            (lib("scan_prefix", || r.scan_prefix(ks(p))), m_prefix(&h.m, p))
        } else {
            (lib("iter", || r.iter()), h.m.clone())
        };
        let w: Vec<_> = want.into_iter().collect();
        Held { it: Some(it), refs, want: w.into_iter(), keys: Vec::new(), tree, m: h.m.clone() }
    }
    pub fn advance(&mut self, n: usize) {
        for _ in 0..n {
            let Some(it) = &mut self.it else { break };
            let g = lib("next", || it.next().map(|(k, v)| { let _o = out_lib(); (k, v.kt()) }));
            let g = g.map(|(k, v)| {
                let kk = bs(&k).to_vec();
                // keep some of the keys
                if coin() {
                    self.keys.push((k, kk.clone()));
                } else {
                    lib("drop", move || drop(k));
                }
                (kk, v)
            });
            let w = self.want.next();
            check!(g == w, "iterator-isolation", "an iterator obtained earlier yields {g:?} instead of {w:?} after other handles were modified");
            if g.is_none() {
                let it = self.it.take();
                lib("drop", move || drop(it));
                probe("held iterator ran to its end");
            }
        }
        for (k, kk) in &self.keys {
            check!(bs(k) == kk, "key-isolation", "a key the iterator yielded as {kk:?} reads {:?} later", bs(k));
        }
        for (e, kt) in &self.refs {
            check!(e.kt() == *kt, "reference-isolation", "a reference obtained earlier reads {:?} instead of {kt:?}", e.kt());
        }
    }
    pub fn close(mut self) {
        self.advance(1000);
        let Held { it, tree, m, keys, .. } = self;
        lib("drop", move || drop((it, keys)));
        let g = read_tree("held", tree.as_ref());
        check!(g == m, "content", "a snapshot changed while an iterator over it was open: {}", diff(&g, &m));
        let t = *tree;
        lib("drop", move || drop(t));
    }
}

pub fn worker<T: Mailed>(mut hs: Vec<H<T>>, mut env: Env, n: u64) {
    let mut held: Option<Held<T>> = None;
    for _ in 0..n {
        let _s = span();
        match weighted(&[10, 3, 3, 4]) {
            0 => step(&mut hs, &mut env),
            1 => {
                // give a snapshot to whoever takes it
                let i = idx(hs.len());
                let h = if hs.len() > 1 && coin() {
                    hs.remove(i)
                } else {
                    let t = lib("clone", || hs[i].t.clone());
                    H { t, m: hs[i].m.clone(), bent: false }
                };
                if T::mail().len() < 6 {
                    tr!("thread sends a snapshot of {} entries", h.m.len());
                    T::mail().push(h);
                } else {
                    drop_h(h);
                }
            }
            2 => {
                if !T::mail().is_empty() {
                    let i = idx(T::mail().len());
                    let h = T::mail().remove(i);
                    tr!("thread takes a snapshot of {} entries", h.m.len());
                    probe("snapshot taken over from another thread");
                    add(&mut hs, &env, h);
                }
            }
            _ => match &mut held {
                Some(x) => {
                    if coin() {
                        let n = 1 + idx(4);
                        x.advance(n)
                    } else {
                        held.take().unwrap().close()
                    }
                }
                None => held = Some(Held::new(&hs[idx(hs.len())], &mut env.kg)),
            },
        }
        sched::pause();
    }
    if let Some(x) = held {
        x.close();
    }
    for h in hs {
        T::mail().push(h);
    }
}

fn run10() {
    ArcT::mail().clear();
    let kg = KeyGen { small: true, ..KeyGen::draw() };
    let threads = [2usize, 1, 3][idx(3)];
    let mask = if chance(1, 3) { K_CLONE | K_CLOSURE } else { 0 };
    if chance(1, 300) {
        sched::enable_steps(pick(&[1_000u64, 4_000]), false);
    }
    let mut env0 = Env { kg, mask: 0, max_handles: 3, check_all: true, cross: true, slot: 0 };
    let m = gen_map(&mut env0.kg, 12);
    let t = build::<ArcT>(&m);
    let base = H { t, m, bent: false };
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for i in 0..threads {
        // every thread starts from snapshots of one tree
        let mut hs = vec![H { t: lib("clone", || base.t.clone()), m: base.m.clone(), bent: false }];
        if coin() {
            let m = gen_map(&mut env0.kg, 6);
            hs.push(H { t: build::<ArcT>(&m), m, bent: false });
        }
        let env = Env {
            kg: KeyGen { alpha: env0.kg.alpha, maxlen: env0.kg.maxlen, pool: env0.kg.pool.clone(), small: true },
            mask,
            max_handles: 3,
            check_all: coin(),
            cross: chance(1, 3),
            slot: 2 * i,
        };
        let n = ops(14);
        jobs.push(Box::new(move || worker(hs, env, n)));
    }
    if coin() {
        ArcT::mail().push(base);
    } else {
        drop_h(base);
    }
    sched::run_threads(jobs);
    settle_threads::<ArcT>();
}
/// after the threads: every handle reads as its model, and the values alive are exactly the reachable ones
pub fn settle_threads<T: Mailed>() {
    let mut hs = std::mem::take(T::mail());
    loop {
        let mut ids: HashSet<u32> = HashSet::new();
        let mut uses = 0;
        for h in &hs {
            lib("values", || {
                for v in h.t.values() {
                    let _o = out_lib();
                    ids.insert(v.iid());
                    uses += 1;
                }
            });
        }
        if uses > ids.len() {
            nontrivial();
            probe("values shared between handles at the end");
        }
        check!(ids.len() == reg().live, "value-lifetime", "{} values are alive but {} are reachable", reg().live, ids.len());
        for h in &hs {
            let g = read_tree("end", &h.t);
            check!(g == h.m, "content", "{} at the end: {}", T::NAME, diff(&g, &h.m));
        }
        match hs.pop() {
            Some(h) => drop_h(h),
            None => break,
        }
    }
}
