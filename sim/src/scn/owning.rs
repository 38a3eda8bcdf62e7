//! C18: owning iterators of radix trees own what they yield.
use super::radix::{settle_threads, Mailed};
use super::tree::*;
use super::*;
use crate::rt::inst::{E, K};
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use vec_collections::radix_tree::IterKey;

pub const C18: Scn = Scn {
    id: "C18",
    run,
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "an execution is non-trivial when items were read after their iterator was dropped or moved to another thread, or a clone failed while iterating",
    real: &["radix_tree/mod.rs (into_iter, Iter, IterKey, values and all tree operations on the other handles), flat_radix_tree.rs, arc_radix_tree.rs, lazy_radix_tree.rs", "parking_lot, std Arc (dependencies, real code)"],
    stub: &["value and key component types, combining functions, predicates (instrumented caller code)", "global allocator (deterministic arena with poison, canaries, leak accounting)", "thread scheduler (one real thread at a time, chosen by the simulator)"],
    assumes: &["value destructors do not panic", "atomic operations are sequentially consistent"],
};

type Want = VecDeque<(Key, (i32, u32))>;
/// an owning iterator and what it has to yield
struct Own<I> {
    it: I,
    want: Want,
    /// so many clones failed: the items they were for may be lost
    lost: usize,
}
struct Item<V> {
    k: IterKey<K>,
    v: V,
    want: (Key, (i32, u32)),
}
/// what is being passed between threads
struct Post<I, V> {
    its: Vec<Own<I>>,
    items: Vec<Item<V>>,
}
struct Cell<I, V>(UnsafeCell<Post<I, V>>);
// harness code of simulated threads is never preempted
unsafe impl<I, V> Sync for Cell<I, V> {}
struct Assert<T>(T);
unsafe impl<T> Send for Assert<T> {}

fn look<V: Borrow<E>>(items: &[Item<V>]) {
    for i in items {
        check!(bs(&i.k) == i.want.0, "item-changed", "a key yielded as {:?} reads {:?} later", i.want.0, bs(&i.k));
        let e: &E = i.v.borrow();
        check!(e.kt() == i.want.1, "item-changed", "the value yielded for {:?} reads {:?} later, not {:?}", i.want.0, e.kt(), i.want.1);
    }
}
fn advance<V: Borrow<E>, I: Iterator<Item = (IterKey<K>, V)>>(o: &mut Own<I>, items: &mut Vec<Item<V>>, fail: bool) {
    let n = 1 + idx(5);
    for _ in 0..n {
        if fail && chance(1, 4) {
            let c = ctx();
            c.arm_mask = K_CLONE;
            c.arm = 1 + draw(2);
        }
        let it = &mut o.it;
        let r = lib_catch(|| it.next());
        disarm();
        match r {
            Err(Stop::Injected) => {
                nontrivial();
                probe("the clone of an item failed");
                o.lost += 1;
            }
            Err(Stop::Lib(m)) => violation("panic", m),
            Ok(None) => {
                if o.lost >= o.want.len() {
                    o.want.clear();
                }
                check!(o.want.is_empty(), "items-missing", "an owning iterator ends before {:?}", o.want[0]);
                check!(lib("next", || o.it.next().is_none()), "items-extra", "an owning iterator that has ended yields another item");
                break;
            }
            Ok(Some((k, v))) => {
                let kk = bs(&k).to_vec();
                let kt = {
                    let e: &E = v.borrow();
                    e.kt()
                };
                while o.lost > 0 && o.want.front().is_some_and(|w| w.0 != kk) {
                    o.want.pop_front();
                    o.lost -= 1;
                }
                o.lost = 0;
                let w = o.want.pop_front();
                check!(w == Some((kk.clone(), kt)), "items-wrong", "an owning iterator yields {kk:?} {kt:?} instead of {w:?}");
                if coin() {
                    items.push(Item { k, v, want: (kk, kt) });
                } else {
                    lib("drop", move || drop((k, v)));
                }
            }
        }
    }
}
fn close<I, V>(items: &mut Vec<Item<V>>, o: Own<I>) {
    let Own { it, want, .. } = o;
    if !want.is_empty() {
        probe("owning iterator dropped before its end");
    }
    lib("drop the iterator", move || drop(it));
    if !items.is_empty() {
        nontrivial();
        probe("items that outlive their iterator");
    }
}

fn go<T: Flav, V: Borrow<E> + 'static, I: Iterator<Item = (IterKey<K>, V)> + 'static>(post: &'static Cell<I, V>, mk: fn(T) -> I, mut hs: Vec<H<T>>, mut env: Env, n: u64, fail: bool, threads: bool, back: fn(Vec<H<T>>)) {
    let post = || unsafe { &mut *post.0.get() };
    let mut its: Vec<Own<I>> = Vec::new();
    let mut items: Vec<Item<V>> = Vec::new();
    for _ in 0..n {
        let _s = span();
        match weighted(&[4, 4, 8, 3, 2, 2, 2]) {
            0 => step(&mut hs, &mut env),
            1 => {
                let i = idx(hs.len());
                let h = if hs.len() > 1 && coin() {
                    hs.remove(i)
                } else {
                    let t = lib("clone", || hs[i].t.clone());
                    H { t, m: hs[i].m.clone(), bent: false }
                };
                if its.len() < 3 {
                    tr!("into_iter of {:?}", h.m);
                    let it = lib("into_iter", || mk(h.t));
                    its.push(Own { it, want: h.m.into_iter().collect(), lost: 0 });
                } else {
                    drop_h(h);
                }
            }
            2 if !its.is_empty() => {
                let i = idx(its.len());
                tr!("next");
                advance(&mut its[i], &mut items, fail);
            }
            3 if !its.is_empty() => {
                let o = its.remove(idx(its.len()));
                tr!("drop an iterator with {} items to go", o.want.len());
                close(&mut items, o);
            }
            4 if its.len() > 1 => {
                // move it somewhere else in memory
                let i = idx(its.len());
                let o = Box::new(its.swap_remove(i));
                its.insert(0, *o);
            }
            5 if threads => {
                if coin() {
                    if !its.is_empty() && post().its.len() < 4 {
                        let o = its.remove(idx(its.len()));
                        tr!("send an iterator with {} items to go", o.want.len());
                        post().its.push(o);
                    }
                    if !items.is_empty() && post().items.len() < 8 {
                        let i = items.remove(idx(items.len()));
                        post().items.push(i);
                    }
                } else {
                    let p = post();
                    if !p.its.is_empty() && its.len() < 3 {
                        let i = idx(p.its.len());
                        its.push(p.its.remove(i));
                        nontrivial();
                        probe("owning iterator taken over from another thread");
                    }
                    if !p.items.is_empty() {
                        let i = idx(p.items.len());
                        items.push(p.items.remove(i));
                    }
                }
            }
            6 if !items.is_empty() => {
                let i = items.swap_remove(idx(items.len()));
                lib("drop an item", move || drop((i.k, i.v)));
            }
            _ => {}
        }
        look(&items);
        sched::pause();
    }
    // the rest, in any order
    while !its.is_empty() || !items.is_empty() {
        look(&items);
        if !its.is_empty() && (items.is_empty() || coin()) {
            let mut o = its.remove(idx(its.len()));
            if coin() {
                while !o.want.is_empty() {
                    advance(&mut o, &mut items, false);
                }
            }
            close(&mut items, o);
        } else {
            let i = items.swap_remove(idx(items.len()));
            lib("drop an item", move || drop((i.k, i.v)));
        }
    }
    back(hs);
}
fn start<T: Flav>(kg: &mut KeyGen) -> H<T> {
    let m = gen_map(kg, 10);
    let t = if coin() {
        build::<T>(&m)
    } else {
        let f = build::<Flat>(&m);
        lib("from", || T::from_flat(f))
    };
    H { t, m, bent: false }
}
fn env(kg: &KeyGen, mask: u32, slot: usize) -> Env {
    Env { kg: KeyGen { alpha: kg.alpha, maxlen: kg.maxlen, pool: kg.pool.clone(), small: true }, mask, max_handles: 3, check_all: coin(), cross: chance(1, 4), slot }
}
fn mail<T: Mailed>(hs: Vec<H<T>>) {
    T::mail().extend(hs)
}
fn done<T: Flav>(mut hs: Vec<H<T>>) {
    for h in &hs {
        let g = read_tree("end", &h.t);
        check!(g == h.m, "content", "{} at the end: {}", T::NAME, diff(&g, &h.m));
    }
    while let Some(h) = hs.pop() {
        drop_h(h)
    }
}

macro_rules! single {
    ($t:ty) => {{
        fn typed<V: Borrow<E> + 'static, I: Iterator<Item = (IterKey<K>, V)> + 'static>(mk: fn($t) -> I) {
            let mut kg = KeyGen::draw();
            let mask = if coin() { K_CLONE | K_CLOSURE } else { 0 };
            let hs = vec![start::<$t>(&mut kg)];
            let c: &'static Cell<I, V> = unsafe { &*Box::into_raw(Box::new(Cell(UnsafeCell::new(Post { its: Vec::new(), items: Vec::new() })))) };
            let e = env(&kg, mask, 0);
            let n = 3 + ops(20);
            go(c, mk, hs, e, n, mask != 0, false, done::<$t>);
            drop(unsafe { Box::from_raw(c as *const _ as *mut Cell<I, V>) });
        }
        typed(|t: $t| t.into_iter())
    }};
}
macro_rules! threaded {
    ($t:ty) => {{
        fn typed<V: Borrow<E> + 'static, I: Iterator<Item = (IterKey<K>, V)> + 'static>(mk: fn($t) -> I) {
            <$t>::mail().clear();
            let mut kg = KeyGen { small: true, ..KeyGen::draw() };
            let mask = if chance(1, 3) { K_CLONE | K_CLOSURE } else { 0 };
            let threads = [2usize, 3][idx(2)];
            let base = start::<$t>(&mut kg);
            let c: &'static Cell<I, V> = unsafe { &*Box::into_raw(Box::new(Cell(UnsafeCell::new(Post { its: Vec::new(), items: Vec::new() })))) };
            let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
            for i in 0..threads {
                let hs = vec![H { t: lib("clone", || base.t.clone()), m: base.m.clone(), bent: false }];
                let a = Assert((hs, env(&kg, mask, 2 * i), 3 + ops(14)));
                jobs.push(Box::new(move || {
                    let a = a;
                    let Assert((hs, e, n)) = a;
                    go(c, mk, hs, e, n, mask != 0, true, mail::<$t>)
                }));
            }
            mail(vec![base]);
            sched::run_threads(jobs);
            // what nobody took
            let mut p = unsafe { Box::from_raw(c as *const _ as *mut Cell<I, V>) }.0.into_inner();
            look(&p.items);
            while let Some(mut o) = p.its.pop() {
                while !o.want.is_empty() {
                    advance(&mut o, &mut p.items, false);
                }
                close(&mut p.items, o);
            }
            look(&p.items);
            let items = p.items;
            lib("drop", move || drop(items.into_iter().map(|i| (i.k, i.v)).collect::<VecDeque<_>>()));
            settle_threads::<$t>();
        }
        typed(|t: $t| t.into_iter())
    }};
}
fn run() {
    match draw(5) {
        0 => single!(Flat),
        1 => single!(ArcT),
        2 => single!(LazyT),
        3 => threaded!(ArcT),
        _ => threaded!(LazyT),
    }
}
