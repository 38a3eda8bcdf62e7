//! C19: documented costs, counted in calls of caller code, hold for every input, whatever the caller's order answers.
use super::arch;
use super::tree::*;
use super::*;
use crate::rt::arena;
use crate::rt::inst::{reg, E};
use rkyv::Archive;
use smallvec::Array;
use std::ops::{BitAndAssign, BitOrAssign, BitXorAssign, SubAssign};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

pub const C19: Scn = Scn {
    id: "C19",
    run,
    quick: 1_200_000,
    thorough: 30_000_000,
    rule: "an execution is non-trivial when the cost of an operation on at least 16 elements was judged",
    real: &["vec_set.rs, vec_map.rs, total_vec_set.rs, total_vec_map.rs", "dedup.rs, merge_state.rs", "radix_tree/*.rs", "smallvec, binary-merge, inplace-vec-builder, std sort and binary search (dependencies, real code)"],
    stub: &["element, key and value types that count what is done with them", "streams", "global allocator (deterministic arena, counts allocations)"],
    assumes: &["cost is counted in comparisons, clones, calls of the combining function and allocations; moves of elements are not seen"],
};

fn lg(n: usize) -> u64 {
    64 - (n as u64).leading_zeros() as u64
}
/// a size, all orders of magnitude alike
fn mag(max: u64) -> usize {
    let b = draw(lg(max as usize) + 1);
    draw((1 << b).min(max) + 1) as usize
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Spent {
    cmps: u64,
    clones: u64,
    closures: u64,
    allocs: u64,
}
/// run one library call and say what it has cost
fn spend<T>(what: &str, lie: bool, n: usize, f: impl FnOnce() -> T) -> (Option<T>, Spent, bool) {
    let c = ctx();
    if lie {
        c.lie = draw(1 << 20) * 2 + 1;
        c.lie_count = 0;
    }
    let b = (c.cmps, reg().clones, c.callbacks, arena::a().allocs);
    let r = lib_catch(f);
    let lied = settle(if lie { Fault::Lie } else { Fault::None });
    let c = ctx();
    let (cmps, clones) = (c.cmps - b.0, reg().clones - b.1);
    let s = Spent { cmps, clones, closures: CLOSURES.swap(0, std::sync::atomic::Ordering::Relaxed), allocs: arena::a().allocs - b.3 };
    if n >= 16 {
        nontrivial();
    }
    obs(cmps);
    match r {
        Ok(t) => (Some(t), s, lied),
        Err(Stop::Injected) => (None, s, lied),
        Err(Stop::Lib(m)) => {
            check!(lied, "panic", "{what}: {m}");
            (None, s, lied)
        }
    }
}
static CLOSURES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn called() {
    CLOSURES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}
fn within(kind: &str, what: &str, cost: u64, max: u64, n: usize, m: usize) {
    if cost > max {
        let k = match kind {
            "comparisons" => "too-many-comparisons",
            "clones" => "too-many-clones",
            "allocations" => "too-many-allocations",
            _ => "too-many-calls",
        };
        violation(k, format!("{what} on {n} and {m} elements takes {cost} {kind}, more than {max}"));
    }
}

/// n distinct keys in ascending order
fn sorted(n: usize) -> Vec<i32> {
    let step = pick(&[2i32, 1, 3, 5]);
    let base = pick(&[0, 1, draw(64) as i32 * 16, -500]);
    let mut v: Vec<i32> = (0..n as i32).map(|i| base + i * step).collect();
    if chance(1, 3) && n > 0 {
        // runs with gaps
        let mut r = Rng(draw(1 << 20));
        let mut at = base;
        for x in v.iter_mut() {
            at += if r.next() % 8 == 0 { 40 } else { 1 };
            *x = at;
        }
    }
    v
}
/// an order in which keys arrive, possibly again and again
fn arrival(mut v: Vec<i32>) -> (Vec<i32>, &'static str) {
    let n = v.len();
    match draw(7) {
        0 => (v, "ascending"),
        1 => {
            v.reverse();
            (v, "descending")
        }
        2 => {
            let mut r = Rng(draw(1 << 20));
            for i in (1..n).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
            (v, "shuffled")
        }
        3 => {
            // each one several times
            fired(F::stream_dup);
            let k = 1 + draw(8) as usize;
            ((0..n).map(|i| v[i / k * k]).collect(), "repeating")
        }
        4 => {
            fired(F::stream_dup);
            let d = 1 + draw(20) as usize;
            ((0..n).map(|i| v[i % d.min(n)]).collect(), "few, over and over")
        }
        5 => {
            // a few are out of place
            fired(F::stream_reorder);
            for _ in 0..1 + draw(4) {
                if n > 1 {
                    let (i, j) = (idx(n), idx(n));
                    v.swap(i, j);
                }
            }
            (v, "almost ascending")
        }
        _ => {
            // saw teeth
            let p = 1 + draw(40) as usize;
            let mut w: Vec<i32> = Vec::new();
            for i in 0..p {
                w.extend(v.iter().skip(i).step_by(p));
            }
            (w, "saw teeth")
        }
    }
}
fn es(v: &[i32]) -> Vec<E> {
    v.iter().map(|k| E::new(*k, 0)).collect()
}
fn ps(v: &[i32]) -> Vec<(E, E)> {
    v.iter().map(|k| (E::new(*k, 0), E::new(k & 7, 0))).collect()
}
struct Src<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn src<T>(v: Vec<T>) -> Src<T> {
    let n = v.len();
    let h = match draw(4) {
        0 | 1 => (n, Some(n)),
        2 => (0, None),
        _ => {
            fired(F::lying_size_hint);
            (n / 2, Some(n / 2))
        }
    };
    Src(v.into_iter(), h)
}

// ------------------------------------------------------------------------------------------- building

/// comparisons documented for a stream of n elements
fn stream_max(n: usize, ascending: bool) -> u64 {
    if ascending {
        4 * n as u64 + 8
    } else {
        n as u64 * lg(n) * lg(n) + 64
    }
}
fn building() {
    // quadratic behaviour with a small constant shows in long streams only
    let n = mag(if chance(1, 16) { 30_000 } else { 3000 });
    let (v, how) = arrival(sorted(n));
    let distinct_ascending = v.windows(2).all(|w| w[0] < w[1]);
    let lie = chance(1, 6);
    ctx().steps += n as u64;
    tr!("{n} elements, {how}, lie {lie}");
    let n = v.len();
    match draw(6) {
        0 => {
            let s = src(es(&v));
            let (r, c, l) = spend("collecting a set", lie, n, || s.collect::<VecSet<[E; 4]>>());
            within("comparisons", &format!("collecting a set, {how}"), c.cmps, stream_max(n, distinct_ascending && !l), n, 0);
            within("clones", "collecting a set", c.clones, 0, n, 0);
            lib("drop", || drop(r));
        }
        1 => {
            let s = src(ps(&v));
            let (r, c, l) = spend("collecting a map", lie, n, || s.collect::<VecMap<[(E, E); 4]>>());
            within("comparisons", &format!("collecting a map, {how}"), c.cmps, stream_max(n, distinct_ascending && !l), n, 0);
            within("clones", "collecting a map", c.clones, 0, n, 0);
            lib("drop", || drop(r));
        }
        2 => {
            let s = es(&v);
            let (r, c, _) = spend("a set from a vector", lie, n, || VecSet::<[E; 4]>::from(s));
            within("comparisons", &format!("a set from a vector, {how}"), c.cmps, 2 * n as u64 * (lg(n) + 1) + 16, n, 0);
            within("clones", "a set from a vector", c.clones, 0, n, 0);
            lib("drop", || drop(r));
        }
        3 => {
            let m = mag(800);
            let mut t: VecSet<[E; 4]> = lib("collect", || es(&sorted(m)).into_iter().collect());
            let s = src(es(&v));
            let (_, c, l) = spend("extending a set", lie, n, || t.extend(s));
            within("comparisons", &format!("extending a set, {how}"), c.cmps, stream_max(n, distinct_ascending && !l) + 4 * (n + m) as u64 + 16, n, m);
            within("clones", "extending a set", c.clones, 0, n, m);
            lib("drop", || drop(t));
        }
        4 => {
            let m = mag(800);
            let mut t: VecMap<[(E, E); 4]> = lib("collect", || ps(&sorted(m)).into_iter().collect());
            let s = src(ps(&v));
            let (_, c, l) = spend("extending a map", lie, n, || t.extend(s));
            within("comparisons", &format!("extending a map, {how}"), c.cmps, stream_max(n, distinct_ascending && !l) + 4 * (n + m) as u64 + 16, n, m);
            within("clones", "extending a map", c.clones, 0, n, m);
            lib("drop", || drop(t));
        }
        _ => {
            // ordered sources are taken as they are
            let (r, c, _) = if coin() {
                let b: std::collections::BTreeSet<E> = es(&v).into_iter().collect();
                let n = b.len();
                let (r, c, l) = spend("a set from an ordered set", lie, n, || VecSet::<[E; 4]>::from(b));
                (r.map(|r| r.len()), c, l)
            } else {
                let b: std::collections::BTreeMap<E, E> = ps(&v).into_iter().collect();
                let (r, c, l) = spend("a map from an ordered map", lie, n, || VecMap::<[(E, E); 4]>::from(b));
                (r.map(|r| r.len()), c, l)
            };
            let _ = r;
            within("comparisons", "from an ordered collection", c.cmps, 4 * n as u64 + 8, n, 0);
            within("clones", "from an ordered collection", c.clones, 0, n, 0);
        }
    }
}

// ------------------------------------------------------------------------------------------- one element

fn single() {
    let n = mag(3000);
    let ks = sorted(n);
    ctx().steps += n as u64;
    let s: VecSet<[E; 4]> = lib("collect", || es(&ks).into_iter().collect());
    let m: VecMap<[(E, E); 4]> = lib("collect", || ps(&ks).into_iter().collect());
    let (lo, hi) = (ks.first().copied().unwrap_or(0), ks.last().copied().unwrap_or(0));
    let look = 2 * lg(n) + 4;
    let ins = 2 * n as u64 + 16;
    let (ss, sp) = arch::archive(&s, 0);
    let (ms, mp) = arch::archive(&m, 0);
    let sa = unsafe { rkyv::archived_value::<VecSet<[E; 4]>>(guard::place(0, &ss, true), sp) };
    let ma = unsafe { rkyv::archived_value::<VecMap<[(E, E); 4]>>(guard::place(1, &ms, true), mp) };
    let mut ts = lib("total", || TotalVecSet::from(s.clone()));
    if coin() {
        ts = lib("not", || !ts);
    }
    let tm = lib("total", || TotalVecMap::new(m.clone(), E::new(9, 0)));
    let (mut s, mut m) = (s, m);
    for _ in 0..1 + draw(6) {
        let _sp = span();
        let k = match draw(4) {
            0 => lo - 1,
            1 => hi + 1,
            2 if n > 0 => ks[idx(n)],
            _ => range(0, (hi - lo).max(0) as u64 + 2) as i32 + lo,
        };
        let e = E::new(k, 0);
        let lie = chance(1, 8);
        let o = draw(12);
        let (what, c, max) = match o {
            0 => ("contains of a set", spend("", lie, n, || s.contains(&e)).1, look),
            1 => ("contains of an archived set", spend("", lie, n, || sa.contains(&e)).1, look),
            2 => ("get of a map", spend("", lie, n, || m.get(&e).is_some()).1, look),
            3 => ("get of an archived map", spend("", lie, n, || ma.get(&e).is_some()).1, look),
            4 => ("get_mut of a map", spend("", lie, n, || m.get_mut(&e).is_some()).1, look),
            5 => ("contains of a total set", spend("", lie, n, || ts.contains(&e)).1, look),
            6 => ("index of a total map", spend("", lie, n, || tm[&e].key).1, look),
            7 => {
                let x = E::new(k, 0);
                ("insert into a set", spend("", lie, n, || s.insert(x)).1, ins)
            }
            8 => ("remove from a set", spend("", lie, n, || s.remove(&e)).1, ins),
            9 => {
                let (x, y) = (E::new(k, 0), E::new(1, 0));
                ("insert into a map", spend("", lie, n, || drop(m.insert(x, y))).1, ins)
            }
            10 => {
                let x = E::new(k, 0);
                ("insert into a total set", spend("", lie, n, || ts.insert(x)).1, ins)
            }
            _ => ("remove from a total set", spend("", lie, n, || ts.remove(&e)).1, ins),
        };
        within("comparisons", what, c.cmps, max, n, 1);
        // a negated set takes an element out by keeping a clone of it
        within("clones", what, c.clones, (o == 11) as u64, n, 1);
        drop(e);
        if lie {
            break;
        }
    }
    lib("drop", move || drop((s, m, ts, tm)));
}

// ------------------------------------------------------------------------------------------- two collections

fn linear(n: usize, m: usize) -> u64 {
    3 * (n + m) as u64 + 32
}
/// keys of two collections: unrelated, alike, one within the other
fn pair() -> (Vec<i32>, Vec<i32>) {
    let a = sorted(mag(if chance(1, 16) { 12_000 } else { 2000 }));
    let thin = |a: &[i32], every: u64| {
        let mut r = Rng(draw(1 << 20));
        a.iter().copied().filter(|_| r.next() % every != 0).collect::<Vec<_>>()
    };
    let b = match draw(6) {
        0 => a.clone(),
        1 => thin(&a, 50),
        2 => thin(&a, 2),
        _ => sorted(mag(2000)),
    };
    if coin() {
        (a, b)
    } else {
        (b, a)
    }
}
fn two_sets() {
    let (kn, km) = pair();
    let (n, m) = (kn.len(), km.len());
    ctx().steps += (n + m) as u64;
    let x: VecSet<[E; 4]> = lib("collect", || es(&kn).into_iter().collect());
    let y: VecSet<[E; 8]> = lib("collect", || es(&km).into_iter().collect());
    let lie = chance(1, 8);
    let op = draw(18);
    let lin = linear(n, m);
    // by reference: only what the result keeps is cloned
    let by_ref = |what: &str, f: &dyn Fn() -> VecSet<[E; 4]>| {
        let (r, c, lied) = spend(what, lie, n + m, f);
        within("comparisons", what, c.cmps, lin, n, m);
        if let Some(r) = r {
            if !lied {
                within("clones", what, c.clones, r.len() as u64, n, m);
            }
            lib("drop", || drop(r));
        }
    };
    let pred = |what: &str, f: &dyn Fn() -> bool| {
        let (_, c, _) = spend(what, lie, n + m, f);
        within("comparisons", what, c.cmps, lin, n, m);
        within("clones", what, c.clones, 0, n, m);
    };
    let arch_y = || {
        let (b, p) = arch::archive(&y, 0);
        unsafe { rkyv::archived_value::<VecSet<[E; 8]>>(guard::place(0, &b, true), p) }
    };
    match op {
        0 => by_ref("set |", &|| &x | &y),
        1 => by_ref("set &", &|| &x & &y),
        2 => by_ref("set ^", &|| &x ^ &y),
        3 => by_ref("set -", &|| &x - &y),
        4 => {
            let a = arch_y();
            by_ref("union with an archived set", &|| x.union(a))
        }
        5 => {
            let a = arch_y();
            by_ref("intersection with an archived set", &|| x.intersection(a))
        }
        6 => pred("is_subset", &|| x.is_subset(&y)),
        7 => pred("is_superset", &|| x.is_superset(&y)),
        8 => pred("is_disjoint", &|| x.is_disjoint(&y)),
        9 => pred("set ==", &|| {
            let z: &[E] = y.as_ref();
            x.as_ref() == z
        }),
        10..=13 => {
            let (mut x, mut b) = (x.clone(), lib("clone", || y.clone()));
            let what = ["set |=", "set &=", "set ^=", "set -="][op as usize - 10];
            let (_, c, _) = spend(what, lie, n + m, || {
                let b = std::mem::replace(&mut b, VecSet::empty());
                match op {
                    10 => x.bitor_assign(b),
                    11 => x.bitand_assign(b),
                    12 => x.bitxor_assign(b),
                    _ => x.sub_assign(b),
                }
            });
            within("comparisons", what, c.cmps, lin, n, m);
            within("clones", what, c.clones, 0, n, m);
            lib("drop", || drop((x, b)));
        }
        14..=16 => {
            let mut t = lib("total", || TotalVecSet::from(x.clone()));
            let mut u = lib("total", || TotalVecSet::from(y.iter().cloned().collect::<VecSet<[E; 4]>>()));
            if coin() {
                t = lib("not", || !t);
            }
            if coin() {
                u = lib("not", || !u);
            }
            if op == 14 {
                let k = draw(4);
                let (r, c, _) = spend("total set operation", lie, n + m, || match k {
                    0 => &t | &u,
                    1 => &t & &u,
                    2 => &t ^ &u,
                    _ => &t - &u,
                });
                within("comparisons", "total set operation", c.cmps, lin, n, m);
                lib("drop", || drop(r));
            } else if op == 15 {
                let k = draw(4);
                let mut v = lib("clone", || u.clone());
                let (_, c, _) = spend("total set operation in place", lie, n + m, || {
                    let v = std::mem::replace(&mut v, TotalVecSet::empty());
                    match k {
                        0 => t |= v,
                        1 => t &= v,
                        2 => t ^= v,
                        _ => t -= v,
                    }
                });
                within("comparisons", "total set operation in place", c.cmps, lin, n, m);
                within("clones", "total set operation in place", c.clones, 0, n, m);
                lib("drop", || drop(v));
            } else {
                let k = draw(3);
                let (_, c, _) = spend("total set predicate", lie, n + m, || match k {
                    0 => t.is_subset(&u),
                    1 => t.is_superset(&u),
                    _ => t.is_disjoint(&u),
                });
                within("comparisons", "total set predicate", c.cmps, lin, n, m);
                within("clones", "total set predicate", c.clones, 0, n, m);
            }
            lib("drop", || drop((t, u)));
        }
        _ => {
            let before = n;
            let mut z = lib("clone", || x.clone());
            let (r, c, lied) = spend("set retain", lie, n, || {
                z.retain(|e| {
                    called();
                    e.key & 1 == 0
                })
            });
            let _ = (r, lied, before);
            within("comparisons", "set retain", c.cmps, 0, n, 0);
            within("clones", "set retain", c.clones, 0, n, 0);
            within("calls", "set retain", c.closures, n as u64, n, 0);
            lib("drop", || drop(z));
        }
    }
    lib("drop", move || drop((x, y)));
}
type P = (E, E);
fn two_maps<A: Array<Item = P>>() {
    let (kn, km) = pair();
    let (n, m) = (kn.len(), km.len());
    ctx().steps += (n + m) as u64;
    let mut x: VecMap<A> = lib("collect", || ps(&kn).into_iter().collect());
    let mut y: VecMap<[P; 8]> = lib("collect", || ps(&km).into_iter().collect());
    let lie = chance(1, 8);
    let op = draw(12);
    let lin = linear(n, m);
    let what = ["outer_join", "left_join", "right_join", "inner_join", "outer_join_with", "left_join_with", "right_join_with", "inner_join_with", "merge_with", "combine_with", "retain", "total combine_ref"][op as usize];
    fn f(e: &E) -> Option<E> {
        called();
        if e.key & 3 == 3 {
            None
        } else {
            Some(E::new(e.key, 1))
        }
    }
    let mut z: VecMap<A> = VecMap::empty();
    let c = match op {
        0..=3 => {
            let (r, c, _) = spend(what, lie, n + m, || match op {
                0 => x.outer_join::<E, E, _, A>(&y, |a| match a {
                    OuterJoinArg::Left(_, v) => f(v),
                    OuterJoinArg::Right(_, w) => f(w),
                    OuterJoinArg::Both(_, v, _) => f(v),
                }),
                1 => x.left_join::<E, E, _, A>(&y, |_, v, _| f(v)),
                2 => x.right_join::<E, E, _, A>(&y, |_, _, w| f(w)),
                _ => x.inner_join::<E, E, _, A>(&y, |_, v, _| f(v)),
            });
            z = r.unwrap_or_else(|| VecMap::empty());
            c
        }
        4..=7 => {
            spend(what, lie, n + m, || match op {
                4 => x.outer_join_with(&y, |a| match a {
                    OuterJoinArg::Left(_, v) => f(&v),
                    OuterJoinArg::Right(_, w) => f(w),
                    OuterJoinArg::Both(_, v, _) => f(&v),
                }),
                5 => x.left_join_with(&y, |_, v, _| f(&v)),
                6 => x.right_join_with(&y, |_, _, w| f(w)),
                _ => x.inner_join_with(&y, |_, v, _| f(&v)),
            })
            .1
        }
        8 => {
            spend(what, lie, n + m, || {
                let y = std::mem::replace(&mut y, VecMap::empty());
                x.merge_with(y)
            })
            .1
        }
        9 => {
            spend(what, lie, n + m, || {
                let y = std::mem::replace(&mut y, VecMap::empty());
                x.combine_with(y, |v, _| {
                    called();
                    v
                })
            })
            .1
        }
        10 => {
            spend(what, lie, n + m, || {
                x.retain(|(_, v)| {
                    called();
                    v.key & 1 == 0
                })
            })
            .1
        }
        _ => {
            let t = lib("total", || TotalVecMap::<E, [P; 4]>::new(x.as_ref().iter().cloned().collect(), E::new(9, 0)));
            let u = lib("total", || TotalVecMap::<E, [P; 4]>::new(y.as_ref().iter().cloned().collect(), E::new(9, 0)));
            let (r, mut c, _) = spend(what, lie, n + m, || {
                t.combine_ref(&u, |a, b| {
                    called();
                    E::new(a.key + b.key, 0)
                })
            });
            // values are compared with the default as well
            c.cmps = c.cmps.saturating_sub((n + m) as u64);
            c.closures = c.closures.saturating_sub(1);
            lib("drop", move || drop((r, t, u)));
            c
        }
    };
    within("comparisons", what, c.cmps, lin, n, m);
    // keys of the result may be cloned, values are up to the function
    let clones = match op {
        0..=3 | 11 => (n + m) as u64,
        4 | 6 => m as u64,
        _ => 0,
    };
    within("clones", what, c.clones, clones, n, m);
    within("calls", what, c.closures, (n + m) as u64, n, m);
    lib("drop", move || drop((x, y, z)));
}

// ------------------------------------------------------------------------------------------- trees

fn tree_keys(n: usize) -> (Vec<Key>, &'static str) {
    let n = n.max(1);
    let mut r = Rng(draw(1 << 20));
    let shape = draw(4);
    let ks: Vec<Key> = match shape {
        0 => (0..n).map(|i| vec![(i / 200) as u8, (i % 200) as u8]).collect(),
        1 => (0..n).map(|i| format!("{i}").into_bytes()).collect(),
        2 => (0..n).map(|_| (0..1 + r.next() % 12).map(|_| (r.next() % 3) as u8).collect()).collect(),
        _ => (0..n).map(|_| (0..2 + r.next() % 4).map(|_| (r.next() % 100) as u8).collect()).collect(),
    };
    (ks, ["two levels", "decimal", "deep", "wide"][shape as usize])
}
fn tree_of<T: Flav>(ks: &[Key]) -> T {
    lib("build", || {
        let mut t = T::empty();
        for k in ks {
            t.insert(ks_(k), E::new(1, 0));
        }
        t
    })
}
fn ks_(k: &[u8]) -> &[crate::rt::inst::K] {
    ks(k)
}
/// comparisons of key components to find one place in a tree
fn path_max(len: usize) -> u64 {
    (len as u64 + 1) * 20 + 8
}
fn trees<T: Flav>(shared: bool) {
    let n = mag(1200);
    let (kk, how) = tree_keys(n);
    let n = kk.len();
    ctx().steps += n as u64;
    let mut t = tree_of::<T>(&kk);
    let entries = lib("count", || t.values().count());
    tr!("{} with {entries} entries, {how}", T::NAME);
    for _ in 0..1 + draw(5) {
        let _sp = span();
        let mut k = kk[idx(n)].clone();
        match draw(4) {
            0 => k.truncate(idx(k.len() + 1)),
            1 => k.push(draw(100) as u8),
            2 => {
                let i = idx(k.len().max(1));
                if let Some(x) = k.get_mut(i) {
                    *x = draw(200) as u8
                }
            }
            _ => (),
        }
        let q = ks(&k);
        let len = k.len();
        let max = path_max(len);
        let op = draw(9);
        let what = ["get", "contains_key", "scan_prefix", "filter_prefix", "prepend_prefix", "clone", "insert", "first entry", "is_empty"][op as usize];
        let what = &format!("{what} of a {} tree", T::NAME);
        let c = match op {
            0 => spend(what, false, entries, || t.get(q).is_some()).1,
            1 => spend(what, false, entries, || t.contains_key(q)).1,
            2 => {
                let (r, c, _) = spend(what, false, entries, || t.scan_prefix(q).next().is_some());
                let _ = r;
                c
            }
            3 => {
                let (r, c, _) = spend(what, false, entries, || t.filter_prefix(q));
                if shared {
                    within("clones", what, c.clones, 4, entries, len);
                    within("allocations", what, c.allocs, 8, entries, len);
                }
                let r = r.unwrap();
                let got = lib("count", || r.values().count());
                within("clones", what, c.clones, got as u64 + 4, entries, len);
                lib("drop", || drop(r));
                c
            }
            4 => {
                let p: Key = (0..draw(20)).map(|i| i as u8).collect();
                let (_, mut c, _) = spend(what, false, entries, || t.prepend(ks(&p)));
                within("clones", what, c.clones, 0, entries, len);
                within("allocations", what, c.allocs, 8, entries, len);
                within("comparisons", what, c.cmps, 0, entries, len);
                c.cmps = 0;
                // and back
                let u = lib("filter", || t.filter_prefix(ks(&p)));
                lib("drop", || drop(std::mem::replace(&mut t, u)));
                if !p.is_empty() {
                    lib("drop", || drop(std::mem::replace(&mut t, tree_of::<T>(&kk))));
                }
                c
            }
            5 => {
                let (r, c, _) = spend(what, false, entries, || t.clone());
                if shared {
                    within("clones", what, c.clones, 4, entries, len);
                    within("allocations", what, c.allocs, 8, entries, len);
                }
                lib("drop", || drop(r));
                c
            }
            6 => {
                let e = E::new(2, 0);
                let (_, c, _) = spend(what, false, entries, || drop(t.insert(q, e)));
                // the tree is not shared: it is changed where it is, other entries are not touched
                within("clones", what, c.clones, 4 * len as u64 + 16, entries, len);
                within("allocations", what, c.allocs, 16 * len as u64 + 48, entries, len);
                c
            }
            7 => {
                let (_, c, _) = spend(what, false, entries, || t.iter().next().is_some());
                within("comparisons", what, c.cmps, 0, entries, len);
                c
            }
            _ => spend(what, false, entries, || t.is_empty()).1,
        };
        within("comparisons", what, c.cmps, max, entries, len);
    }
    lib("drop", move || drop(t));
}
/// lookups in archived trees, and in trees loaded from them on demand
fn archived_trees<T: Flav>() {
    let (kk, how) = tree_keys(mag(600));
    ctx().steps += kk.len() as u64;
    let t = tree_of::<Flat>(&kk);
    let entries = lib("count", || t.values().count());
    let t = lib("convert", || T::from_flat(t));
    let a = T::root(guard::place(0, &lib("archive", || t.archive()), true));
    tr!("{} with {entries} entries, {how}", T::NAME);
    let lazy: Option<T> = if coin() { lib("open", || T::from_arch(a)) } else { None };
    for _ in 0..1 + draw(6) {
        let _sp = span();
        let mut k = kk[idx(kk.len())].clone();
        match draw(3) {
            0 => k.truncate(idx(k.len() + 1)),
            1 => k.push(draw(100) as u8),
            _ => (),
        }
        let q = ks(&k);
        let max = path_max(k.len());
        let what = &format!("lookup in an archived {} tree", T::NAME);
        let c = match draw(3) {
            0 => spend(what, false, entries, || a.get(q).is_some()).1,
            1 => spend(what, false, entries, || a.contains_key(q)).1,
            _ => spend(what, false, entries, || a.scan_prefix(q).next().is_some()).1,
        };
        within("comparisons", what, c.cmps, max, entries, k.len());
        within("clones", what, c.clones, 0, entries, k.len());
        if let Some(l) = &lazy {
            let what = &format!("lookup in a {} tree from an archive", T::NAME);
            let c = spend(what, false, entries, || l.get(q).is_some()).1;
            within("comparisons", what, c.cmps, max, entries, k.len());
        }
    }
    lib("drop", move || drop((t, lazy)));
}
fn two_trees<T: Flav>() {
    let (n, m) = (mag(600), mag(600));
    let ((kn, _), (mut km, _)) = (tree_keys(n), tree_keys(m));
    match draw(6) {
        0 => km = kn.clone(),
        1 => km = kn.iter().step_by(3).cloned().collect(),
        _ => (),
    }
    let (n, m) = (kn.len(), km.len());
    let parts: u64 = kn.iter().chain(&km).map(|k| k.len() as u64 + 1).sum();
    let deep = kn.iter().chain(&km).map(|k| k.len()).max().unwrap_or(0) as u64;
    ctx().steps += (n + m) as u64;
    let mut x = tree_of::<T>(&kn);
    let y = tree_of::<T>(&km);
    let op = draw(9);
    let what = ["union_with", "intersection_with", "difference_with", "union", "intersection", "difference", "is_subset", "is_superset", "is_disjoint"][op as usize];
    let what = &format!("{what} of {} trees", T::NAME);
    let c = match op {
        0 => spend(what, false, n + m, || x.union_with(&y)).1,
        1 => spend(what, false, n + m, || x.intersection_with(&y)).1,
        2 => spend(what, false, n + m, || x.difference_with(&y)).1,
        3 | 4 | 5 => {
            let (r, c, _) = spend(what, false, n + m, || match op {
                3 => x.union(&y),
                4 => x.intersection(&y),
                _ => x.difference(&y),
            });
            if let Some(r) = r {
                let got = lib("count", || r.values().count());
                // a part may be copied once per level on the way to its place
                within("clones", what, c.clones, ((3 + deep) * (n + m) as u64).max(got as u64) + 8, n, m);
                lib("drop", || drop(r));
            }
            c
        }
        6 => spend(what, false, n + m, || x.is_subset(&y)).1,
        7 => spend(what, false, n + m, || x.is_superset(&y)).1,
        _ => spend(what, false, n + m, || x.is_disjoint(&y)).1,
    };
    within("comparisons", what, c.cmps, 4 * parts + 16, n, m);
    if op >= 6 {
        within("clones", what, c.clones, 0, n, m);
    }
    lib("drop", move || drop((x, y)));
}

fn run() {
    let _ = std::mem::size_of::<<VecSet<[E; 4]> as Archive>::Archived>();
    match draw(13) {
        0 | 1 | 2 => building(),
        3 | 4 => single(),
        5 | 6 => two_sets(),
        7 => two_maps::<[P; 4]>(),
        8 => two_maps::<[P; 1]>(),
        9 => trees::<ArcT>(true),
        10 => trees::<Flat>(false),
        11 => match draw(3) {
            0 => archived_trees::<Flat>(),
            1 => archived_trees::<ArcT>(),
            _ => archived_trees::<LazyT>(),
        },
        _ => {
            if coin() {
                two_trees::<Flat>()
            } else {
                two_trees::<ArcT>()
            }
        }
    }
}
