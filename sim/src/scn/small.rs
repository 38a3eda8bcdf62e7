//! C17: collections that fit their inline capacity, with the heap exhausted.
use super::*;
use crate::rt::arena;
use crate::rt::inst::E;
use smallvec::{Array, SmallVec};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{BitAndAssign, BitOrAssign, BitXorAssign, SubAssign};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

pub const C17: Scn = Scn {
    id: "C17",
    run,
    quick: 2_000_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one library operation ran while every allocation would have failed",
    real: &["vec_set.rs, vec_map.rs, total_vec_set.rs, total_vec_map.rs, merge_state.rs, dedup.rs, iterators.rs", "smallvec, binary-merge, inplace-vec-builder, std sort (dependencies, real code)"],
    stub: &["element, key and value types and functions (instrumented, allocate nothing)", "global allocator (deterministic arena; every request fails while the heap is exhausted)"],
    assumes: &["caller code (elements, closures, source iterators) allocates nothing itself", "a source iterator announces no more elements than it yields"],
};

/// The operation needs no memory by contract: in part of the runs there is none.
fn maybe<T>(entitled: bool, what: &str, f: impl FnOnce() -> T) -> T {
    let out = entitled && !chance(1, 4);
    if out {
        fired(F::no_memory);
        tr!("    !! heap exhausted during {what}");
        arena::a().deny = true;
    }
    let r = lib(what, f);
    arena::a().deny = false;
    r
}
type S = BTreeSet<i32>;
fn read<A: Array<Item = E>>(s: &VecSet<A>) -> S {
    let v: Vec<i32> = s.as_ref().iter().map(|e| e.kt().0).collect();
    check!(v.windows(2).all(|w| w[0] < w[1]), "order", "not ascending: {v:?}");
    obs(v.len() as u64);
    v.into_iter().collect()
}
fn must<A: Array<Item = E>>(what: &str, s: &VecSet<A>, m: &S) {
    let g = read(s);
    check!(g == *m, "wrong-result", "{what}: expected {m:?}, got {g:?}");
}
fn keys(n: u64, range: u64) -> Vec<i32> {
    (0..n).map(|_| draw(range) as i32).collect()
}
fn alg(op: u64, a: &S, b: &S) -> S {
    match op {
        0 => a | b,
        1 => a & b,
        2 => a ^ b,
        _ => a - b,
    }
}
/// a source with an honest hint
struct Src<T> {
    it: std::vec::IntoIter<T>,
    told: bool,
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        callback(K_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.told {
            (self.it.len(), Some(self.it.len()))
        } else {
            (0, None)
        }
    }
}
fn src<T>(v: Vec<T>) -> Src<T> {
    Src { it: v.into_iter(), told: coin() }
}
/// at rest, a collection occupies at most one block of the heap
fn at_rest(n: usize) {
    let b = arena::a().live_blocks;
    check!(b <= n, "blocks", "{n} collections occupy {b} heap blocks");
}
fn interrupt(est: u64, f: impl FnOnce()) -> bool {
    let c = ctx();
    c.arm_mask = K_CMP | K_CLONE | K_CLOSURE | K_ITER;
    c.arm = 1 + draw(est);
    let r = lib_catch(f);
    disarm();
    match r {
        Ok(()) => false,
        Err(Stop::Injected) => true,
        Err(Stop::Lib(m)) => violation("panic", m),
    }
}

fn sets<A: Array<Item = E>, B: Array<Item = E>>() {
    let (na, nb) = (A::size(), B::size());
    let range = pick(&[4u64, 12, 30]).max(na as u64 + 1);
    let mut x: VecSet<A> = VecSet::empty();
    let mut y: VecSet<B> = VecSet::empty();
    let mut t: TotalVecSet<A> = TotalVecSet::empty();
    let (mut xm, mut ym, mut tm, mut neg) = (S::new(), S::new(), S::new(), false);
    for _ in 0..1 + ops(20) {
        let _s = span();
        let union = xm.union(&ym).count();
        let op = draw(4);
        let kind = draw(16);
        tr!("sets {na}/{nb} op {kind}/{op} x={xm:?} y={ym:?}");
        match kind {
            0 | 1 => {
                let n = if chance(3, 4) { draw(na as u64 + 1) } else { draw(2 * na as u64 + 4) };
                let ks = keys(n, range);
                let v: Vec<E> = ks.iter().map(|k| E::new(*k, 0)).collect();
                let it = src(v);
                let how = draw(3);
                let fit = n as usize <= na;
                let m: S = ks.into_iter().collect();
                match how {
                    0 => {
                        let s: VecSet<A> = maybe(fit, "collect", || it.collect());
                        lib("assign", || x = s);
                        xm = m;
                    }
                    1 => {
                        let u: S = xm.union(&m).copied().collect();
                        maybe(fit && u.len() <= na, "extend", || x.extend(it));
                        xm = u;
                    }
                    _ => {
                        // in a vector that fits already
                        let mut b: Vec<E> = Vec::new();
                        lib("reserve", || b = Vec::with_capacity(n as usize));
                        b.extend(it);
                        let s: VecSet<A> = maybe(n <= 20, "From<Vec>", || VecSet::from(b));
                        lib("assign", || x = s);
                        xm = m;
                    }
                }
            }
            2 => {
                let n = draw(nb as u64 + 3);
                let ks = keys(n, range);
                let it = src(ks.iter().map(|k| E::new(*k, 0)).collect());
                let s: VecSet<B> = maybe(n as usize <= nb, "collect", || it.collect());
                lib("assign", || y = s);
                ym = ks.into_iter().collect();
            }
            3 => {
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                match draw(2) {
                    0 => {
                        let s: VecSet<A> = maybe(true, "single", || VecSet::single(e));
                        xm = S::from([k]);
                        maybe(true, "assign", || x = s);
                    }
                    _ => {
                        drop(e);
                        maybe(true, "empty", || x = VecSet::empty());
                        xm = S::new();
                    }
                }
            }
            4 => {
                // questions
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                let x2 = lib("clone", || x.clone());
                let (c, sub, sup, dis, eq, ord, n) = maybe(true, "questions", || {
                    let mut h = Fnv(0);
                    std::hash::Hash::hash(&x, &mut h);
                    (x.contains(&e), x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y), x == x2, x.cmp(&x2), x.iter().count() + x.len() + x.is_empty() as usize)
                });
                lib("drop", move || drop(x2));
                drop(e);
                check!(c == xm.contains(&k) && sub == xm.is_subset(&ym) && sup == xm.is_superset(&ym) && dis == xm.is_disjoint(&ym), "wrong-result", "contains {c}, is_subset {sub}, is_superset {sup}, is_disjoint {dis} for {xm:?} and {ym:?}");
                check!(eq && ord.is_eq() && n == 2 * xm.len() + xm.is_empty() as usize, "wrong-result", "{xm:?}: not equal to its clone, or wrong length");
            }
            5 => {
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                let new = !xm.contains(&k);
                maybe(xm.len() + new as usize <= na || !new, "insert", || x.insert(e));
                xm.insert(k);
            }
            6 => {
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                maybe(true, "remove", || x.remove(&e));
                drop(e);
                xm.remove(&k);
            }
            7 => {
                let sel = draw(1 << 16);
                let keep = move |k: i32| (sel >> (k as u32 % 16)) & 1 == 1;
                maybe(true, "retain", || x.retain(|e| keep(e.kt().0)));
                xm.retain(|k| keep(*k));
                if coin() {
                    maybe(xm.len() <= na, "shrink_to_fit", || x.shrink_to_fit());
                }
            }
            8 => {
                let yc = maybe(ym.len() <= nb, "clone", || y.clone());
                let what = ["union by value", "intersection by value", "symmetric difference by value", "difference by value"][op as usize];
                maybe(union <= na || op & 1 == 1, what, || match op {
                    0 => x.bitor_assign(yc),
                    1 => x.bitand_assign(yc),
                    2 => x.bitxor_assign(yc),
                    _ => x.sub_assign(yc),
                });
                xm = alg(op, &xm, &ym);
            }
            9 => {
                let form = draw(2);
                let what = ["union in place", "intersection in place", "symmetric difference in place", "difference in place"][op as usize];
                maybe(union <= na || op & 1 == 1, what, || match (op, form) {
                    (0, 0) => x.bitor_assign(&y),
                    (1, 0) => x.bitand_assign(&y),
                    (2, 0) => x.bitxor_assign(&y),
                    (3, 0) => x.sub_assign(&y),
                    (0, _) => x.union_with(&y),
                    (1, _) => x.intersection_with(&y),
                    (2, _) => x.xor_with(&y),
                    _ => x.difference_with(&y),
                });
                xm = alg(op, &xm, &ym);
            }
            10 => {
                let m = alg(op, &xm, &ym);
                let what = ["union", "intersection", "symmetric difference", "difference"][op as usize];
                let form = draw(2);
                let s: VecSet<A> = maybe(m.len() <= na, what, || match (op, form) {
                    (0, 0) => &x | &y,
                    (1, 0) => &x & &y,
                    (2, 0) => &x ^ &y,
                    (3, 0) => &x - &y,
                    (0, _) => x.union(&y),
                    (1, _) => x.intersection(&y),
                    (2, _) => x.symmetric_difference(&y),
                    _ => x.difference(&y),
                });
                must(what, &s, &m);
                let s2: VecSet<B> = maybe(m.len() <= nb, what, || match op {
                    0 => AbstractVecSet::union(&x, &y),
                    1 => AbstractVecSet::intersection(&x, &y),
                    2 => AbstractVecSet::symmetric_difference(&x, &y),
                    _ => AbstractVecSet::difference(&x, &y),
                });
                must(what, &s2, &m);
                if coin() {
                    lib("assign", || x = s);
                    xm = m;
                } else {
                    lib("drop", || drop(s));
                }
                lib("drop", || drop(s2));
            }
            11 => {
                let c = maybe(xm.len() <= na, "clone", || x.clone());
                match draw(3) {
                    0 => {
                        let n = maybe(true, "into_iter", || c.into_iter().count());
                        check!(n == xm.len(), "wrong-result", "into_iter gave {n} of {xm:?}");
                    }
                    1 => {
                        let v: SmallVec<A> = maybe(true, "into_inner", || c.into_inner());
                        check!(v.len() == xm.len(), "wrong-result", "into_inner");
                        lib("drop", || drop(v));
                    }
                    _ => lib("assign", || x = c),
                }
            }
            12 => {
                // total sets
                let c = maybe(xm.len() <= na, "clone", || x.clone());
                let u: TotalVecSet<A> = maybe(true, "From<VecSet>", || c.into());
                let n2 = coin();
                let u = if n2 { maybe(true, "not", || !u) } else { u };
                let fit = tm.union(&xm).count() <= na;
                let at = |s: &S, n: bool, k: i32| s.contains(&k) != n;
                let res = |k: i32| {
                    let (a, b) = (at(&tm, neg, k), at(&xm, n2, k));
                    match op {
                        0 => a | b,
                        1 => a & b,
                        2 => a ^ b,
                        _ => a & !b,
                    }
                };
                let far = res(1_000_000);
                let rm: S = (0..range as i32).filter(|k| res(*k) != far).collect();
                if coin() {
                    maybe(fit, "total operation in place", || match op {
                        0 => t.bitor_assign(u),
                        1 => t.bitand_assign(u),
                        2 => t.bitxor_assign(u),
                        _ => t.sub_assign(u),
                    });
                } else {
                    let r = maybe(fit, "total operation", || match op {
                        0 => &t | &u,
                        1 => &t & &u,
                        2 => &t ^ &u,
                        _ => &t - &u,
                    });
                    lib("assign", || {
                        t = r;
                        drop(u);
                    });
                }
                tm = rm;
                neg = far;
                for k in 0..range as i32 {
                    let e = E::new(k, 0);
                    let c = maybe(true, "contains", || t.contains(&e));
                    drop(e);
                    check!(c == (tm.contains(&k) != neg), "wrong-result", "total set: contains {k} is {c}");
                }
            }
            13 => {
                let c = maybe(tm.len() <= na, "clone", || t.clone());
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                let b = maybe(true, "questions of total sets", || (t.is_subset(&c), t.is_superset(&c), t == c, t.is_disjoint(&c) == t.is_empty(), t.is_all(), t.contains(&e)));
                check!(b.0 && b.1 && b.2, "wrong-result", "a total set is not equal to its clone");
                drop(e);
                let n = lib("not", || !&c);
                check!(n.contains(&E::new(k, 0)) != b.5, "wrong-result", "complement");
                lib("drop", || drop((c, n)));
                let e = E::new(k, 0);
                // an element more or less
                maybe(neg || tm.contains(&k) || tm.len() < na, "insert into a total set", || t.insert(e));
                if neg {
                    tm.remove(&k);
                } else {
                    tm.insert(k);
                }
            }
            14 => {
                // leave something odd behind
                let a = xm.clone();
                let hit = interrupt(2 * (xm.len() + ym.len()) as u64 + 2, || match op {
                    0 => x.union_with(&y),
                    1 => x.intersection_with(&y),
                    2 => x.xor_with(&y),
                    _ => x.difference_with(&y),
                });
                xm = read(&x);
                check!(hit || xm == alg(op, &a, &ym), "wrong-result", "in-place operation");
                check!(xm.iter().all(|k| a.contains(k) || ym.contains(k)), "wrong-result", "an element out of nowhere");
            }
            _ => {
                // to the heap and back
                let n = 2 + draw(40);
                lib("grow", || {
                    for i in 0..n {
                        x.insert(E::new(10_000 + i as i32, 0));
                    }
                });
                at_rest(3);
                maybe(true, "retain", || x.retain(|e| e.kt().0 < 10_000));
            }
        }
        must("x", &x, &xm);
        must("y", &y, &ym);
        at_rest(3);
    }
    lib("drop", move || drop((x, y, t)));
}
pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
}

type P = (E, E);
type MM = BTreeMap<i32, i32>;
fn mread<A: Array<Item = P>>(s: &VecMap<A>) -> MM {
    let v: Vec<i32> = s.as_ref().iter().map(|e| e.0.kt().0).collect();
    check!(v.windows(2).all(|w| w[0] < w[1]), "order", "not ascending: {v:?}");
    obs(v.len() as u64);
    s.as_ref().iter().map(|e| (e.0.key, e.1.kt().0)).collect()
}
fn mmust<A: Array<Item = P>>(what: &str, s: &VecMap<A>, m: &MM) {
    let g = mread(s);
    check!(g == *m, "wrong-result", "{what}: expected {m:?}, got {g:?}");
}
fn pairs(n: u64, range: u64) -> Vec<(i32, i32)> {
    (0..n).map(|_| (draw(range) as i32, draw(5) as i32)).collect()
}
/// whether and what a join keeps
fn pick_value(seed: u64, k: i32, v: Option<i32>, w: Option<i32>) -> Option<i32> {
    let h = mix(mix(seed, k as u64), v.unwrap_or(9) as u64 * 64 + w.unwrap_or(9) as u64);
    if h % 3 == 0 {
        None
    } else {
        Some((h >> 8) as i32 & 7)
    }
}
fn tot<A: Array<Item = P>>(m: VecMap<A>, d: i32) -> TotalVecMap<E, A> {
    TotalVecMap::new(m, E::new(d, 0))
}
fn maps<A: Array<Item = P>, B: Array<Item = P>>() {
    let (na, nb) = (A::size(), B::size());
    let range = pick(&[4u64, 12, 30]).max(na as u64 + 1);
    let mut x: VecMap<A> = VecMap::empty();
    let mut y: VecMap<B> = VecMap::empty();
    let (mut xm, mut ym) = (MM::new(), MM::new());
    for _ in 0..1 + ops(20) {
        let _s = span();
        let union = xm.keys().chain(ym.keys()).collect::<BTreeSet<_>>().len();
        let kind = draw(15);
        tr!("maps {na}/{nb} op {kind} x={xm:?} y={ym:?}");
        match kind {
            0 | 1 => {
                let n = if chance(3, 4) { draw(na as u64 + 1) } else { draw(2 * na as u64 + 4) };
                let ps = pairs(n, range);
                let it = src(ps.iter().map(|(k, v)| (E::new(*k, 0), E::new(*v, 0))).collect());
                let fit = n as usize <= na;
                if coin() {
                    let s: VecMap<A> = maybe(fit, "collect", || it.collect());
                    lib("assign", || x = s);
                    xm = ps.into_iter().collect();
                } else {
                    let mut u = xm.clone();
                    u.extend(ps);
                    maybe(fit && u.len() <= na, "extend", || x.extend(it));
                    xm = u;
                }
            }
            2 => {
                let n = draw(nb as u64 + 3);
                let ps = pairs(n, range);
                let it = src(ps.iter().map(|(k, v)| (E::new(*k, 0), E::new(*v, 0))).collect());
                let s: VecMap<B> = maybe(n as usize <= nb, "collect", || it.collect());
                lib("assign", || y = s);
                ym = ps.into_iter().collect();
            }
            3 => {
                let (k, v) = (draw(range) as i32, draw(5) as i32);
                if coin() {
                    let p = (E::new(k, 0), E::new(v, 0));
                    maybe(true, "single", || x = VecMap::single(p));
                    xm = MM::from([(k, v)]);
                } else {
                    maybe(true, "empty", || x = if coin() { VecMap::empty() } else { VecMap::default() });
                    xm = MM::new();
                }
            }
            4 => {
                let k = draw(range) as i32;
                let e = E::new(k, 0);
                let (g, n) = maybe(true, "lookup", || (x.get(&e).map(|v| v.kt().0), x.iter().count() + x.len()));
                let g2 = maybe(true, "get_mut", || x.get_mut(&e).map(|v| v.kt().0));
                drop(e);
                check!(g == xm.get(&k).copied() && g2 == g && n == 2 * xm.len(), "wrong-result", "lookup of {k} in {xm:?}: {g:?} {g2:?}");
            }
            5 => {
                let (k, v) = (draw(range) as i32, draw(5) as i32);
                let (ke, ve) = (E::new(k, 0), E::new(v, 0));
                let fit = xm.contains_key(&k) || xm.len() < na;
                let old = maybe(fit, "insert", || x.insert(ke, ve));
                check!(old.as_ref().map(|e| e.kt().0) == xm.insert(k, v), "wrong-result", "insert returned another value");
                drop(old);
            }
            6 => {
                let sel = draw(1 << 16);
                let keep = move |k: i32| (sel >> (k as u32 % 16)) & 1 == 1;
                maybe(true, "retain", || x.retain(|e| keep(e.0.kt().0)));
                xm.retain(|k, _| keep(*k));
            }
            7 => {
                let yc = maybe(ym.len() <= nb, "clone", || y.clone());
                if coin() {
                    maybe(union <= na, "merge_with", || x.merge_with(yc));
                    xm.extend(ym.iter().map(|(k, v)| (*k, *v)));
                } else {
                    maybe(union <= na, "combine_with", || x.combine_with(yc, |a, b| if a.kt().0 > b.kt().0 { a } else { b }));
                    for (k, v) in &ym {
                        let e = xm.entry(*k).or_insert(*v);
                        *e = (*e).max(*v);
                    }
                }
            }
            8 | 9 => {
                let seed = draw(1 << 20);
                let which = draw(4);
                let what = ["inner_join_with", "left_join_with", "right_join_with", "outer_join_with"][which as usize];
                let put = |k: &E, v: Option<E>, w: Option<&E>| {
                    let (v, w) = (v.map(|v| v.kt().0), w.map(|w| w.kt().0));
                    pick_value(seed, k.kt().0, v, w).map(|x| E::new(x, 0))
                };
                let ks: BTreeSet<i32> = xm.keys().chain(ym.keys()).copied().collect();
                let m: MM = ks
                    .iter()
                    .filter(|k| match which {
                        0 => xm.contains_key(k) && ym.contains_key(k),
                        1 => xm.contains_key(k),
                        2 => ym.contains_key(k),
                        _ => true,
                    })
                    .filter_map(|k| pick_value(seed, *k, xm.get(k).copied(), ym.get(k).copied()).map(|v| (*k, v)))
                    .collect();
                maybe(which < 2 || union <= na, what, || match which {
                    0 => x.inner_join_with(&y, |k, v, w| put(k, Some(v), Some(w))),
                    1 => x.left_join_with(&y, |k, v, w| put(k, Some(v), w)),
                    2 => x.right_join_with(&y, |k, v, w| put(k, v, Some(w))),
                    _ => x.outer_join_with(&y, |a| match a {
                        OuterJoinArg::Left(k, v) => put(k, Some(v), None),
                        OuterJoinArg::Right(k, w) => put(k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => put(k, Some(v), Some(w)),
                    }),
                });
                xm = m;
            }
            10 => {
                let seed = draw(1 << 20);
                let which = draw(4);
                let what = ["inner_join", "left_join", "right_join", "outer_join"][which as usize];
                let put = |k: &E, v: Option<&E>, w: Option<&E>| pick_value(seed, k.kt().0, v.map(|v| v.kt().0), w.map(|w| w.kt().0)).map(|x| E::new(x, 0));
                let ks: BTreeSet<i32> = xm.keys().chain(ym.keys()).copied().collect();
                let m: MM = ks
                    .iter()
                    .filter(|k| match which {
                        0 => xm.contains_key(k) && ym.contains_key(k),
                        1 => xm.contains_key(k),
                        2 => ym.contains_key(k),
                        _ => true,
                    })
                    .filter_map(|k| pick_value(seed, *k, xm.get(k).copied(), ym.get(k).copied()).map(|v| (*k, v)))
                    .collect();
                let r: VecMap<A> = maybe(m.len() <= na, what, || match which {
                    0 => x.inner_join(&y, |k, v, w| put(k, Some(v), Some(w))),
                    1 => x.left_join(&y, |k, v, w| put(k, Some(v), w)),
                    2 => x.right_join(&y, |k, v, w| put(k, v, Some(w))),
                    _ => x.outer_join(&y, |a| match a {
                        OuterJoinArg::Left(k, v) => put(k, Some(v), None),
                        OuterJoinArg::Right(k, w) => put(k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => put(k, Some(v), Some(w)),
                    }),
                });
                mmust(what, &r, &m);
                if coin() {
                    lib("assign", || x = r);
                    xm = m;
                } else {
                    lib("drop", || drop(r));
                }
            }
            11 => {
                let c = maybe(xm.len() <= na, "clone", || x.clone());
                match draw(4) {
                    0 => {
                        let r: VecMap<B> = maybe(xm.len() <= nb, "map_values", || c.map_values(|v| E::new(v.kt().0 + 1, 0)));
                        mmust("map_values", &r, &xm.iter().map(|(k, v)| (*k, v + 1)).collect());
                        lib("assign", || y = r);
                        ym = xm.iter().map(|(k, v)| (*k, v + 1)).collect();
                    }
                    1 => {
                        let n = maybe(true, "into_iter", || c.into_iter().count());
                        check!(n == xm.len(), "wrong-result", "into_iter gave {n} of {xm:?}");
                    }
                    2 => {
                        let v: SmallVec<A> = maybe(true, "into_inner", || c.into_inner());
                        lib("drop", || drop(v));
                    }
                    _ => {
                        let s: VecSet<A> = maybe(true, "VecSet::from", || c.into());
                        lib("drop", || drop(s));
                    }
                }
            }
            12 => {
                // total maps
                let (d1, d2) = (draw(5) as i32, draw(5) as i32);
                let a = maybe(xm.len() <= na, "total map", || tot(x.clone(), d1));
                let y2 = lib("same type", || y.clone().map_values::<E, A, _>(|v| v));
                let b = maybe(true, "total map", || tot(y2, d2));
                let at = |m: &MM, d: i32, k: i32| m.get(&k).copied().unwrap_or(d);
                let which = draw(5);
                let f = |v: i32, w: i32| match which {
                    0 => v.max(w),
                    1 => v.min(w),
                    2 => (v * 7 + w) % 3,
                    3 => v.wrapping_add(w),
                    _ => v,
                };
                let c = match which {
                    0 => maybe(union <= na, "supremum", || a.supremum(&b)),
                    1 => maybe(union <= na, "infimum", || a.infimum(&b)),
                    2 => maybe(union <= na, "combine_ref", || a.combine_ref(&b, |v, w| E::new(f(v.kt().0, w.kt().0), 0))),
                    3 => {
                        let (a, b) = lib("clone", || (a.clone(), b.clone()));
                        maybe(union <= na, "add", || a + b)
                    }
                    _ => maybe(xm.len() <= na, "map_values", || a.map_values(|v| E::new(v.kt().0, 0))),
                };
                for k in 0..range as i32 {
                    let e = E::new(k, 0);
                    let g = maybe(true, "index", || c[&e].kt().0);
                    drop(e);
                    let w = f(at(&xm, d1, k), at(&ym, d2, k));
                    check!(g == w, "wrong-result", "total map at {k}: expected {w}, got {g}");
                }
                lib("drop", move || drop((a, b, c)));
            }
            13 => {
                let hit = interrupt(3 * (xm.len() + ym.len()) as u64 + 2, || x.outer_join_with(&y, |a| {
                    callback(K_CLOSURE);
                    match a {
                        OuterJoinArg::Left(_, v) => Some(v),
                        OuterJoinArg::Right(_, w) => Some(w.clone()),
                        OuterJoinArg::Both(_, v, _) => Some(v),
                    }
                }));
                let _ = hit;
                xm = mread(&x);
            }
            _ => {
                let n = 2 + draw(40);
                lib("grow", || {
                    for i in 0..n {
                        x.insert(E::new(10_000 + i as i32, 0), E::new(0, 0));
                    }
                });
                at_rest(2);
                maybe(true, "retain", || x.retain(|e| e.0.kt().0 < 10_000));
            }
        }
        mmust("x", &x, &xm);
        mmust("y", &y, &ym);
        at_rest(2);
    }
    lib("drop", move || drop((x, y)));
}
fn run() {
    match draw(10) {
        0 => sets::<[E; 4], [E; 4]>(),
        1 => sets::<[E; 1], [E; 2]>(),
        2 => sets::<[E; 2], [E; 8]>(),
        3 => sets::<[E; 8], [E; 1]>(),
        4 => sets::<[E; 16], [E; 8]>(),
        5 => maps::<[P; 4], [P; 4]>(),
        6 => maps::<[P; 1], [P; 2]>(),
        7 => maps::<[P; 2], [P; 8]>(),
        8 => maps::<[P; 8], [P; 1]>(),
        _ => maps::<[P; 16], [P; 8]>(),
    }
}
