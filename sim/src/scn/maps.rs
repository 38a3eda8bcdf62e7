//! C02: map joins, merges and arithmetic under failing caller code.
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::{a_add, a_div, a_mul, a_sub, reg, E};
use smallvec::{Array, SmallVec};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap, VecSet};

pub const C02: Scn = Scn {
    id: "C02",
    run,
    quick: 2_000_000,
    thorough: 30_000_000,
    rule: "an execution is non-trivial when at least one fault (a panic in, or a wrong answer from, a comparison, clone, source iterator or combining function) was injected into a library operation",
    real: &["vec_map.rs", "total_vec_map.rs", "btree_map.rs", "merge_state.rs", "dedup.rs", "smallvec, binary-merge, inplace-vec-builder, std BTreeMap (dependencies, real code)"],
    stub: &["key and value types, combining functions, predicates and source iterators (instrumented caller code)", "global allocator (deterministic arena with poison, canaries, leak accounting)"],
    assumes: &["key and value destructors do not panic"],
};

/// key -> (value, value tag)
pub type MM = BTreeMap<i32, (i32, u32)>;
type Pair = (E, E);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dec {
    Drop,
    Keep,
    New(i32, u32),
}
fn dec(seed: u64, kind: u8, k: i32, v: Option<i32>, w: Option<i32>) -> Dec {
    let h = mix(mix(mix(mix(seed, kind as u64), k as u64), v.map(|x| x as u64).unwrap_or(99)), w.map(|x| x as u64).unwrap_or(98));
    match h % 5 {
        0 if seed & 1 == 1 => Dec::Drop,
        1 | 2 => Dec::Keep,
        _ => Dec::New(((h >> 8) % 13) as i32 - 6, (h >> 32) as u32 | 0x8000_0000),
    }
}
#[derive(Default)]
struct Log {
    calls: RefCell<Vec<(i32, u8)>>,
}
impl Log {
    fn call(&self, k: i32, kind: u8) {
        {
            let _o = out_lib();
            self.calls.borrow_mut().push((k, kind));
        }
        callback(K_CLOSURE);
    }
}
const LEFT: u8 = 0;
const RIGHT: u8 = 1;
const BOTH: u8 = 2;

/// by-reference decision: the caller's combining function
fn f_ref(seed: u64, log: &Log, k: &E, v: Option<&E>, w: Option<&E>) -> Option<E> {
    let kind = match (v.is_some(), w.is_some()) {
        (true, false) => LEFT,
        (false, true) => RIGHT,
        _ => BOTH,
    };
    let (kk, vv, ww) = (k.kt().0, v.map(|x| x.kt().0), w.map(|x| x.kt().0));
    log.call(kk, kind);
    match dec(seed, kind, kk, vv, ww) {
        Dec::Drop => None,
        Dec::Keep => Some(v.or(w).unwrap().clone()),
        Dec::New(x, t) => Some(E::new(x, t)),
    }
}
/// in-place decision: owns the old value
fn f_own(seed: u64, log: &Log, k: &E, v: Option<E>, w: Option<&E>) -> Option<E> {
    let kind = match (v.is_some(), w.is_some()) {
        (true, false) => LEFT,
        (false, true) => RIGHT,
        _ => BOTH,
    };
    let (kk, vv, ww) = (k.kt().0, v.as_ref().map(|x| x.kt().0), w.map(|x| x.kt().0));
    log.call(kk, kind);
    match dec(seed, kind, kk, vv, ww) {
        Dec::Drop => None,
        Dec::Keep => Some(match v {
            Some(v) => v,
            None => w.unwrap().clone(),
        }),
        Dec::New(x, t) => Some(E::new(x, t)),
    }
}
/// expected result and calls of a join covering the given kinds
fn model_join(seed: u64, kinds: &[u8], a: &MM, b: &MM) -> (MM, Vec<(i32, u8)>) {
    let keys: BTreeSet<i32> = a.keys().chain(b.keys()).copied().collect();
    let mut r = MM::new();
    let mut calls = Vec::new();
    for k in keys {
        let (v, w) = (a.get(&k), b.get(&k));
        let kind = match (v.is_some(), w.is_some()) {
            (true, false) => LEFT,
            (false, true) => RIGHT,
            _ => BOTH,
        };
        if !kinds.contains(&kind) {
            continue;
        }
        calls.push((k, kind));
        match dec(seed, kind, k, v.map(|x| x.0), w.map(|x| x.0)) {
            Dec::Drop => {}
            Dec::Keep => {
                r.insert(k, *v.or(w).unwrap());
            }
            Dec::New(x, t) => {
                r.insert(k, (x, t));
            }
        }
    }
    (r, calls)
}

fn read<'a>(what: &str, it: impl Iterator<Item = (&'a E, &'a E)>) -> MM {
    let mut r = MM::new();
    let mut last = None;
    for (k, v) in it {
        let kk = k.kt().0;
        check!(last.map(|l| l < kk).unwrap_or(true), "order", "{what}: keys are not strictly ascending at {kk}");
        last = Some(kk);
        r.insert(kk, v.kt());
        obs(kk as u64);
        obs(v.key as u64);
    }
    r
}
/// order-insensitive read after a lying comparison: only touches every element
fn touch(s: &[Pair]) {
    for (k, v) in s {
        k.ok();
        v.ok();
    }
}
fn vread<A: Array<Item = Pair>>(what: &str, m: &VecMap<A>) -> MM {
    read(what, m.as_ref().iter().map(|p| (&p.0, &p.1)))
}
fn bread(what: &str, m: &BTreeMap<E, E>) -> MM {
    read(what, BTreeMap::iter(m))
}

fn pairs(range: i64) -> Vec<Pair> {
    let given = ctx().next_keys.take();
    if given.is_some() || range == BULK && !chance(1, 4) {
        let ks = given.unwrap_or_else(|| meet(bulk_keys()));
        return ks.into_iter().map(|k| (E::new(k, fresh_tag()), E::new(k.rem_euclid(7) - 3, fresh_tag()))).collect();
    }
    let n = size(pick(&[6, 20, 60]));
    let base = draw(range as u64) as i32;
    let run = chance(1, 4);
    let ks = meet((0..n).map(|i| if run { base + i as i32 } else { draw(range as u64) as i32 }).collect());
    ks.into_iter().map(|k| (E::new(k, fresh_tag()), E::new(draw(7) as i32 - 3, fresh_tag()))).collect()
}
fn last_wins(v: &[Pair]) -> MM {
    v.iter().map(|(k, v)| (k.key, (v.key, v.tag))).collect()
}
fn build<A: Array<Item = Pair>>(range: i64) -> (VecMap<A>, MM) {
    let v = pairs(range);
    let m = last_wins(&v);
    let s: VecMap<A> = match draw(4) {
        0 => lib("collect", || v.into_iter().collect()),
        1 => lib("extend", || {
            let mut s = VecMap::default();
            s.extend(v);
            s
        }),
        2 => lib("insert", || {
            let mut s = VecMap::empty();
            for (k, x) in v {
                s.insert(k, x);
            }
            s
        }),
        _ => {
            let mut b = BTreeMap::new();
            for (k, x) in v {
                b.insert(k, x);
            }
            lib("From<BTreeMap>", || VecMap::from(b))
        }
    };
    let got = vread("build", &s);
    check!(got == m, "wrong-result", "building a map: expected {m:?}, got {got:?}");
    (s, m)
}
fn est(a: &MM, b: &MM) -> u64 {
    let n = (a.len() + b.len()) as u64;
    match draw(3) {
        0 => 3,
        1 => n + 2,
        _ => 4 * n + 4,
    }
}
const MASK: u32 = K_CMP | K_CLONE | K_CLOSURE | K_ITER;

fn check_calls(what: &str, log: &Log, exp: &[(i32, u8)]) {
    let mut got = log.calls.borrow().clone();
    got.sort();
    let mut e = exp.to_vec();
    e.sort();
    check!(got == e, "call-count", "{what}: the combining function was called for {got:?}, the join covers {e:?}");
}

/// after a panic: every entry's value is one of the operands' or one the combining function made
fn plausible(what: &str, seed: u64, got: &MM, a: &MM, b: &MM) {
    for (k, v) in got {
        let (x, w) = (a.get(k), b.get(k));
        check!(x.is_some() || w.is_some(), "foreign-after-panic", "{what} interrupted by a panic: key {k} is from neither operand");
        let made = [(x, None, LEFT), (None, w, RIGHT), (x, w, BOTH)]
            .iter()
            .any(|(x, w, kind)| matches!(dec(seed, *kind, *k, x.map(|y| y.0), w.map(|y| y.0)), Dec::New(p, t) if (p, t) == *v));
        check!(x == Some(v) || w == Some(v) || made, "foreign-after-panic", "{what} interrupted by a panic: value {v:?} of key {k} has no origin");
    }
}

/// in-place operation on a vec map
#[allow(clippy::too_many_arguments)]
fn settle_target<A: Array<Item = Pair>>(what: &str, f: Fault, r: Result<(), Stop>, x: &mut VecMap<A>, xm: &mut MM, ym: &MM, seed: u64, exp: MM, log: Option<(&Log, &[(i32, u8)])>) {
    let lied = settle(f);
    match r {
        Ok(()) if !lied => {
            let got = vread(what, x);
            check!(got == exp, "wrong-result", "{what}: expected {exp:?}, got {got:?}");
            if let Some((l, c)) = log {
                check_calls(what, l, c);
            }
            *xm = exp;
        }
        Err(Stop::Injected) => {
            probe("target checked after injected panic");
            let got = vread("target after a panic", x);
            plausible(what, seed, &got, xm, ym);
            *xm = got;
        }
        Err(Stop::Lib(m)) if !lied => violation("panic", format!("{what}: {m}")),
        _ => {
            touch(x.as_ref());
            lib("reset", || *x = VecMap::empty());
            xm.clear();
        }
    }
}
fn settle_new<A: Array<Item = Pair>>(what: &str, f: Fault, r: Result<VecMap<A>, Stop>, exp: &MM, log: Option<(&Log, &[(i32, u8)])>) -> Option<VecMap<A>> {
    let lied = settle(f);
    match r {
        Ok(s) => {
            if lied {
                touch(s.as_ref());
                lib("drop", || drop(s));
                return None;
            }
            let got = vread(what, &s);
            check!(got == *exp, "wrong-result", "{what}: expected {exp:?}, got {got:?}");
            if let Some((l, c)) = log {
                check_calls(what, l, c);
            }
            Some(s)
        }
        Err(Stop::Injected) => None,
        Err(Stop::Lib(m)) => {
            check!(lied, "panic", "{what}: {m}");
            None
        }
    }
}

const KINDS: [(&str, &[u8]); 4] = [("inner", &[BOTH]), ("left", &[LEFT, BOTH]), ("right", &[RIGHT, BOTH]), ("outer", &[LEFT, RIGHT, BOTH])];

fn history<A: Array<Item = Pair>, B: Array<Item = Pair>>() {
    let range = key_range();
    let mut xs: Vec<(VecMap<A>, MM)> = (0..2).map(|_| build::<A>(range)).collect();
    let mut ys: Vec<(VecMap<B>, MM)> = (0..2).map(|_| build::<B>(range)).collect();
    let n = 1 + ops(14);
    for _ in 0..n {
        let _s = span();
        let xi = idx(2);
        let yi = idx(2);
        let kind = draw(11);
        let seed = draw(1 << 30);
        if related(xs[xi].1.keys().copied()) {
            let new = build::<B>(range);
            lib("assign", || ys[yi] = new);
        }
        let (x, xm) = &mut xs[xi];
        let (y, ym) = &mut ys[yi];
        let y: &VecMap<B> = y;
        let ym: &MM = ym;
        let j = idx(4);
        let (jn, kinds) = KINDS[j];
        tr!("op {kind} {jn} x={xm:?} y={ym:?}");
        let log = Log::default();
        match kind {
            0..=2 => {
                let (exp, calls) = model_join(seed, kinds, xm, ym);
                let what = format!("{jn} join by reference");
                let other_cap = coin();
                let f = arm(MASK, est(xm, ym), true);
                let l = &log;
                let xr: &VecMap<A> = x;
                if other_cap {
                    let r: Result<VecMap<B>, Stop> = lib_catch(|| match j {
                        0 => xr.inner_join(y, |k, v, w| f_ref(seed, l, k, Some(v), Some(w))),
                        1 => xr.left_join(y, |k, v, w| f_ref(seed, l, k, Some(v), w)),
                        2 => xr.right_join(y, |k, v, w| f_ref(seed, l, k, v, Some(w))),
                        _ => xr.outer_join(y, |a| match a {
                            OuterJoinArg::Left(k, v) => f_ref(seed, l, k, Some(v), None),
                            OuterJoinArg::Right(k, w) => f_ref(seed, l, k, None, Some(w)),
                            OuterJoinArg::Both(k, v, w) => f_ref(seed, l, k, Some(v), Some(w)),
                        }),
                    });
                    if let Some(s) = settle_new(&what, f, r, &exp, Some((l, &calls))) {
                        lib("drop", || drop(s));
                    }
                } else {
                    let r: Result<VecMap<A>, Stop> = lib_catch(|| match j {
                        0 => xr.inner_join(y, |k, v, w| f_ref(seed, l, k, Some(v), Some(w))),
                        1 => xr.left_join(y, |k, v, w| f_ref(seed, l, k, Some(v), w)),
                        2 => xr.right_join(y, |k, v, w| f_ref(seed, l, k, v, Some(w))),
                        _ => xr.outer_join(y, |a| match a {
                            OuterJoinArg::Left(k, v) => f_ref(seed, l, k, Some(v), None),
                            OuterJoinArg::Right(k, w) => f_ref(seed, l, k, None, Some(w)),
                            OuterJoinArg::Both(k, v, w) => f_ref(seed, l, k, Some(v), Some(w)),
                        }),
                    });
                    let res = settle_new(&what, f, r, &exp, Some((l, &calls)));
                    check!(vread("operand", x) == *xm, "operand-changed", "{what} changed its left operand");
                    if let Some(s) = res {
                        lib("assign", || *x = s);
                        *xm = exp;
                    }
                }
                check!(vread("operand", y) == *ym, "operand-changed", "{what} changed its right operand");
                check!(vread("operand", x) == *xm, "operand-changed", "{what} changed its left operand");
            }
            3 | 4 => {
                let (exp, calls) = model_join(seed, kinds, xm, ym);
                let what = format!("{jn} join in place");
                let f = arm(MASK, est(xm, ym), true);
                let l = &log;
                let r = lib_catch(|| match j {
                    0 => x.inner_join_with(y, |k, v, w| f_own(seed, l, k, Some(v), Some(w))),
                    1 => x.left_join_with(y, |k, v, w| f_own(seed, l, k, Some(v), w)),
                    2 => x.right_join_with(y, |k, v, w| f_own(seed, l, k, v, Some(w))),
                    _ => x.outer_join_with(y, |a| match a {
                        OuterJoinArg::Left(k, v) => f_own(seed, l, k, Some(v), None),
                        OuterJoinArg::Right(k, w) => f_own(seed, l, k, None, Some(w)),
                        OuterJoinArg::Both(k, v, w) => f_own(seed, l, k, Some(v), Some(w)),
                    }),
                });
                settle_target(&what, f, r, x, xm, ym, seed, exp, Some((l, &calls)));
                check!(vread("operand", y) == *ym, "operand-changed", "{what} changed its operand");
            }
            5 | 6 => {
                // by value: merge_with is right biased, combine_with calls the function on collisions
                let merge = coin();
                let yc = lib("clone", || y.clone());
                let mut exp = xm.clone();
                let mut calls = Vec::new();
                for (k, w) in ym {
                    match xm.get(k) {
                        None => {
                            exp.insert(*k, *w);
                        }
                        Some(v) => {
                            calls.push((*k, BOTH));
                            let c = if merge {
                                *w
                            } else {
                                match dec(seed, BOTH, v.0, Some(v.0), Some(w.0)) {
                                    Dec::New(p, t) => (p, t),
                                    Dec::Keep => *v,
                                    Dec::Drop => *w,
                                }
                            };
                            exp.insert(*k, c);
                        }
                    }
                }
                let f = arm(MASK, est(xm, ym), true);
                let what = if merge { "merge_with" } else { "combine_with" };
                let calls_n = std::cell::Cell::new(0usize);
                let r = lib_catch(|| {
                    if merge {
                        x.merge_with(yc)
                    } else {
                        x.combine_with(yc, |v, w| {
                            calls_n.set(calls_n.get() + 1);
                            let (vk, wk) = (v.kt().0, w.kt().0);
                            callback(K_CLOSURE);
                            match dec(seed, BOTH, vk, Some(vk), Some(wk)) {
                                Dec::New(p, t) => E::new(p, t),
                                Dec::Keep => v,
                                Dec::Drop => w,
                            }
                        })
                    }
                });
                let done = r.is_ok() && ctx().lie_count == 0;
                // values made by combine_with depend on the values only
                let mut b2 = ym.clone();
                if r.is_err() {
                    for (k, v) in &exp {
                        if b2.contains_key(k) {
                            b2.insert(*k, *v);
                        }
                    }
                    let got = if f == Fault::Lie { MM::new() } else { vread("target after a panic", x) };
                    for (k, v) in &got {
                        check!(xm.get(k) == Some(v) || ym.get(k) == Some(v) || exp.get(k) == Some(v), "foreign-after-panic", "{what} interrupted by a panic: value {v:?} of key {k} has no origin");
                        b2.insert(*k, *v);
                    }
                }
                settle_target(what, f, r, x, xm, &b2, seed, exp, None);
                if done && !merge {
                    check!(calls_n.get() == calls.len(), "call-count", "combine_with called the function {} times for {} common keys", calls_n.get(), calls.len());
                }
            }
            7 => {
                let k = draw(range as u64) as i32;
                let e = (E::new(k, fresh_tag()), E::new(draw(7) as i32, fresh_tag()));
                let v = e.1.kt();
                let mut exp = xm.clone();
                let old = exp.insert(k, v);
                let mut b = MM::new();
                b.insert(k, v);
                let f = arm(K_CMP, 7, true);
                let mut ret = None;
                let r = lib_catch(|| ret = x.insert(e.0, e.1));
                let ok = r.is_ok() && ctx().lie_count == 0;
                settle_target("insert", f, r, x, xm, &b, seed, exp, None);
                if ok {
                    let rr = ret.as_ref().map(|e| e.kt());
                    check!(rr == old, "wrong-result", "insert of {k} returned {rr:?}, expected {old:?}");
                }
                lib("drop", || drop(ret));
            }
            8 => {
                let sel = draw(1 << 16);
                let pred = |k: i32| (sel >> (k as u32 % 16)) & 1 == 1;
                let exp: MM = xm.iter().filter(|e| !pred(*e.0)).map(|(k, v)| (*k, *v)).collect();
                let f = arm(K_CLOSURE, xm.len() as u64 + 1, false);
                let r = lib_catch(|| {
                    x.retain(|(k, v)| {
                        k.ok();
                        v.ok();
                        callback(K_CLOSURE);
                        !pred(k.key)
                    })
                });
                settle_target("retain", f, r, x, xm, &MM::new(), seed, exp, None);
            }
            9 => {
                let v = pairs(range);
                let b = last_wins(&v);
                let mut exp = xm.clone();
                exp.extend(b.iter().map(|(k, v)| (*k, *v)));
                let allowed: MM = v.iter().map(|(k, v)| (k.key, (v.key, v.tag))).collect();
                let all: Vec<(i32, (i32, u32))> = v.iter().map(|(k, v)| (k.key, (v.key, v.tag))).collect();
                let f = arm(MASK, est(xm, &allowed), true);
                let mut it = v.into_iter();
                let r = lib_catch(|| {
                    x.extend(std::iter::from_fn(|| {
                        callback(K_ITER);
                        it.next()
                    }))
                });
                drop(it);
                let mut b2 = b;
                if r.is_err() && f != Fault::Lie {
                    for (k, v) in vread("target after a panic", x) {
                        if all.contains(&(k, v)) {
                            b2.insert(k, v);
                        }
                    }
                }
                settle_target("extend", f, r, x, xm, &b2, seed, exp, None);
            }
            _ => match draw(6) {
                0 => {
                    let f = arm(K_CLONE, 2 * xm.len() as u64 + 1, false);
                    let r = lib_catch(|| x.clone());
                    if let Some(s) = settle_new("clone", f, r, xm, None) {
                        lib("drop", || drop(std::mem::replace(x, s)));
                    }
                }
                1 if chance(1, 3) => {
                    // to values of another type, larger or smaller
                    let old = lib("take", || std::mem::take(x));
                    let exp: Vec<(i32, u64)> = xm.iter().map(|(k, v)| (*k, v.0 as u32 as u64 % 200)).collect();
                    let f = arm(K_CLOSURE, xm.len() as u64 + 1, false);
                    let r: Result<Vec<(i32, u64)>, Stop> = if coin() {
                        let r = lib_catch(|| {
                            old.map_values::<(u64, E, u64), [(E, (u64, E, u64)); 2], _>(|v| {
                                callback(K_CLOSURE);
                                (1, E::new(0, 0), v.kt().0 as u32 as u64 % 200)
                            })
                        });
                        settle(f);
                        r.map(|s| {
                            let got = s.as_ref().iter().map(|p| (p.0.kt().0, p.1 .2)).collect();
                            lib("drop", || drop(s));
                            got
                        })
                    } else {
                        let r = lib_catch(|| {
                            old.map_values::<u8, [(E, u8); 1], _>(|v| {
                                callback(K_CLOSURE);
                                (v.kt().0 as u32 % 200) as u8
                            })
                        });
                        settle(f);
                        r.map(|s| {
                            let got = s.as_ref().iter().map(|p| (p.0.kt().0, p.1 as u64)).collect();
                            lib("drop", || drop(s));
                            got
                        })
                    };
                    xm.clear();
                    match r {
                        Ok(got) => check!(got == exp, "wrong-result", "map_values to another type: expected {exp:?}, got {got:?}"),
                        Err(Stop::Injected) => {}
                        Err(Stop::Lib(m)) => violation("panic", format!("map_values: {m}")),
                    }
                }
                1 => {
                    // map_values consumes the map
                    let old = lib("take", || std::mem::take(x));
                    let exp: MM = xm.iter().map(|(k, v)| (*k, (v.0 * 2 + 1, v.1))).collect();
                    let f = arm(K_CLOSURE, xm.len() as u64 + 1, false);
                    let r: Result<VecMap<A>, Stop> = lib_catch(|| {
                        old.map_values(|v| {
                            let (p, t) = v.kt();
                            callback(K_CLOSURE);
                            E::new(p * 2 + 1, t)
                        })
                    });
                    xm.clear();
                    if let Some(s) = settle_new("map_values", f, r, &exp, None) {
                        *x = s;
                        *xm = exp;
                    }
                }
                2 => {
                    let k = E::new(draw(range as u64) as i32, 0);
                    let f = arm(K_CMP, 7, true);
                    let r = lib_catch(|| x.get(&k).map(|v| v.kt()));
                    let lied = settle(f);
                    if let (Ok(g), false) = (r, lied) {
                        check!(g == xm.get(&k.key).copied(), "wrong-result", "get({}) gave {g:?}", k.key);
                    }
                    let nv = E::new(draw(7) as i32, fresh_tag());
                    let nkt = nv.kt();
                    let done = lib("get_mut", || match x.get_mut(&k) {
                        Some(v) => {
                            *v = nv;
                            true
                        }
                        None => false,
                    });
                    check!(done == xm.contains_key(&k.key), "wrong-result", "get_mut({})", k.key);
                    if done {
                        xm.insert(k.key, nkt);
                    }
                }
                3 => {
                    let old = lib("take", || std::mem::take(x));
                    let keep = draw(xm.len() as u64 + 1) as usize;
                    let mut it = lib("into_iter", || old.into_iter());
                    let exp: Vec<(i32, (i32, u32))> = xm.iter().take(keep).map(|(k, v)| (*k, *v)).collect();
                    let mut got = Vec::new();
                    for _ in 0..keep {
                        let e = lib("next", || it.next());
                        if let Some((k, v)) = &e {
                            got.push((k.kt().0, v.kt()));
                        }
                        lib("drop element", || drop(e));
                    }
                    check!(got == exp, "wrong-result", "into_iter yielded {got:?}, expected {exp:?}");
                    lib("drop iterator", || drop(it));
                    xm.clear();
                }
                4 => {
                    let e = (E::new(draw(range as u64) as i32, 0), E::new(1, fresh_tag()));
                    let (k, v) = (e.0.key, e.1.kt());
                    let s = lib("single", || VecMap::single(e));
                    lib("assign", || *x = s);
                    xm.clear();
                    xm.insert(k, v);
                }
                _ => {
                    let got: MM = lib("&into_iter", || (&*x).into_iter().map(|p| (p.0.kt().0, p.1.kt())).collect());
                    check!(got == *xm, "wrong-result", "iterating over a reference gave {got:?} of {xm:?}");
                    lib("drop", || drop(got));
                    let c = lib("clone", || x.clone());
                    let v: SmallVec<A> = lib("into SmallVec", || c.into());
                    check!(v.iter().map(|p| (p.0.kt().0, p.1.kt())).eq(xm.iter().map(|(k, v)| (*k, *v))), "wrong-result", "conversion to a SmallVec");
                    lib("drop", || drop(v));
                    let c = lib("clone", || x.clone());
                    let s: VecSet<A> = lib("into set", || c.into());
                    let got: Vec<(i32, (i32, u32))> = s.as_ref().iter().map(|p| (p.0.kt().0, p.1.kt())).collect();
                    check!(got == xm.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "wrong-result", "conversion to a set");
                    lib("drop", || drop(s));
                    check!(x.len() == xm.len() && x.is_empty() == xm.is_empty(), "wrong-result", "len");
                }
            },
        }
        let live: usize = 2 * (xs.iter().map(|p| p.1.len()).sum::<usize>() + ys.iter().map(|p| p.1.len()).sum::<usize>());
        check!(reg().live == live, "element-leak", "{} keys and values are alive, the maps hold {live}", reg().live);
    }
    lib("drop all", || {
        drop(std::mem::take(&mut xs));
        drop(std::mem::take(&mut ys));
    });
}

// --------------------------------------------------------------------------------------- std BTreeMap

fn bbuild(range: i64) -> (BTreeMap<E, E>, MM) {
    let v = pairs(range);
    let m = last_wins(&v);
    (lib("build", || v.into_iter().collect::<BTreeMap<E, E>>()), m)
}
type AB = rkyv::collections::ArchivedBTreeMap<E, E>;
/// an archive of the map that lives until slot `i` is used again
fn barchive(i: usize, m: &BTreeMap<E, E>) -> &'static AB {
    let (b, pos) = super::arch::archive(m, 4 * idx(3));
    unsafe { rkyv::archived_value::<BTreeMap<E, E>>(guard::place(i, &b, coin()), pos) }
}
/// what the abstraction over both kinds of maps shows
fn babstract(what: &str, x: &impl AbstractBTreeMap<E, E>, m: &MM, range: i64) {
    let g = read(what, lib("iter", || AbstractBTreeMap::iter(x)));
    check!(g == *m, "view", "{what}: iteration through AbstractBTreeMap gives {g:?} instead of {m:?}");
    let k = E::new(draw(range as u64 + 1) as i32, 0);
    let g = lib("get", || AbstractBTreeMap::get(x, &k)).map(|v| v.kt());
    check!(g == m.get(&k.key).copied(), "view", "{what}: get({}) through AbstractBTreeMap gives {g:?}", k.key);
}
fn bjoin<X: AbstractBTreeMap<E, E>, Y: AbstractBTreeMap<E, E>>(j: usize, x: &X, y: &Y, seed: u64, l: &Log) -> BTreeMap<E, E> {
    match j {
        0 => x.inner_join::<_, _, _, ()>(y, |k, v, w| f_ref(seed, l, k, Some(v), Some(w))),
        1 => x.left_join(y, |k, v, w| f_ref(seed, l, k, Some(v), w)),
        2 => x.right_join(y, |k, v, w| f_ref(seed, l, k, v, Some(w))),
        _ => x.outer_join(y, |a| match a {
            OuterJoinArg::Left(k, v) => f_ref(seed, l, k, Some(v), None),
            OuterJoinArg::Right(k, w) => f_ref(seed, l, k, None, Some(w)),
            OuterJoinArg::Both(k, v, w) => f_ref(seed, l, k, Some(v), Some(w)),
        }),
    }
}
fn bjoin_with<Y: AbstractBTreeMap<E, E>>(j: usize, x: &mut BTreeMap<E, E>, y: &Y, act: impl Fn(&E, &mut E, Option<&E>) -> bool, seed: u64, l: &Log) {
    match j {
        0 => x.inner_join_with(y, |k, v, w| act(k, v, Some(w))),
        1 => x.left_join_with(y, act),
        2 => x.right_join_with(y, |k, v, w| match v {
            Some(v) => act(k, v, Some(w)),
            None => {
                l.call(k.kt().0, RIGHT);
                true
            }
        }),
        _ => x.outer_join_with(y, act, |k, w| f_own(seed, l, k, None, Some(w))),
    }
}
fn btree() {
    let range = key_range();
    let mut xs: Vec<(BTreeMap<E, E>, MM)> = (0..2).map(|_| bbuild(range)).collect();
    let n = 1 + ops(10);
    // what the standard library's own map leaked: it builds in bulk without guarding against a
    // panicking comparison, which is its business
    let mut lost = 0;
    for _ in 0..n {
        let _s = span();
        let xi = idx(2);
        let yi = 1 - xi;
        let j = idx(4);
        let (jn, kinds) = KINDS[j];
        let seed = draw(1 << 30);
        let in_place = coin();
        if related(xs[xi].1.keys().copied()) {
            let new = bbuild(range);
            lib("assign", || xs[yi] = new);
        }
        let (xm, ym) = (xs[xi].1.clone(), xs[yi].1.clone());
        tr!("btree {jn} in_place={in_place} x={xm:?} y={ym:?}");
        let log = Log::default();
        let mut interrupted = false;
        let l = &log;
        let (mut x, y) = (std::mem::take(&mut xs[xi].0), std::mem::take(&mut xs[yi].0));
        // the same maps in an archive
        let ax = if !in_place && chance(1, 4) { Some(barchive(0, &x)) } else { None };
        let ay = if chance(1, 4) { Some(barchive(1, &y)) } else { None };
        match (ax, ay) {
            (_, Some(a)) => babstract("archived map", a, &ym, range),
            (Some(a), _) => babstract("archived map", a, &xm, range),
            _ => babstract("map", &x, &xm, range),
        }
        if !in_place {
            let (exp, calls) = model_join(seed, kinds, &xm, &ym);
            let f = arm(MASK, est(&xm, &ym), false);
            let r: Result<BTreeMap<E, E>, Stop> = lib_catch(|| match (ax, ay) {
                (None, None) => bjoin(j, &x, &y, seed, l),
                (Some(x), None) => bjoin(j, x, &y, seed, l),
                (None, Some(y)) => bjoin(j, &x, y, seed, l),
                (Some(x), Some(y)) => bjoin(j, x, y, seed, l),
            });
            settle(f);
            check!(bread("operand", &x) == xm && bread("operand", &y) == ym, "operand-changed", "btree {jn} join changed an operand");
            match r {
                Ok(s) => {
                    let got = bread("result", &s);
                    check!(got == exp, "wrong-result", "btree {jn} join: expected {exp:?}, got {got:?}");
                    check_calls("btree join", l, &calls);
                    lib("assign", || x = s);
                    xs[xi].1 = exp;
                }
                Err(Stop::Injected) => interrupted = true,
                Err(Stop::Lib(m)) => violation("panic", format!("btree {jn} join: {m}")),
            }
        } else {
            // in place on the standard map: the function sees a mutable value and answers whether to keep it
            let act = |k: &E, v: &mut E, w: Option<&E>| -> bool {
                let kind = if w.is_some() { BOTH } else { LEFT };
                let (kk, vv, ww) = (k.kt().0, v.kt().0, w.map(|x| x.kt().0));
                l.call(kk, kind);
                match dec(seed, kind, kk, Some(vv), ww) {
                    Dec::Drop => false,
                    Dec::Keep => true,
                    Dec::New(p, t) => {
                        *v = E::new(p, t);
                        true
                    }
                }
            };
            let (mut exp, mut calls) = model_join(seed, kinds, &xm, &ym);
            if j == 2 {
                // a right join in place cannot add entries: the function only sees that a key is missing
                exp.retain(|k, _| xm.contains_key(k));
                calls = ym.keys().map(|k| (*k, if xm.contains_key(k) { BOTH } else { RIGHT })).collect();
            }
            let f = arm(MASK, est(&xm, &ym), false);
            let r = lib_catch(|| match ay {
                None => bjoin_with(j, &mut x, &y, act, seed, l),
                Some(y) => bjoin_with(j, &mut x, y, act, seed, l),
            });
            settle(f);
            check!(bread("operand", &y) == ym, "operand-changed", "btree {jn} join in place changed its operand");
            match r {
                Ok(()) => {
                    let got = bread("result", &x);
                    check!(got == exp, "wrong-result", "btree {jn} join in place of {xm:?} with {ym:?}: expected {exp:?}, got {got:?}");
                    check_calls("btree join in place", l, &calls);
                    xs[xi].1 = exp;
                }
                Err(Stop::Injected) => {
                    let got = bread("target after a panic", &x);
                    plausible("btree join in place", seed, &got, &xm, &ym);
                    xs[xi].1 = got;
                    interrupted = true;
                }
                Err(Stop::Lib(m)) => violation("panic", format!("btree {jn} join in place: {m}")),
            }
        }
        xs[xi].0 = x;
        xs[yi].0 = y;
        let live: usize = 2 * xs.iter().map(|p| p.1.len()).sum::<usize>() + lost;
        if interrupted {
            ctx().forgive_leaks = true;
            if reg().live > live {
                lost += reg().live - live;
                continue;
            }
        }
        check!(reg().live == live, "element-leak", "{} keys and values are alive, the maps hold {live}", reg().live);
    }
    lib("drop all", || drop(std::mem::take(&mut xs)));
    check!(reg().live == lost, "element-leak", "{} keys and values are alive after the maps were dropped", reg().live);
}

// ----------------------------------------------------------------------------------------- total maps

type TM = (BTreeMap<i32, i32>, i32);
fn tread<A: Array<Item = Pair>>(what: &str, t: &TotalVecMap<E, A>) -> TM {
    let m = read(what, t.non_default_mappings().as_ref().iter().map(|p| (&p.0, &p.1)));
    let probe = E::new(-777_777, 0);
    let d = t[&probe].kt().0;
    drop(probe);
    obs(d as u64);
    for (k, v) in &m {
        check!(v.0 != d, "not-canonical", "{what}: entry {k} of a total map equals the default {d}");
    }
    (m.into_iter().map(|(k, v)| (k, v.0)).collect(), d)
}
fn canon(mut t: TM) -> TM {
    let d = t.1;
    t.0.retain(|_, v| *v != d);
    t
}
fn tcombine(a: &TM, b: &TM, f: impl Fn(i32, i32) -> i32) -> TM {
    let keys: BTreeSet<i32> = a.0.keys().chain(b.0.keys()).copied().collect();
    let g = |t: &TM, k: i32| t.0.get(&k).copied().unwrap_or(t.1);
    canon((keys.into_iter().map(|k| (k, f(g(a, k), g(b, k)))).collect(), f(a.1, b.1)))
}
fn total<A: Array<Item = Pair>>() {
    let range = key_range();
    let mut xs: Vec<(TotalVecMap<E, A>, TM)> = Vec::new();
    let tbuild = || {
        let (m, mm) = build::<A>(range);
        let d = draw(7) as i32 - 3;
        let t = lib("new", || TotalVecMap::new(m, E::new(d, 0)));
        let tm = canon((mm.into_iter().map(|(k, v)| (k, v.0)).collect(), d));
        check!(tread("new", &t) == tm, "wrong-result", "TotalVecMap::new");
        (t, tm)
    };
    for _ in 0..3 {
        xs.push(tbuild());
    }
    let n = 1 + ops(12);
    for _ in 0..n {
        let _s = span();
        let xi = idx(3);
        let yi = idx(3);
        let kind = draw(12);
        if related(xs[xi].1 .0.keys().copied()) {
            let new = tbuild();
            lib("assign", || xs[yi] = new);
        }
        let (xm, ym) = (xs[xi].1.clone(), xs[yi].1.clone());
        let e = 3 + (xm.0.len() + ym.0.len()) as u64 * (1 + draw(4));
        tr!("total op {kind} x={xm:?} y={ym:?}");
        let intact = |xs: &Vec<(TotalVecMap<E, A>, TM)>, what: &str| {
            check!(tread("operand", &xs[xi].0) == xm && tread("operand", &xs[yi].0) == ym, "operand-changed", "{what} changed an operand");
        };
        let (r, exp, what, f): (Result<TotalVecMap<E, A>, Stop>, TM, &str, Fault) = match kind {
            0 | 1 => {
                let seed = draw(1 << 30);
                let g = move |a: i32, b: i32| (mix(mix(seed, a as u64), b as u64) % 5) as i32;
                let f = arm(MASK, e, true);
                let r = lib_catch(|| {
                    xs[xi].0.combine_ref(&xs[yi].0, |a, b| {
                        let (p, q) = (a.kt().0, b.kt().0);
                        callback(K_CLOSURE);
                        E::new(g(p, q), 0)
                    })
                });
                (r, tcombine(&xm, &ym, g), "combine_ref", f)
            }
            2..=6 => {
                let (a, b) = lib("clone", || (xs[xi].0.clone(), xs[yi].0.clone()));
                let f = arm(MASK, e, true);
                let (g, what): (fn(i32, i32) -> i32, _) = match kind {
                    2 => (a_add, "+"),
                    3 => (a_sub, "-"),
                    4 => (a_mul, "*"),
                    5 => (a_div, "/"),
                    _ => (|a, _| a.wrapping_neg(), "neg"),
                };
                let r = lib_catch(|| match kind {
                    2 => a + b,
                    3 => a - b,
                    4 => a * b,
                    5 => a / b,
                    _ => {
                        drop(b);
                        -a
                    }
                });
                let exp = if kind == 6 { canon((xm.0.iter().map(|(k, v)| (*k, v.wrapping_neg())).collect(), xm.1.wrapping_neg())) } else { tcombine(&xm, &ym, g) };
                (r, exp, what, f)
            }
            7 => {
                let sup = coin();
                let f = arm(MASK, e, true);
                let r = lib_catch(|| if sup { xs[xi].0.supremum(&xs[yi].0) } else { xs[xi].0.infimum(&xs[yi].0) });
                (r, tcombine(&xm, &ym, if sup { std::cmp::max } else { std::cmp::min }), "supremum/infimum", f)
            }
            8 if chance(1, 3) => {
                // to values of another type, larger or smaller
                let m = 1 + draw(3) as i32;
                let exp = canon((xm.0.iter().map(|(k, v)| (*k, v.rem_euclid(m))).collect(), xm.1.rem_euclid(m)));
                let f = arm(MASK, e, true);
                let (r, lied): (Result<(MM, i32), Stop>, bool) = if coin() {
                    let r = lib_catch(|| {
                        xs[xi].0.map_values::<(E, u64, i32), _, [(E, (E, u64, i32)); 1]>(|v| {
                            let p = v.kt().0;
                            callback(K_CLOSURE);
                            (E::new(p.rem_euclid(m), 0), 7, p.rem_euclid(m))
                        })
                    });
                    let lied = settle(f);
                    let r = r.map(|t| {
                        let got = t.non_default_mappings().as_ref().iter().map(|p| (p.0.kt().0, (p.1 .2, 0))).collect();
                        let d = t[&E::new(-777_777, 0)].2;
                        lib("drop", || drop(t));
                        (got, d)
                    });
                    (r, lied)
                } else {
                    let r = lib_catch(|| {
                        xs[xi].0.map_values::<u8, _, [(E, u8); 3]>(|v| {
                            callback(K_CLOSURE);
                            v.kt().0.rem_euclid(m) as u8
                        })
                    });
                    let lied = settle(f);
                    let r = r.map(|t| {
                        let got = t.non_default_mappings().as_ref().iter().map(|p| (p.0.kt().0, (p.1 as i32, 0))).collect();
                        let d = t[&E::new(-777_777, 0)] as i32;
                        lib("drop", || drop(t));
                        (got, d)
                    });
                    (r, lied)
                };
                intact(&xs, "map_values");
                match r {
                    Ok((got, d)) => {
                        let got: TM = (got.into_iter().map(|(k, v)| (k, v.0)).collect(), d);
                        check!(lied || got == exp, "wrong-result", "map_values of {xm:?} to another type: expected {exp:?}, got {got:?}");
                    }
                    Err(Stop::Injected) => {}
                    Err(Stop::Lib(m)) => check!(lied, "panic", "map_values: {m}"),
                }
                continue;
            }
            8 => {
                let m = 1 + draw(3) as i32;
                let f = arm(MASK, e, true);
                let r = lib_catch(|| {
                    xs[xi].0.map_values(|v| {
                        let p = v.kt().0;
                        callback(K_CLOSURE);
                        E::new(p.rem_euclid(m), 0)
                    })
                });
                (r, canon((xm.0.iter().map(|(k, v)| (*k, v.rem_euclid(m))).collect(), xm.1.rem_euclid(m))), "map_values", f)
            }
            9 => {
                let f = arm(MASK, e, true);
                let r = lib_catch(|| xs[xi].0 == xs[yi].0);
                let lied = settle(f);
                match r {
                    Ok(b) => check!(lied || b == (xm == ym), "wrong-result", "equality of total maps {xm:?} and {ym:?} is {b}"),
                    Err(Stop::Injected) => {}
                    Err(Stop::Lib(m)) => check!(lied, "panic", "==: {m}"),
                }
                intact(&xs, "==");
                continue;
            }
            10 => {
                let k = E::new(draw(range as u64) as i32, 0);
                let f = arm(K_CMP, 6, true);
                let r = lib_catch(|| xs[xi].0[&k].kt().0);
                let lied = settle(f);
                match r {
                    Ok(v) => check!(lied || v == xm.0.get(&k.key).copied().unwrap_or(xm.1), "wrong-result", "index {} gave {v}", k.key),
                    Err(Stop::Injected) => {}
                    Err(Stop::Lib(m)) => check!(lied, "panic", "index: {m}"),
                }
                drop(k);
                continue;
            }
            _ => {
                use num_traits::{Bounded, One, Zero};
                let w = draw(6);
                let r = lib_catch(|| match w {
                    3 => TotalVecMap::<E, A>::min_value(),
                    4 => TotalVecMap::<E, A>::max_value(),
                    5 => TotalVecMap::<E, A>::default(),
                    0 => TotalVecMap::<E, A>::zero(),
                    1 => TotalVecMap::<E, A>::one(),
                    _ => TotalVecMap::constant(E::new(5, 0)),
                });
                let z = lib("is_zero", || xs[xi].0.is_zero());
                check!(z == (xm.0.is_empty() && xm.1 == 0), "wrong-result", "is_zero of {xm:?} is {z}");
                let z = lib("is_one", || xs[xi].0.is_one());
                check!(z == (xm.0.is_empty() && xm.1 == 1), "wrong-result", "is_one of {xm:?} is {z}");
                (r, (BTreeMap::new(), [0, 1, 5, -i32::MAX, i32::MAX, 0][w as usize]), "constants", Fault::None)
            }
        };
        let lied = settle(f);
        intact(&xs, what);
        match r {
            Ok(t) => {
                if lied {
                    touch(t.non_default_mappings().as_ref());
                    lib("drop", || drop(t));
                } else {
                    let got = tread(what, &t);
                    check!(got == exp, "wrong-result", "total map {what} of {xm:?} and {ym:?}: expected {exp:?}, got {got:?}");
                    lib("assign", || xs[xi].0 = t);
                    xs[xi].1 = got;
                }
            }
            Err(Stop::Injected) => {}
            Err(Stop::Lib(m)) => check!(lied, "panic", "total map {what}: {m}"),
        }
        let live: usize = xs.iter().map(|p| 2 * p.1 .0.len() + 1).sum();
        check!(reg().live == live, "element-leak", "{} keys and values are alive, the total maps hold {live}", reg().live);
    }
    lib("drop all", || drop(std::mem::take(&mut xs)));
}

fn run() {
    match draw(8) {
        0 => history::<[Pair; 1], [Pair; 2]>(),
        1 => history::<[Pair; 2], [Pair; 8]>(),
        2 => history::<[Pair; 16], [Pair; 4]>(),
        3 => history::<[Pair; 4], [Pair; 1]>(),
        4 => total::<[Pair; 1]>(),
        5 => total::<[Pair; 8]>(),
        _ => btree(),
    }
}
