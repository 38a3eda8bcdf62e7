//! C01: set algebra under failing, lying and preempted element code.
use super::*;
use crate::rt::inst::{reg, E};
use smallvec::Array;
use std::collections::BTreeSet;
use std::ops::{BitAndAssign, BitOrAssign, BitXorAssign, SubAssign};
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecSet, VecSet};

pub const C01: Scn = Scn {
    id: "C01",
    run,
    quick: 3_000_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one fault (panic in, or wrong answer from, caller code) was injected into a library operation",
    real: &["vec_set.rs", "total_vec_set.rs", "merge_state.rs", "dedup.rs", "iterators.rs", "smallvec, binary-merge, inplace-vec-builder (dependencies, real code)"],
    stub: &["element type, predicates and source iterators (instrumented caller code)", "global allocator (deterministic arena with poison, canaries, leak accounting)"],
    assumes: &["element destructors do not panic"],
};

type M = Vec<(i32, u32)>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Or,
    And,
    Xor,
    Sub,
}
const OPS: [Op; 4] = [Op::Or, Op::And, Op::Xor, Op::Sub];

fn alg(op: Op, a: &M, b: &M) -> M {
    let has = |m: &M, k: i32| m.binary_search_by_key(&k, |e| e.0).is_ok();
    let mut r: M = match op {
        Op::Or | Op::Xor | Op::Sub => a.iter().filter(|e| op == Op::Or || !has(b, e.0)).copied().collect(),
        Op::And => a.iter().filter(|e| has(b, e.0)).copied().collect(),
    };
    if matches!(op, Op::Or | Op::Xor) {
        r.extend(b.iter().filter(|e| !has(a, e.0)).copied());
        r.sort();
    }
    r
}

fn read(s: &[E]) -> M {
    let r: M = s.iter().map(|e| e.kt()).collect();
    obs_list(&r);
    r
}
fn ascending(m: &M) -> bool {
    m.windows(2).all(|w| w[0].0 < w[1].0)
}

fn elems(keys: &[i32]) -> Vec<E> {
    keys.iter().map(|k| E::new(*k, fresh_tag())).collect()
}
fn keys(range: i64) -> Vec<i32> {
    if let Some(ks) = ctx().next_keys.take() {
        return ks;
    }
    if range == BULK && !chance(1, 4) {
        return meet(bulk_keys());
    }
    let n = size(pick(&[6, 20, 60]));
    let base = draw(range as u64) as i32;
    let run = chance(1, 4);
    meet((0..n).map(|i| if run { base + i as i32 } else { draw(range as u64) as i32 }).collect())
}

/// source iterator owned by the caller
pub struct Src {
    pub it: std::vec::IntoIter<E>,
    pub hint: (usize, Option<usize>),
}
impl Iterator for Src {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        callback(K_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn src(v: Vec<E>) -> Src {
    let n = v.len();
    let it = v.into_iter();
    let hint = match draw(4) {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => {
            fired(F::lying_size_hint);
            (n / 2, Some(n / 2))
        }
        _ => {
            fired(F::lying_size_hint);
            (n * 3 + 1000, None)
        }
    };
    Src { it, hint }
}

/// first of equal elements
fn distinct_first(v: &[(i32, u32)]) -> M {
    let mut m: M = Vec::new();
    for e in v {
        if let Err(i) = m.binary_search_by_key(&e.0, |x| x.0) {
            m.insert(i, *e);
        }
    }
    m
}

fn build<A: Array<Item = E>>(range: i64) -> (VecSet<A>, M) {
    let ks = keys(range);
    let v = elems(&ks);
    let kt: M = v.iter().map(|e| (e.key, e.tag)).collect();
    let m = distinct_first(&kt);
    let how = draw(6);
    let s: VecSet<A> = match how {
        0 => lib("collect", || v.into_iter().collect()),
        1 => lib("From<Vec>", || VecSet::from(v)),
        2 => {
            // Extend keeps what is there
            lib("extend", || {
                let mut s = VecSet::empty();
                s.extend(v);
                s
            })
        }
        3 => {
            let m2: BTreeSet<E> = {
                let mut b = BTreeSet::new();
                for e in v {
                    b.insert(e);
                }
                b
            };
            // BTreeSet keeps the first too
            lib("From<BTreeSet>", || VecSet::from(m2))
        }
        4 => {
            // with spare capacity: grow, then shrink by retain
            lib("grow then retain", || {
                let mut s: VecSet<A> = v.into_iter().collect();
                for i in 0..24 {
                    s.insert(E::new(1_000_000 + i, 0));
                }
                s.retain(|e| e.key < 1_000_000);
                s
            })
        }
        _ => {
            // rely on insert replacing: insert in reverse order
            lib("insert", || {
                let mut s = VecSet::empty();
                for e in v.into_iter().rev() {
                    s.insert(e);
                }
                s
            })
        }
    };
    let got = read(s.as_ref());
    check!(got == m, "wrong-result", "building a set (way {how}) from {kt:?} gave {got:?}");
    (s, m)
}

fn est(a: &M, b: &M) -> u64 {
    let n = (a.len() + b.len()) as u64;
    match draw(3) {
        0 => 3,
        1 => n + 2,
        _ => 3 * n + 4,
    }
}
const MASK: u32 = K_CMP | K_CLONE | K_CLOSURE | K_ITER;

/// judge a target that an operation modified in place
fn settle_target<A: Array<Item = E>>(what: &str, f: Fault, r: Result<(), Stop>, x: &mut VecSet<A>, xm: &mut M, exp: M, allowed: &[&M]) {
    let lied = settle(f);
    let got = read(x.as_ref());
    match r {
        Ok(()) if !lied => {
            check!(got == exp, "wrong-result", "{what}: expected {exp:?}, got {got:?}");
            *xm = exp;
        }
        Err(Stop::Injected) => {
            probe("target checked after injected panic");
            check!(ascending(&got), "order-after-panic", "{what} interrupted by a panic: target is not strictly ascending: {got:?}");
            for e in &got {
                check!(allowed.iter().any(|m| m.contains(e)), "foreign-after-panic", "{what} interrupted by a panic: {e:?} is from neither operand");
            }
            *xm = got;
        }
        Err(Stop::Lib(m)) if !lied => violation("panic", format!("{what}: {m}")),
        _ => {
            // the ordering lied: contents are unspecified, memory must still be sound
            lib("drop after lying order", || *x = VecSet::empty());
            xm.clear();
        }
    }
}
fn settle_new<A: Array<Item = E>>(what: &str, f: Fault, r: Result<VecSet<A>, Stop>, exp: &M) -> Option<(VecSet<A>, M)> {
    let lied = settle(f);
    match r {
        Ok(s) => {
            let got = read(s.as_ref());
            if lied {
                lib("drop", || drop(s));
                return None;
            }
            check!(got == *exp, "wrong-result", "{what}: expected {exp:?}, got {got:?}");
            Some((s, got))
        }
        Err(Stop::Injected) => None,
        Err(Stop::Lib(m)) => {
            check!(lied, "panic", "{what}: {m}");
            None
        }
    }
}
fn settle_bool(what: &str, f: Fault, r: Result<bool, Stop>, exp: bool) {
    let lied = settle(f);
    match r {
        Ok(b) => {
            obs(b as u64);
            check!(lied || b == exp, "wrong-result", "{what}: expected {exp}, got {b}")
        }
        Err(Stop::Injected) => {}
        Err(Stop::Lib(m)) => check!(lied, "panic", "{what}: {m}"),
    }
}
fn unchanged<A: Array<Item = E>>(what: &str, s: &VecSet<A>, m: &M) {
    let got = read(s.as_ref());
    check!(got == *m, "operand-changed", "{what} changed an operand passed by reference: {m:?} became {got:?}");
}

fn history<A: Array<Item = E>, B: Array<Item = E>>() {
    let range = key_range();
    let mut xs: Vec<(VecSet<A>, M)> = (0..2).map(|_| build::<A>(range)).collect();
    let mut ys: Vec<(VecSet<B>, M)> = (0..2).map(|_| build::<B>(range)).collect();
    let n = 1 + ops(14);
    for _ in 0..n {
        let _s = span();
        let xi = idx(2);
        let yi = idx(2);
        if related(xs[xi].1.iter().map(|p| p.0)) {
            let new = build::<B>(range);
            lib("assign", || ys[yi] = new);
        }
        let kind = draw(12);
        let (x, xm) = &mut xs[xi];
        let (y, ym) = &mut ys[yi];
        let y: &VecSet<B> = y;
        let ym: &M = ym;
        let op = OPS[idx(4)];
        tr!("op {kind} {op:?} x={xm:?} y={ym:?}");
        match kind {
            0 | 1 => {
                // in place, operand by value
                let exp = alg(op, xm, ym);
                let yc = lib("clone", || y.clone());
                let a0 = xm.clone();
                let f = arm(MASK, est(xm, ym), true);
                let r = lib_catch(|| match op {
                    Op::Or => x.bitor_assign(yc),
                    Op::And => x.bitand_assign(yc),
                    Op::Xor => x.bitxor_assign(yc),
                    Op::Sub => x.sub_assign(yc),
                });
                settle_target(&format!("{op:?}-assign by value"), f, r, x, xm, exp, &[&a0, ym]);
            }
            2 | 3 => {
                let exp = alg(op, xm, ym);
                let a0 = xm.clone();
                let form = draw(2);
                let f = arm(MASK, est(xm, ym), true);
                let r = if form == 0 {
                    lib_catch(|| match op {
                        Op::Or => x.bitor_assign(y),
                        Op::And => x.bitand_assign(y),
                        Op::Xor => x.bitxor_assign(y),
                        Op::Sub => x.sub_assign(y),
                    })
                } else {
                    lib_catch(|| match op {
                        Op::Or => x.union_with(y),
                        Op::And => x.intersection_with(y),
                        Op::Xor => x.xor_with(y),
                        Op::Sub => x.difference_with(y),
                    })
                };
                settle_target(&format!("{op:?}-assign by reference (form {form})"), f, r, x, xm, exp, &[&a0, ym]);
                unchanged("in-place operation", y, ym);
            }
            4 | 5 => {
                let exp = alg(op, xm, ym);
                let form = draw(4);
                let f = arm(MASK, est(xm, ym), true);
                let what = format!("{op:?} by reference (form {form})");
                let xr: &VecSet<A> = x;
                let res: Option<(VecSet<A>, M)>;
                match form {
                    0 => {
                        let r = lib_catch(|| match op {
                            Op::Or => xr | y,
                            Op::And => xr & y,
                            Op::Xor => xr ^ y,
                            Op::Sub => xr - y,
                        });
                        res = settle_new(&what, f, r, &exp);
                    }
                    1 => {
                        let r = lib_catch(|| match op {
                            Op::Or => xr.union(y),
                            Op::And => xr.intersection(y),
                            Op::Xor => xr.symmetric_difference(y),
                            Op::Sub => xr.difference(y),
                        });
                        res = settle_new(&what, f, r, &exp);
                    }
                    2 => {
                        let r = lib_catch(|| match op {
                            Op::Or => AbstractVecSet::union::<A>(xr, y),
                            Op::And => AbstractVecSet::intersection::<A>(xr, y),
                            Op::Xor => AbstractVecSet::symmetric_difference::<A>(xr, y),
                            Op::Sub => AbstractVecSet::difference::<A>(xr, y),
                        });
                        res = settle_new(&what, f, r, &exp);
                    }
                    _ => {
                        // result with the other operand's capacity
                        let r = lib_catch(|| match op {
                            Op::Or => AbstractVecSet::union::<B>(xr, y),
                            Op::And => AbstractVecSet::intersection::<B>(xr, y),
                            Op::Xor => AbstractVecSet::symmetric_difference::<B>(xr, y),
                            Op::Sub => AbstractVecSet::difference::<B>(xr, y),
                        });
                        if let Some((s, _)) = settle_new(&what, f, r, &exp) {
                            lib("drop", || drop(s));
                        }
                        res = None;
                    }
                }
                unchanged(&what, x, xm);
                unchanged(&what, y, ym);
                if let Some((s, m)) = res {
                    let keep = coin();
                    lib("assign", || if keep { *x = s } else { drop(s) });
                    if keep {
                        *xm = m;
                    }
                }
            }
            6 => {
                let which = draw(3);
                let f = arm(K_CMP, est(xm, ym), true);
                let has = |m: &M, k: i32| m.iter().any(|e| e.0 == k);
                let (exp, name) = match which {
                    0 => (xm.iter().all(|e| has(ym, e.0)), "is_subset"),
                    1 => (ym.iter().all(|e| has(xm, e.0)), "is_superset"),
                    _ => (!xm.iter().any(|e| has(ym, e.0)), "is_disjoint"),
                };
                let r = lib_catch(|| match which {
                    0 => x.is_subset(y),
                    1 => x.is_superset(y),
                    _ => x.is_disjoint(y),
                });
                settle_bool(name, f, r, exp);
                unchanged(name, x, xm);
                unchanged(name, y, ym);
            }
            7 => {
                // insert: replaces an equal element
                let e = E::new(draw(range as u64) as i32, fresh_tag());
                let kt = (e.key, e.tag);
                let pos = xm.binary_search_by_key(&kt.0, |p| p.0);
                let mut exp = xm.clone();
                match pos {
                    Ok(i) => exp[i] = kt,
                    Err(i) => exp.insert(i, kt),
                }
                let a0 = xm.clone();
                let one = vec![kt];
                let f = arm(K_CMP, 6, true);
                let mut ret = None;
                let r = lib_catch(|| ret = Some(x.insert(e)));
                let ok = r.is_ok();
                let fl = ctx().lie_count > 0;
                settle_target("insert", f, r, x, xm, exp, &[&a0, &one]);
                if ok && !fl {
                    check!(ret == Some(pos.is_err()), "wrong-result", "insert of {kt:?} into {a0:?} returned {ret:?}");
                }
            }
            8 => {
                let e = E::new(draw(range as u64) as i32, 0);
                let pos = xm.binary_search_by_key(&e.key, |p| p.0);
                let mut exp = xm.clone();
                if let Ok(i) = pos {
                    exp.remove(i);
                }
                let a0 = xm.clone();
                let f = arm(K_CMP, 6, true);
                let mut ret = None;
                let contains = coin();
                let r = lib_catch(|| ret = Some(if contains { x.contains(&e) } else { x.remove(&e) }));
                let ok = r.is_ok();
                let fl = ctx().lie_count > 0;
                let exp = if contains { a0.clone() } else { exp };
                settle_target("remove/contains", f, r, x, xm, exp, &[&a0]);
                if ok && !fl {
                    check!(ret == Some(pos.is_ok()), "wrong-result", "remove/contains of {} in {a0:?} returned {ret:?}", e.key);
                }
                drop(e);
            }
            9 => {
                let sel = draw(1 << 16);
                let pred = |k: i32| (sel >> (k as u32 % 16)) & 1 == 1;
                let exp: M = xm.iter().copied().filter(|e| !pred(e.0)).collect();
                let a0 = xm.clone();
                let f = arm(K_CLOSURE, a0.len() as u64 + 1, false);
                let r = lib_catch(|| {
                    x.retain(|e| {
                        e.ok();
                        callback(K_CLOSURE);
                        !pred(e.key)
                    })
                });
                settle_target("retain", f, r, x, xm, exp, &[&a0]);
            }
            10 => {
                let v = elems(&keys(range));
                let kt: M = v.iter().map(|e| (e.key, e.tag)).collect();
                let exp = alg(Op::Or, xm, &distinct_first(&kt));
                let a0 = xm.clone();
                let s = src(v);
                let f = arm(MASK, est(&a0, &kt), true);
                let r = lib_catch(|| x.extend(s));
                settle_target("extend", f, r, x, xm, exp, &[&a0, &kt]);
            }
            _ => {
                // structural: clone, shrink, round trips
                match draw(6) {
                    0 => {
                        let f = arm(K_CLONE, xm.len() as u64 + 1, false);
                        let r = lib_catch(|| x.clone());
                        if let Some((s, m)) = settle_new("clone", f, r, xm) {
                            lib("drop", || drop(std::mem::replace(x, s)));
                            *xm = m;
                        }
                    }
                    1 => lib("shrink_to_fit", || x.shrink_to_fit()),
                    2 => {
                        let old = lib("take", || std::mem::replace(x, VecSet::empty()));
                        let v: Vec<E> = if coin() {
                            lib("into Vec", || old.into())
                        } else {
                            lib("into SmallVec", || smallvec::SmallVec::<A>::from(old).into_vec())
                        };
                        check!(read(&v) == *xm, "wrong-result", "into Vec changed the contents");
                        let s = lib("from Vec", || VecSet::from(v));
                        *x = s;
                    }
                    3 => {
                        let old = lib("take", || std::mem::replace(x, VecSet::empty()));
                        let keep = draw(xm.len() as u64 + 1) as usize;
                        let mut it = lib("into_iter", || old.into_iter());
                        let mut got: M = Vec::new();
                        for _ in 0..keep {
                            let e = lib("next", || it.next());
                            got.push(e.as_ref().map(|e| e.kt()).unwrap_or((i32::MIN, 0)));
                            lib("drop element", || drop(e));
                        }
                        check!(got == xm[..keep], "wrong-result", "into_iter yielded {got:?} of {xm:?}");
                        lib("drop iterator", || drop(it));
                        xm.clear();
                    }
                    4 => {
                        let got: M = if coin() { lib("iter", || x.iter().map(|e| e.kt()).collect()) } else { lib("&into_iter", || (&*x).into_iter().map(|e| e.kt()).collect()) };
                        check!(got == *xm, "wrong-result", "iter yielded {got:?} of {xm:?}");
                        lib("drop", || drop(got));
                        check!(x.len() == xm.len() && x.is_empty() == xm.is_empty(), "wrong-result", "len/is_empty");
                    }
                    _ => {
                        let e = E::new(draw(range as u64) as i32, fresh_tag());
                        let kt = e.kt();
                        let s = lib("single", || VecSet::single(e));
                        lib("assign", || *x = s);
                        *xm = vec![kt];
                    }
                }
                unchanged("structural operation", x, xm);
            }
        }
        let live: usize = xs.iter().map(|p| p.1.len()).sum::<usize>() + ys.iter().map(|p| p.1.len()).sum::<usize>();
        check!(reg().live == live, "element-leak", "{} elements are alive, the sets hold {live}", reg().live);
    }
    lib("drop all", || {
        drop(std::mem::take(&mut xs));
        drop(std::mem::take(&mut ys));
    });
}

// ------------------------------------------------------------------------------------------ total sets

type TM = (BTreeSet<i32>, bool);
fn tread<A: Array<Item = E>>(what: &str, s: &TotalVecSet<A>) -> TM {
    let j = serde_json::to_string(s).unwrap();
    let (v, n): (Vec<i32>, bool) = serde_json::from_str(&j).unwrap();
    check!(v.windows(2).all(|w| w[0] < w[1]), "order", "{what}: total set is not strictly ascending: {v:?}");
    obs(n as u64);
    for k in &v {
        obs(*k as u64);
    }
    (v.into_iter().collect(), n)
}
fn tbuild<A: Array<Item = E>>(range: i64) -> (TotalVecSet<A>, TM) {
    let ks = keys(range);
    let v = elems(&ks);
    let neg = coin();
    let s: VecSet<A> = lib("collect", || v.into_iter().collect());
    let t = lib("from", || {
        let t = TotalVecSet::from(s);
        if neg {
            !t
        } else {
            t
        }
    });
    let m = (ks.into_iter().collect(), neg);
    check!(tread("build", &t) == m, "wrong-result", "building a total set");
    (t, m)
}
fn talg(op: Op, a: &TM, b: &TM) -> TM {
    let f = |x: bool, y: bool| match op {
        Op::Or => x | y,
        Op::And => x & y,
        Op::Xor => x ^ y,
        Op::Sub => x & !y,
    };
    let neg = f(a.1, b.1);
    let mut r = BTreeSet::new();
    for k in a.0.union(&b.0) {
        if f(a.0.contains(k) ^ a.1, b.0.contains(k) ^ b.1) != neg {
            r.insert(*k);
        }
    }
    (r, neg)
}
fn total<A: Array<Item = E>>() {
    let range = key_range();
    let mut xs: Vec<(TotalVecSet<A>, TM)> = (0..3).map(|_| tbuild::<A>(range)).collect();
    let n = 1 + ops(12);
    for _ in 0..n {
        let _s = span();
        let xi = idx(3);
        let yi = idx(3);
        let op = OPS[idx(4)];
        let kind = draw(8);
        if chance(1, 16) {
            lib("total shrink_to_fit", || xs[xi].0.shrink_to_fit());
            let got = tread("shrink_to_fit", &xs[xi].0);
            check!(got == xs[xi].1, "wrong-result", "shrink_to_fit: expected {:?}, got {got:?}", xs[xi].1);
        }
        if related(xs[xi].1 .0.iter().copied()) {
            let new = tbuild::<A>(range);
            lib("assign", || xs[yi] = new);
        }
        let xm = xs[xi].1.clone();
        let ym = xs[yi].1.clone();
        tr!("total op {kind} {op:?} x={xm:?} y={ym:?}");
        let e = 2 + (xm.0.len() + ym.0.len()) as u64 * (1 + draw(3));
        let settle_t = |what: &str, f: Fault, r: Result<(), Stop>, x: &mut (TotalVecSet<A>, TM), exp: TM, extra: Option<i32>| {
            let lied = settle(f);
            match r {
                Ok(()) if !lied => {
                    let got = tread(what, &x.0);
                    check!(got == exp, "wrong-result", "{what}: expected {exp:?}, got {got:?}");
                    x.1 = exp;
                }
                Err(Stop::Injected) => {
                    let got = tread("target after a panic", &x.0);
                    for k in &got.0 {
                        check!(xm.0.contains(k) || ym.0.contains(k) || extra == Some(*k), "foreign-after-panic", "{what} interrupted by a panic: {k} is from neither operand");
                    }
                    x.1 = got;
                }
                Err(Stop::Lib(m)) if !lied => violation("panic", format!("{what}: {m}")),
                _ => {
                    lib("reset", || x.0 = TotalVecSet::empty());
                    x.1 = (BTreeSet::new(), false);
                }
            }
        };
        match kind {
            0 | 1 => {
                let exp = talg(op, &xm, &ym);
                let yc = lib("clone", || xs[yi].0.clone());
                let f = arm(MASK, e, true);
                let x = &mut xs[xi];
                let r = lib_catch(|| match op {
                    Op::Or => x.0 |= yc,
                    Op::And => x.0 &= yc,
                    Op::Xor => x.0 ^= yc,
                    Op::Sub => x.0 -= yc,
                });
                settle_t("total assign", f, r, x, exp, None);
            }
            2 | 3 => {
                let exp = talg(op, &xm, &ym);
                let f = arm(MASK, e, true);
                let r = lib_catch(|| {
                    let (x, y) = (&xs[xi].0, &xs[yi].0);
                    match op {
                        Op::Or => x | y,
                        Op::And => x & y,
                        Op::Xor => x ^ y,
                        Op::Sub => x - y,
                    }
                });
                let lied = settle(f);
                check!(tread("operand", &xs[xi].0) == xm && tread("operand", &xs[yi].0) == ym, "operand-changed", "total {op:?} changed an operand");
                match r {
                    Ok(s) => {
                        if lied {
                            lib("drop", || drop(s));
                        } else {
                            let got = tread("result", &s);
                            check!(got == exp, "wrong-result", "total {op:?} of {xm:?} and {ym:?}: expected {exp:?}, got {got:?}");
                            lib("assign", || xs[xi].0 = s);
                            xs[xi].1 = got;
                        }
                    }
                    Err(Stop::Injected) => {}
                    Err(Stop::Lib(m)) => check!(lied, "panic", "total {op:?}: {m}"),
                }
            }
            4 => {
                let which = draw(4);
                let f = arm(K_CMP, e, true);
                let sub = |a: &TM, b: &TM| {
                    let d = talg(Op::Sub, a, b);
                    d.0.is_empty() && !d.1
                };
                let i = talg(Op::And, &xm, &ym);
                let (exp, name) = match which {
                    0 => (sub(&xm, &ym), "total is_subset"),
                    1 => (sub(&ym, &xm), "total is_superset"),
                    2 => (i.0.is_empty() && !i.1, "total is_disjoint"),
                    _ => (xm == ym, "total =="),
                };
                let r = lib_catch(|| {
                    let (x, y) = (&xs[xi].0, &xs[yi].0);
                    match which {
                        0 => x.is_subset(y),
                        1 => x.is_superset(y),
                        2 => x.is_disjoint(y),
                        _ => x == y,
                    }
                });
                settle_bool(name, f, r, exp);
                check!(tread("operand", &xs[xi].0) == xm && tread("operand", &xs[yi].0) == ym, "operand-changed", "{name} changed an operand");
            }
            5 => {
                let k = draw(range as u64) as i32;
                let el = E::new(k, fresh_tag());
                let insert = coin();
                let mut exp = xm.clone();
                if insert ^ xm.1 {
                    exp.0.insert(k);
                } else {
                    exp.0.remove(&k);
                }
                let f = arm(MASK, 6, true);
                let x = &mut xs[xi];
                if insert {
                    let r = lib_catch(|| x.0.insert(el));
                    settle_t("total insert", f, r, x, exp, Some(k));
                } else {
                    let r = lib_catch(|| x.0.remove(&el));
                    settle_t("total remove", f, r, x, exp, Some(k));
                    drop(el);
                }
            }
            6 => {
                let k = draw(range as u64) as i32;
                let el = E::new(k, 0);
                let f = arm(K_CMP, 6, true);
                let r = lib_catch(|| xs[xi].0.contains(&el));
                drop(el);
                settle_bool("total contains", f, r, xm.0.contains(&k) ^ xm.1);
                check!(xs[xi].0.is_empty() == (xm.0.is_empty() && !xm.1) && xs[xi].0.is_all() == (xm.0.is_empty() && xm.1), "wrong-result", "is_empty/is_all of {xm:?}");
            }
            _ => {
                let by_ref = coin();
                let exp = (xm.0.clone(), !xm.1);
                let f = if by_ref { arm(K_CLONE, xm.0.len() as u64 + 1, false) } else { Fault::None };
                let r = if by_ref {
                    lib_catch(|| {
                        let n = !&xs[xi].0;
                        xs[xi].0 = n;
                    })
                } else {
                    lib_catch(|| {
                        let o = std::mem::replace(&mut xs[xi].0, TotalVecSet::all());
                        xs[xi].0 = !o;
                    })
                };
                let x = &mut xs[xi];
                if matches!(r, Err(Stop::Injected)) {
                    check!(tread("operand", &x.0) == xm, "operand-changed", "! changed its operand");
                }
                settle_t("not", f, r, x, exp, None);
            }
        }
        let live: usize = xs.iter().map(|p| p.1 .0.len()).sum();
        check!(reg().live == live, "element-leak", "{} elements are alive, the total sets hold {live}", reg().live);
    }
    lib("drop all", || drop(std::mem::take(&mut xs)));
}

fn run() {
    match draw(6) {
        0 => history::<[E; 2], [E; 4]>(),
        1 => history::<[E; 8], [E; 1]>(),
        2 => history::<[E; 1], [E; 32]>(),
        3 => history::<[E; 32], [E; 16]>(),
        4 => total::<[E; 2]>(),
        _ => total::<[E; 8]>(),
    }
}
