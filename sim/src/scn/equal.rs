//! C16: equality, order and hash are functions of the contents, whatever a collection has been through.
use super::small::Fnv;
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::E;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use smallvec::Array;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::ops::{BitAndAssign, BitOrAssign, BitXorAssign, SubAssign};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap, VecSet};

pub const C16: Scn = Scn {
    id: "C16",
    run,
    quick: 800_000,
    thorough: 25_000_000,
    rule: "an execution is non-trivial when a collection that went through an interrupted operation, a transport or a storage medium was compared, or a comparison was interrupted",
    real: &["Eq, Ord, Hash and Clone of VecSet, VecMap, TotalVecSet and TotalVecMap, and all operations the histories consist of", "serde_json, rkyv, std BTreeMap and HashMap (dependencies, real code)"],
    stub: &["element, key and value types and functions (instrumented caller code)", "global allocator (deterministic arena)"],
    assumes: &["equality, order and hash of the elements agree with each other"],
};

impl Default for Fnv {
    fn default() -> Fnv {
        Fnv(7)
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(7);
    t.hash(&mut h);
    h.finish()
}
fn interrupt(est: u64, f: impl FnOnce()) -> bool {
    let c = ctx();
    c.arm_mask = K_CMP | K_CLONE | K_CLOSURE | K_ITER;
    c.arm = 1 + draw(est.max(1));
    let r = lib_catch(f);
    disarm();
    match r {
        Ok(()) => false,
        Err(Stop::Injected) => true,
        Err(Stop::Lib(m)) => violation("panic", m),
    }
}
fn shuffled<T>(mut v: Vec<T>) -> Vec<T> {
    for i in (1..v.len()).rev() {
        let j = i - idx(i + 1);
        v.swap(i, j);
    }
    v
}

type P = (E, E);
fn e(k: i32) -> E {
    E::new(k, fresh_tag())
}
trait Kind: Eq + Hash + Clone + Debug + Sized {
    /// the contents, as the caller sees them
    type C: Clone + Debug + Ord;
    const NAME: &'static str;
    /// whether the order is the one of the standard collections
    const LEX: bool;
    fn contents() -> Self::C;
    /// contents close to the given ones
    fn near(c: &Self::C) -> Self::C;
    /// one of many ways to get there
    fn make(c: &Self::C) -> Self;
    fn read(&self) -> Self::C;
    fn order(&self, _o: &Self) -> Option<(Ordering, Option<Ordering>, [bool; 4])> {
        None
    }
}
fn ord<T: Ord>(a: &T, b: &T) -> Option<(Ordering, Option<Ordering>, [bool; 4])> {
    Some((a.cmp(b), a.partial_cmp(b), [a < b, a <= b, a > b, a >= b]))
}
fn keys(n: u64) -> Vec<i32> {
    (0..n).map(|_| draw(9) as i32).collect()
}
fn other<A: Array<Item = E>>() -> VecSet<A> {
    let n = size(12);
    let v: Vec<E> = keys(n).into_iter().map(e).collect();
    lib("collect", || v.into_iter().collect())
}

impl<A: Array<Item = E>> Kind for VecSet<A> {
    type C = BTreeSet<i32>;
    const NAME: &'static str = "VecSet";
    const LEX: bool = true;
    fn contents() -> Self::C {
        if rare_bulk() {
            return bulk_keys().into_iter().collect();
        }
        keys(size(12)).into_iter().collect()
    }
    fn near(c: &Self::C) -> Self::C {
        let mut c = c.clone();
        let k = draw(9) as i32;
        if !c.remove(&k) {
            c.insert(k);
        }
        c
    }
    fn make(c: &Self::C) -> Self {
        let es = |c: &Self::C| shuffled(c.iter().map(|k| e(*k)).collect::<Vec<_>>());
        match draw(11) {
            0 => {
                let v = es(c);
                lib("collect", || v.into_iter().collect())
            }
            1 => {
                let mut v = es(c);
                v.extend(es(c));
                lib("From<Vec>", || VecSet::from(v))
            }
            2 => {
                let b: BTreeSet<E> = c.iter().map(|k| e(*k)).collect();
                lib("From<BTreeSet>", || VecSet::from(b))
            }
            3 => {
                let v = es(c);
                lib("insert", || {
                    let mut s = VecSet::empty();
                    for x in v {
                        s.insert(x);
                    }
                    s
                })
            }
            4 => {
                // with spare capacity on the heap
                let v = es(c);
                let n = draw(40);
                lib("grow and retain", || {
                    let mut s: VecSet<A> = v.into_iter().collect();
                    for i in 0..n {
                        s.insert(e(1_000_000 + i as i32));
                    }
                    s.retain(|e| e.key < 1_000_000);
                    s
                })
            }
            5 | 6 => {
                // through an operation that was interrupted, then put right
                let mut s: VecSet<A> = other();
                let o: VecSet<A> = other();
                let op = draw(4);
                let hit = interrupt(24, || match op {
                    0 => s.bitor_assign(&o),
                    1 => s.bitand_assign(&o),
                    2 => s.bitxor_assign(&o),
                    _ => s.sub_assign(&o),
                });
                if hit {
                    probe("history with an interrupted operation");
                }
                let v = es(c);
                let t: VecSet<A> = lib("collect", || v.into_iter().collect());
                let form = coin();
                lib("put right", || {
                    if form {
                        s.intersection_with(&t);
                        s.union_with(&t);
                    } else {
                        s -= &t;
                        s ^= &t;
                        s &= &t;
                    }
                    drop((o, t));
                });
                s
            }
            7 => {
                let v = es(c);
                let n = idx(v.len() + 1);
                lib("union of parts", || {
                    let mut v = v;
                    let w: VecSet<[E; 2]> = v.split_off(n).into_iter().collect();
                    let mut s: VecSet<A> = v.into_iter().collect();
                    s |= w;
                    s
                })
            }
            8 => {
                nontrivial();
                let v = es(c);
                lib("serde", || {
                    let s: VecSet<A> = v.into_iter().collect();
                    let j = serde_json::to_vec(&s).unwrap();
                    drop(s);
                    serde_json::from_slice(&j).unwrap()
                })
            }
            9 => {
                nontrivial();
                let v = es(c);
                lib("rkyv", || {
                    let s: VecSet<[E; 1]> = v.into_iter().collect();
                    let b = {
                        let mut ser = AllocSerializer::<256>::default();
                        ser.serialize_value(&s).unwrap();
                        ser.into_serializer().into_inner()
                    };
                    drop(s);
                    let a = rkyv::check_archived_root::<VecSet<A>>(&b).unwrap();
                    rkyv::Deserialize::deserialize(a, &mut rkyv::Infallible).unwrap()
                })
            }
            _ => {
                let v = es(c);
                let o: VecSet<A> = other();
                lib("twice the symmetric difference", || {
                    let mut s: VecSet<A> = v.into_iter().collect();
                    s ^= &o;
                    s ^= o;
                    s
                })
            }
        }
    }
    fn read(&self) -> Self::C {
        let v: Vec<i32> = self.as_ref().iter().map(|e| e.kt().0).collect();
        check!(v.windows(2).all(|w| w[0] < w[1]), "order", "not ascending: {v:?}");
        v.into_iter().collect()
    }
    fn order(&self, o: &Self) -> Option<(Ordering, Option<Ordering>, [bool; 4])> {
        ord(self, o)
    }
}
impl<A: Array<Item = E>> Kind for TotalVecSet<A> {
    type C = (BTreeSet<i32>, bool);
    const NAME: &'static str = "TotalVecSet";
    const LEX: bool = false;
    fn contents() -> Self::C {
        (keys(size(12)).into_iter().collect(), coin())
    }
    fn near(c: &Self::C) -> Self::C {
        if chance(1, 3) {
            (c.0.clone(), !c.1)
        } else {
            (VecSet::<A>::near(&c.0), c.1)
        }
    }
    fn make((c, neg): &Self::C) -> Self {
        let s: VecSet<A> = VecSet::make(c);
        let (neg, how) = (*neg, draw(5));
        let o: TotalVecSet<A> = {
            let o: VecSet<A> = other();
            let n = coin();
            lib("From", || if n { !TotalVecSet::from(o) } else { o.into() })
        };
        lib("total set", || match how {
            0 => {
                drop(o);
                let t: TotalVecSet<A> = s.into();
                if neg {
                    !t
                } else {
                    t
                }
            }
            1 => {
                // element by element
                drop(o);
                let mut t: TotalVecSet<A> = neg.into();
                for x in s {
                    if neg {
                        t.remove(&x);
                    } else {
                        t.insert(x);
                    }
                }
                t
            }
            2 => {
                let mut t: TotalVecSet<A> = s.into();
                t ^= o.clone();
                let t = if neg { !&t } else { t };
                &t ^ &o
            }
            3 => {
                let mut t = if neg { !TotalVecSet::from(s) } else { s.into() };
                // what both have, and what only the first has
                let u = &t & &o;
                t -= o;
                t |= u;
                t
            }
            _ => {
                drop(o);
                let t = if neg { !TotalVecSet::from(s) } else { s.into() };
                let j = serde_json::to_vec(&t).unwrap();
                drop(t);
                serde_json::from_slice(&j).unwrap()
            }
        })
    }
    fn read(&self) -> Self::C {
        let x = e(100_000);
        let neg = self.contains(&x);
        drop(x);
        let c = (0..9).filter(|k| {
            let x = e(*k);
            self.contains(&x) != neg
        });
        (c.collect(), neg)
    }
}
fn entries() -> BTreeMap<i32, i32> {
    keys(size(12)).into_iter().map(|k| (k, draw(3) as i32)).collect()
}
impl<A: Array<Item = P>> Kind for VecMap<A> {
    type C = BTreeMap<i32, i32>;
    const NAME: &'static str = "VecMap";
    const LEX: bool = true;
    fn contents() -> Self::C {
        if rare_bulk() {
            return bulk_keys().into_iter().map(|k| (k, k & 1)).collect();
        }
        entries()
    }
    fn near(c: &Self::C) -> Self::C {
        let mut c = c.clone();
        let k = draw(9) as i32;
        if chance(1, 3) || c.remove(&k).is_none() {
            c.insert(k, draw(3) as i32);
        }
        c
    }
    fn make(c: &Self::C) -> Self {
        let es = |c: &Self::C| shuffled(c.iter().map(|(k, v)| (e(*k), e(*v))).collect::<Vec<_>>());
        let v = es(c);
        match draw(9) {
            0 => lib("collect", || v.into_iter().collect()),
            1 => {
                // later entries win
                let w: Vec<P> = (0..draw(6)).map(|_| (e(draw(9) as i32), e(7))).filter(|p| c.contains_key(&p.0.key)).collect();
                lib("collect with repetitions", || w.into_iter().chain(v).collect())
            }
            2 => {
                let b: BTreeMap<E, E> = v.into_iter().collect();
                lib("From<BTreeMap>", || VecMap::from(b))
            }
            3 => lib("insert", || {
                let mut s = VecMap::empty();
                for (k, x) in v {
                    s.insert(k, x);
                }
                s
            }),
            4 => {
                let n = draw(40);
                lib("grow and retain", || {
                    let mut s: VecMap<A> = v.into_iter().collect();
                    for i in 0..n {
                        s.insert(e(1_000_000 + i as i32), e(0));
                    }
                    s.retain(|e| e.0.key < 1_000_000);
                    s
                })
            }
            5 => {
                let m = entries();
                let w = es(&m);
                let mut s: VecMap<A> = lib("collect", || w.into_iter().collect());
                let o: VecMap<A> = lib("collect", || v.into_iter().collect());
                let which = draw(3);
                let hit = interrupt(24, || match which {
                    0 => s.outer_join_with(&o, |a| {
                        callback(K_CLOSURE);
                        match a {
                            OuterJoinArg::Left(_, v) => Some(v),
                            OuterJoinArg::Right(_, w) => Some(w.clone()),
                            OuterJoinArg::Both(_, v, _) => Some(v),
                        }
                    }),
                    1 => s.inner_join_with(&o, |_, v, _| {
                        callback(K_CLOSURE);
                        Some(v)
                    }),
                    _ => s.right_join_with(&o, |_, v, w| {
                        callback(K_CLOSURE);
                        v.or(Some(w.clone()))
                    }),
                });
                if hit {
                    probe("history with an interrupted operation");
                }
                lib("put right", || {
                    s.right_join_with(&o, |_, _, w| Some(w.clone()));
                    drop(o);
                });
                s
            }
            6 => {
                let n = idx(v.len() + 1);
                lib("merge of parts", || {
                    let mut v = v;
                    let w: VecMap<[P; 2]> = v.split_off(n).into_iter().collect();
                    let mut s: VecMap<A> = v.into_iter().collect();
                    s.merge_with(w);
                    s
                })
            }
            7 => {
                nontrivial();
                lib("serde", || {
                    let s: VecMap<A> = v.into_iter().collect();
                    // keys of a JSON object are strings: use a sequence of pairs instead
                    let l: Vec<(i32, i32)> = s.iter().map(|(k, v)| (k.key, v.key)).collect();
                    drop(s);
                    let j = serde_json::to_vec(&l).unwrap();
                    let l: Vec<(i32, i32)> = serde_json::from_slice(&j).unwrap();
                    l.into_iter().map(|(k, v)| (e(k), e(v))).collect()
                })
            }
            _ => {
                nontrivial();
                lib("rkyv", || {
                    let s: VecMap<[P; 1]> = v.into_iter().collect();
                    let b = {
                        let mut ser = AllocSerializer::<256>::default();
                        ser.serialize_value(&s).unwrap();
                        ser.into_serializer().into_inner()
                    };
                    drop(s);
                    let a = rkyv::check_archived_root::<VecMap<A>>(&b).unwrap();
                    rkyv::Deserialize::deserialize(a, &mut rkyv::Infallible).unwrap()
                })
            }
        }
    }
    fn read(&self) -> Self::C {
        let v: Vec<i32> = self.as_ref().iter().map(|e| e.0.kt().0).collect();
        check!(v.windows(2).all(|w| w[0] < w[1]), "order", "not ascending: {v:?}");
        self.as_ref().iter().map(|e| (e.0.key, e.1.kt().0)).collect()
    }
    fn order(&self, o: &Self) -> Option<(Ordering, Option<Ordering>, [bool; 4])> {
        ord(self, o)
    }
}
impl<A: Array<Item = P>> Kind for TotalVecMap<E, A> {
    type C = (BTreeMap<i32, i32>, i32);
    const NAME: &'static str = "TotalVecMap";
    const LEX: bool = false;
    fn contents() -> Self::C {
        let d = draw(3) as i32;
        (entries().into_iter().filter(|x| x.1 != d).collect(), d)
    }
    fn near(c: &Self::C) -> Self::C {
        let d = if chance(1, 3) { draw(3) as i32 } else { c.1 };
        (VecMap::<A>::near(&c.0).into_iter().filter(|x| x.1 != d).collect(), d)
    }
    fn make((c, d): &Self::C) -> Self {
        let d = *d;
        match draw(3) {
            0 => {
                let m = VecMap::<A>::make(c);
                lib("new", || TotalVecMap::new(m, e(d)))
            }
            1 => {
                // with entries that are the default
                let mut c = c.clone();
                for k in 0..9 {
                    if chance(1, 3) {
                        c.entry(k).or_insert(d);
                    }
                }
                let m = VecMap::<A>::make(&c);
                lib("new", || TotalVecMap::new(m, e(d)))
            }
            _ => {
                // combined of two
                let (a, b) = (Self::contents(), c);
                let (ma, mb) = (VecMap::<A>::make(&a.0), VecMap::<A>::make(b));
                lib("combine", || {
                    let a = TotalVecMap::new(ma, e(a.1));
                    let b = TotalVecMap::new(mb, e(d));
                    let r = a.combine_ref(&b, |_, w| w.clone());
                    drop((a, b));
                    r
                })
            }
        }
    }
    fn read(&self) -> Self::C {
        let x = e(100_000);
        let d = self[&x].kt().0;
        drop(x);
        let c: BTreeMap<i32, i32> = (0..9)
            .map(|k| {
                let x = e(k);
                (k, self[&x].kt().0)
            })
            .filter(|x| x.1 != d)
            .collect();
        check!(self.non_default_mappings().len() == c.len(), "not-canonical", "{c:?} default {d} is represented by {} entries", self.non_default_mappings().len());
        (c, d)
    }
    fn order(&self, o: &Self) -> Option<(Ordering, Option<Ordering>, [bool; 4])> {
        ord(self, o)
    }
}

/// `A` and `B` differ in their inline capacity only
/// an output for text that fails when it is full
struct Page {
    text: String,
    room: usize,
}
impl std::fmt::Write for Page {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _o = out_lib();
        if self.text.len() + s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
/// whether showing it failed, and what was written
fn show(x: &impl std::fmt::Debug, room: usize) -> (bool, String) {
    let mut p = Page { text: String::new(), room };
    let r = lib("fmt", || std::fmt::write(&mut p, format_args!("{x:?}")));
    check!(r.is_ok() || room != usize::MAX, "show", "formatting fails although its output does not");
    (r.is_err(), p.text)
}
fn compare<A: Kind, B: Kind<C = A::C>>() {
    let n = 2 + draw(3) as usize;
    let mut cs: Vec<A::C> = vec![A::contents()];
    while cs.len() < n {
        let c = match draw(3) {
            0 => cs[idx(cs.len())].clone(),
            1 => A::near(&cs[idx(cs.len())].clone()),
            _ => A::contents(),
        };
        cs.push(c);
    }
    tr!("{} with contents {cs:?}", A::NAME);
    let xs: Vec<A> = cs.iter().map(A::make).collect();
    let ys: Vec<B> = cs.iter().map(B::make).collect();
    for i in 0..n {
        let (g, h) = (xs[i].read(), ys[i].read());
        check!(g == cs[i] && h == cs[i], "wrong-result", "{}: expected {:?}, got {g:?} and {h:?}", A::NAME, cs[i]);
        obs(mix(i as u64, lib("hash", || hash(&xs[i]))));
    }
    let mut orders = vec![Ordering::Equal; n * n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&xs[i], &xs[j]);
            let same = cs[i] == cs[j];
            // a comparison or hash that does not come to its end changes nothing
            if chance(1, 4) {
                let (p, q) = (draw(2), draw(12));
                let hit = interrupt(1 + q, || {
                    if p == 0 {
                        let _ = a == b;
                    } else {
                        let _ = a.order(b);
                    }
                });
                if hit {
                    probe("interrupted comparison");
                }
                check!(a.read() == cs[i] && b.read() == cs[j], "operand-changed", "{}: an interrupted comparison changed its operands", A::NAME);
            }
            let (eq, ne) = lib("eq", || (a == b, a != b));
            check!(eq == same && ne != same, "equality", "{}: {:?} and {:?} compare == {eq}, != {ne}", A::NAME, cs[i], cs[j]);
            let eb = lib("eq", || ys[i] == ys[j]);
            check!(eb == same, "equality", "{}: {:?} and {:?} compare == {eb} with another inline capacity", A::NAME, cs[i], cs[j]);
            let (ha, hb, hc) = lib("hash", || (hash(a), hash(b), hash(&ys[i])));
            check!(!same || ha == hb, "hash", "{}: equal collections with contents {:?} have different hashes", A::NAME, cs[i]);
            check!(ha == hc, "hash", "{}: the hash of {:?} depends on the inline capacity", A::NAME, cs[i]);
            let (da, db, dc) = (show(a, usize::MAX), show(b, usize::MAX), show(&ys[i], usize::MAX));
            check!(!same || da == db, "show", "{}: equal collections are shown as {da:?} and {db:?}", A::NAME);
            check!(da == dc, "show", "{}: {:?} is shown as {da:?} or {dc:?} depending on the inline capacity", A::NAME, cs[i]);
            let full = da.1.len();
            let d = show(a, draw(full as u64 + 2) as usize);
            check!((d.0 || d.1.len() == full) && da.1.starts_with(&d.1), "show", "{}: {:?} is shown as {d:?} when the output ends early", A::NAME, cs[i]);
            if let Some((c, p, ops)) = lib("cmp", || a.order(b)) {
                let (o2, ..) = lib("cmp", || ys[i].order(&ys[j])).unwrap();
                check!(c == o2, "order", "{}: {:?} and {:?} compare {c:?}, but {o2:?} with another inline capacity", A::NAME, cs[i], cs[j]);
                check!(p == Some(c), "order", "{}: cmp {c:?}, partial_cmp {p:?}", A::NAME);
                check!(ops == [c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()], "order", "{}: cmp {c:?}, operators {ops:?}", A::NAME);
                check!(c.is_eq() == same, "order", "{}: {:?} and {:?} compare {c:?}", A::NAME, cs[i], cs[j]);
                check!(!A::LEX || c == cs[i].cmp(&cs[j]), "order", "{}: {:?} and {:?} compare {c:?}", A::NAME, cs[i], cs[j]);
                orders[i * n + j] = c;
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            check!(orders[i * n + j] == orders[j * n + i].reverse(), "order", "{}: the order of {:?} and {:?} is not antisymmetric", A::NAME, cs[i], cs[j]);
            for k in 0..n {
                check!(!(orders[i * n + j].is_lt() && orders[j * n + k].is_lt()) || orders[i * n + k].is_lt(), "order", "{}: the order of {:?}, {:?} and {:?} is not transitive", A::NAME, cs[i], cs[j], cs[k]);
            }
        }
    }
    // as keys of a hash map
    let mut m: HashMap<A, usize, BuildHasherDefault<Fnv>> = HashMap::default();
    lib("as keys", || {
        for (i, x) in xs.iter().enumerate() {
            m.insert(x.clone(), i);
        }
    });
    let distinct = cs.iter().collect::<BTreeSet<_>>().len();
    check!(m.len() == distinct, "as-keys", "{}: a hash map takes {distinct} distinct keys for {}", A::NAME, m.len());
    for c in &cs {
        let x = A::make(c);
        let f = lib("lookup", || m.get(&x).copied());
        check!(f.is_some_and(|i| cs[i] == *c), "as-keys", "{}: {c:?} is not found in a hash map that has it", A::NAME);
        lib("drop", || drop(x));
    }
    lib("drop", move || drop((xs, ys, m)));
}
fn run() {
    match draw(8) {
        0 => compare::<VecSet<[E; 2]>, VecSet<[E; 8]>>(),
        1 => compare::<VecSet<[E; 4]>, VecSet<[E; 1]>>(),
        2 => compare::<VecMap<[P; 2]>, VecMap<[P; 8]>>(),
        3 => compare::<VecMap<[P; 1]>, VecMap<[P; 4]>>(),
        4 => compare::<TotalVecSet<[E; 2]>, TotalVecSet<[E; 8]>>(),
        5 => compare::<TotalVecSet<[E; 4]>, TotalVecSet<[E; 1]>>(),
        6 => compare::<TotalVecMap<E, [P; 2]>, TotalVecMap<E, [P; 8]>>(),
        _ => compare::<TotalVecMap<E, [P; 1]>, TotalVecMap<E, [P; 4]>>(),
    }
}
