//! C14: replicas of sets, maps and trees that exchange serialized states over a faulty network.
use super::disk::*;
use super::net::*;
use super::serde_::{pack, unpack};
use super::tree::{gen_map, ks, bs, AbstractRadixTree, ArcT, Flat, Flav, Key, KeyGen, LazyT};
use super::*;
use crate::rt::arena::{in_lib, out_lib};
use crate::rt::inst::E;
use rkyv::ser::serializers::AllocSerializer;
use rkyv::ser::Serializer;
use std::collections::BTreeMap;
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap, VecSet};

pub const C14: Scn = Scn {
    id: "C14",
    run,
    quick: 1_500_000,
    thorough: 25_000_000,
    rule: "an execution is non-trivial when at least one network, disk or crash fault happened and at least two replicas made updates",
    real: &["VecSet, TotalVecSet, VecMap, TotalVecMap, RadixTree, ArcRadixTree, LazyRadixTree: insertion, merges, differences, equality", "their serde and rkyv serialization", "rkyv and serde_json (real)"],
    stub: &["network (simulated: loss, repetition, delay, reordering, partitions)", "disks of the replicas (simulated: failing and torn writes, failing sync, crashes)", "the replica program around the collections", "element, key and value types, allocator"],
    assumes: &["a replica saves its state by writing a new file, syncing it and renaming it", "messages that arrive are intact (damaged input is the subject of C04 to C06)"],
};

/// contents: key -> value (0 for sets). Key [255] stands for all keys that are not mentioned, where the kind has
/// such a thing.
type Model = BTreeMap<Key, i32>;
const REST: u8 = 255;
const UNIVERSE: u8 = 12;

fn join(a: &mut Model, b: &Model) {
    for (k, v) in b {
        let x = a.entry(k.clone()).or_insert(*v);
        *x = (*x).max(*v);
    }
}

trait Rep: Sized + Clone {
    const NAME: &'static str;
    /// equal contents serialize to equal bytes
    const CANON: bool;
    const TREE: bool = false;
    fn fresh() -> Self;
    fn start() -> Model {
        Model::new()
    }
    fn update(&mut self, k: &[u8], v: i32);
    /// merge by one of the library's ways
    fn merge(&mut self, o: &Self, how: u64);
    /// merge straight from the serialized form, where that is possible
    fn merge_arch(&mut self, _b: &'static [u8]) -> bool {
        false
    }
    fn encode(&self, fmt: u64) -> Vec<u8>;
    fn decode(b: &'static [u8], fmt: u64) -> Option<Self>;
    fn read(&self) -> Model;
    fn same(&self, o: &Self) -> Option<bool>;
    /// what `self` has beyond `o` (keys only, or keys with other values)
    fn delta(&self, o: &Self) -> Self;
    /// take up other keys and lose them again
    fn detour(&mut self, _extra: &[Key], _m: &Model, _how: u64) {}
}
fn e(x: i32) -> E {
    E::new(x, 0)
}
macro_rules! arch {
    ($s:expr) => {{
        let _i = in_lib();
        let mut ser = AllocSerializer::<256>::default();
        ser.serialize_value($s).expect("serializing into memory");
        let b = ser.into_serializer().into_inner();
        let v = {
            let _o = out_lib();
            b.as_slice().to_vec()
        };
        drop(b);
        v
    }};
}
macro_rules! checked {
    ($t:ty, $b:expr) => {{
        let r = lib("validate", || rkyv::check_archived_root::<$t>($b).map_err(drop));
        check!(r.is_ok(), "rejected", "an intact archive is rejected");
        r.unwrap()
    }};
}
fn key(k: &[u8]) -> i32 {
    k[0] as i32
}

type S = VecSet<[E; 4]>;
impl Rep for S {
    const NAME: &'static str = "set";
    const CANON: bool = true;
    fn fresh() -> S {
        VecSet::empty()
    }
    fn update(&mut self, k: &[u8], _v: i32) {
        self.insert(e(key(k)));
    }
    fn merge(&mut self, o: &S, how: u64) {
        match how % 4 {
            0 => self.union_with(o),
            1 => *self |= o.clone(),
            2 => *self = &*self | o,
            _ => self.extend(o.clone()),
        }
    }
    fn merge_arch(&mut self, b: &'static [u8]) -> bool {
        let a = checked!(S, b);
        lib("union_with", || self.union_with(a));
        true
    }
    fn encode(&self, fmt: u64) -> Vec<u8> {
        match fmt {
            0 => arch!(self),
            _ => pack(fmt == 1, self),
        }
    }
    fn decode(b: &'static [u8], fmt: u64) -> Option<S> {
        match fmt {
            0 => {
                let a = checked!(S, b);
                Some(lib("deserialize", || rkyv::Deserialize::<S, _>::deserialize(a, &mut rkyv::Infallible).unwrap()))
            }
            _ => unpack(fmt == 1, b),
        }
    }
    fn read(&self) -> Model {
        self.as_ref().iter().map(|x| (vec![x.kt().0 as u8], 0)).collect()
    }
    fn same(&self, o: &S) -> Option<bool> {
        Some(self == o)
    }
    fn delta(&self, o: &S) -> S {
        self.difference(o)
    }
}
type TS = TotalVecSet<[E; 2]>;
impl Rep for TS {
    const NAME: &'static str = "total set";
    const CANON: bool = true;
    fn fresh() -> TS {
        TotalVecSet::empty()
    }
    fn update(&mut self, k: &[u8], _v: i32) {
        if k[0] == REST {
            // everything but a few
            let mut x = TS::empty();
            for i in 1..k.len() {
                x.insert(e(k[i] as i32));
            }
            *self |= !x;
        } else {
            self.insert(e(key(k)))
        }
    }
    fn merge(&mut self, o: &TS, how: u64) {
        match how % 3 {
            0 => *self |= o.clone(),
            1 => *self = &*self | o,
            _ => *self = &*o | &*self,
        }
    }
    fn encode(&self, fmt: u64) -> Vec<u8> {
        pack(fmt == 1, self)
    }
    fn decode(b: &'static [u8], fmt: u64) -> Option<TS> {
        unpack(fmt == 1, b)
    }
    fn read(&self) -> Model {
        let mut m = Model::new();
        for k in (0..UNIVERSE).chain([REST]) {
            if self.contains(&e(k as i32)) {
                m.insert(vec![k], 0);
            }
        }
        m
    }
    fn same(&self, o: &TS) -> Option<bool> {
        Some(self == o)
    }
    fn delta(&self, o: &TS) -> TS {
        self - o
    }
}
type MP = VecMap<[(E, E); 2]>;
fn max2(a: Option<&E>, b: Option<&E>) -> Option<E> {
    match (a, b) {
        (Some(a), Some(b)) => Some(if b.kt().0 > a.kt().0 { b.clone() } else { a.clone() }),
        (a, b) => a.or(b).cloned(),
    }
}
impl Rep for MP {
    const NAME: &'static str = "map";
    const CANON: bool = true;
    fn fresh() -> MP {
        VecMap::empty()
    }
    fn update(&mut self, k: &[u8], v: i32) {
        let k = e(key(k));
        let old = self.get(&k).map(|x| x.kt().0);
        if old.map_or(true, |o| o < v) {
            self.insert(k, e(v));
        }
    }
    fn merge(&mut self, o: &MP, how: u64) {
        match how % 4 {
            0 => self.outer_join_with(o, |x| match x {
                OuterJoinArg::Left(_, v) => Some(v),
                OuterJoinArg::Right(_, w) => Some(w.clone()),
                OuterJoinArg::Both(_, v, w) => Some(if w.kt().0 > v.kt().0 { w.clone() } else { v }),
            }),
            1 => self.combine_with(o.clone(), |a, b| if b.kt().0 > a.kt().0 { b } else { a }),
            2 => {
                *self = self.outer_join(o, |x| match x {
                    OuterJoinArg::Left(_, v) => Some(v.clone()),
                    OuterJoinArg::Right(_, w) => Some(w.clone()),
                    OuterJoinArg::Both(_, v, w) => max2(Some(v), Some(w)),
                })
            }
            _ => {
                // the right side wins: make it win only where it should
                let mut r = o.clone();
                r.left_join_with(self, |_, v, w: Option<&E>| {
                    Some(match w {
                        Some(w) if w.kt().0 > v.kt().0 => w.clone(),
                        _ => v,
                    })
                });
                self.merge_with(r)
            }
        }
    }
    fn merge_arch(&mut self, _b: &'static [u8]) -> bool {
        false
    }
    fn encode(&self, fmt: u64) -> Vec<u8> {
        match fmt {
            0 => arch!(self),
            _ => pack(fmt == 1, self),
        }
    }
    fn decode(b: &'static [u8], fmt: u64) -> Option<MP> {
        match fmt {
            0 => {
                let a = checked!(MP, b);
                Some(lib("deserialize", || rkyv::Deserialize::<MP, _>::deserialize(a, &mut rkyv::Infallible).unwrap()))
            }
            _ => unpack(fmt == 1, b),
        }
    }
    fn read(&self) -> Model {
        self.iter().map(|(k, v)| (vec![k.kt().0 as u8], v.kt().0)).collect()
    }
    fn same(&self, o: &MP) -> Option<bool> {
        Some(self == o)
    }
    fn delta(&self, o: &MP) -> MP {
        self.left_join(o, |_, v, w| if w.is_some_and(|w| w.kt().0 >= v.kt().0) { None } else { Some(v.clone()) })
    }
}
type TM = TotalVecMap<E, [(E, E); 2]>;
impl Rep for TM {
    const NAME: &'static str = "total map";
    const CANON: bool = true;
    fn fresh() -> TM {
        TotalVecMap::constant(e(0))
    }
    fn start() -> Model {
        (0..UNIVERSE).chain([REST]).map(|k| (vec![k], 0)).collect()
    }
    fn update(&mut self, k: &[u8], v: i32) {
        let x: TM = if k[0] == REST { TotalVecMap::constant(e(v)) } else { TotalVecMap::new(VecMap::single((e(key(k)), e(v))), e(0)) };
        *self = self.supremum(&x);
    }
    fn merge(&mut self, o: &TM, how: u64) {
        match how % 3 {
            0 => *self = self.supremum(o),
            1 => *self = o.supremum(self),
            _ => *self = self.combine_ref(o, |a, b| if a.kt().0 < b.kt().0 { b.clone() } else { a.clone() }),
        }
    }
    fn encode(&self, fmt: u64) -> Vec<u8> {
        pack(fmt == 1, self)
    }
    fn decode(b: &'static [u8], fmt: u64) -> Option<TM> {
        unpack(fmt == 1, b)
    }
    fn read(&self) -> Model {
        (0..UNIVERSE).chain([REST]).map(|k| (vec![k], self[&e(k as i32)].kt().0)).collect()
    }
    fn same(&self, o: &TM) -> Option<bool> {
        Some(self == o)
    }
    fn delta(&self, _o: &TM) -> TM {
        self.clone()
    }
}
macro_rules! tree_rep {
    ($t:ty, $name:expr, $canon:expr) => {
        impl Rep for $t {
            const NAME: &'static str = $name;
            const CANON: bool = $canon;
            const TREE: bool = true;
            fn fresh() -> Self {
                <$t>::empty()
            }
            fn update(&mut self, k: &[u8], v: i32) {
                let x = <$t>::single(ks(k), e(v));
                self.outer_combine_with(&x, keep_max)
            }
            fn merge(&mut self, o: &Self, how: u64) {
                match how % 3 {
                    0 => self.outer_combine_with(o, keep_max),
                    1 => *self = self.outer_combine(o, |v, w| max2(Some(v), Some(w))),
                    _ => {
                        let mut x = o.clone();
                        x.outer_combine_with(self, keep_max);
                        *self = x;
                    }
                }
            }
            fn merge_arch(&mut self, b: &'static [u8]) -> bool {
                let a = <$t as Flav>::root(b);
                lib("outer_combine_with", || self.outer_combine_with(a, keep_max));
                true
            }
            fn encode(&self, _fmt: u64) -> Vec<u8> {
                lib("archive", || self.archive())
            }
            fn decode(b: &'static [u8], _fmt: u64) -> Option<Self> {
                let a = <$t as Flav>::root(b);
                lib("load", || <$t as Flav>::from_arch(a))
            }
            fn read(&self) -> Model {
                let mut m = Model::new();
                for (k, v) in self.iter() {
                    let _o = out_lib();
                    m.insert(bs(&k).to_vec(), v.kt().0);
                }
                m
            }
            fn same(&self, o: &Self) -> Option<bool> {
                <$t as Flav>::same(self, o)
            }
            fn delta(&self, o: &Self) -> Self {
                let mut x = self.clone();
                x.left_combine_with(o, |v, w: &E| v.kt().0 > w.kt().0);
                x
            }
            fn detour(&mut self, extra: &[Key], m: &Model, how: u64) {
                let before = self.clone();
                let mut o = <$t>::empty();
                for k in extra {
                    o.insert(ks(k), e(1));
                }
                match how % 3 {
                    0 => self.union_with(&o),
                    1 => extra.iter().for_each(|k| self.insert(ks(k), e(2))),
                    _ => *self = self.outer_combine(&o, |v, _| Some(v.clone())),
                }
                match how / 3 % 10 {
                    0 => self.difference_with(&o),
                    1 => self.left_combine_with(&o, |_, _: &E| false),
                    2 => self.intersection_with(&before),
                    3 => self.inner_combine_with(&before, |_, _: &E| true),
                    4 => self.outer_combine_with(&o, |_, _| false),
                    5 => *self = self.difference(&o),
                    6 => *self = self.left_combine(&o, |v, w: Option<&E>| if w.is_some() { None } else { Some(v.clone()) }),
                    7 => *self = self.inner_combine(&before, |v, _: &E| Some(v.clone())),
                    8 => *self = self.outer_combine(&o, |_, _| None),
                    _ => {
                        for k in extra {
                            let x = <$t>::single(ks(k), e(0));
                            let above = {
                                let _o = out_lib();
                                m.keys().any(|l| l.starts_with(k))
                            };
                            if above {
                                self.difference_with(&x)
                            } else {
                                self.remove_prefix_with(&x, |_: &E| true)
                            }
                        }
                    }
                }
            }
        }
    };
}
use vec_collections::radix_tree::AbstractRadixTreeMut;
fn keep_max(v: &mut E, w: &E) -> bool {
    if w.kt().0 > v.kt().0 {
        *v = w.clone()
    }
    true
}
tree_rep!(Flat, "plain tree", true);
tree_rep!(ArcT, "shared tree", false);
tree_rep!(LazyT, "lazy tree", false);

#[derive(Clone)]
struct Payload {
    b: &'static [u8],
    fmt: u64,
    m: Model,
}
struct Node<R> {
    r: R,
    m: Model,
    disk: Disk,
    saved: Option<(Model, u64)>,
    /// what the peers were sent last
    sent: Vec<Option<R>>,
    updates: u64,
}
fn read<R: Rep>(r: &R) -> Model {
    lib("read", || r.read())
}
fn agree<R: Rep>(what: &str, r: &R, m: &Model) {
    let g = read(r);
    check!(g == *m, "content", "{} {what}: holds {g:?} instead of {m:?}", R::NAME);
}
const FILE: &str = "state";
const TMP: &str = "state.tmp";
impl<R: Rep> Node<R> {
    fn save(&mut self, fmt: u64) -> bool {
        let b = self.r.encode(fmt);
        self.disk.remove(TMP);
        if self.disk.append(TMP, &b).is_err() || self.disk.sync(TMP).is_err() {
            self.disk.remove(TMP);
            return false;
        }
        self.disk.rename(TMP, FILE);
        self.saved = Some((self.m.clone(), fmt));
        true
    }
    fn restart(&mut self) {
        fired(F::node_restart);
        self.disk.crash();
        let b = self.disk.read(FILE);
        let old = match &self.saved {
            Some((m, fmt)) => {
                let Some(b) = guard::bump(&b) else { return };
                let r = R::decode(b, *fmt);
                check!(r.is_some(), "unreadable", "{}: the saved state cannot be read", R::NAME);
                self.m = m.clone();
                std::mem::replace(&mut self.r, r.unwrap())
            }
            None => {
                self.m = R::start();
                std::mem::replace(&mut self.r, lib("empty", R::fresh))
            }
        };
        lib("drop", move || drop(old));
        let sent = std::mem::take(&mut self.sent);
        self.sent = (0..sent.len()).map(|_| None).collect();
        lib("drop", move || drop(sent));
        agree("after a restart", &self.r, &self.m);
    }
}
fn receive<R: Rep>(n: &mut Node<R>, p: &Payload) {
    let how = draw(12);
    if p.fmt == 0 && chance(1, 3) && n.r.merge_arch(p.b) {
        probe("merged straight from the serialized form");
    } else {
        let o = R::decode(p.b, p.fmt);
        check!(o.is_some(), "unreadable", "{}: an intact message cannot be read", R::NAME);
        let o = o.unwrap();
        agree("decoded message", &o, &p.m);
        lib("merge", || n.r.merge(&o, how));
        lib("drop", move || drop(o));
    }
    join(&mut n.m, &p.m);
    agree("after a merge", &n.r, &n.m);
}
/// merging is idempotent, commutative and associative
fn laws<R: Rep>(a: &R, b: &R, c: &R, models: [&Model; 3]) {
    let hows = [draw(12), draw(12), draw(12), draw(12), draw(12), draw(12)];
    let bytes = |x: &R| if R::CANON { x.encode(0) } else { Vec::new() };
    let m = |x: &R, y: &R, h: usize| {
        lib("merge", || {
            let mut r = x.clone();
            r.merge(y, hows[h]);
            r
        })
    };
    let aa = m(a, a, 0);
    agree("merged with itself", &aa, models[0]);
    check!(bytes(&aa) == bytes(a), "not-canonical", "{}: a state merged with itself serializes differently", R::NAME);
    check!(lib("eq", || aa.same(a)) != Some(false), "not-equal", "{}: a state merged with itself is not equal to it", R::NAME);
    let (ab, ba) = (m(a, b, 1), m(b, a, 2));
    let mut jm = models[0].clone();
    join(&mut jm, models[1]);
    agree("a+b", &ab, &jm);
    agree("b+a", &ba, &jm);
    check!(bytes(&ab) == bytes(&ba), "not-canonical", "{}: a+b and b+a serialize differently", R::NAME);
    check!(lib("eq", || ab.same(&ba)) != Some(false), "not-equal", "{}: a+b and b+a are not equal", R::NAME);
    let bc = m(b, c, 3);
    let (x, y) = (m(&ab, c, 4), m(a, &bc, 5));
    join(&mut jm, models[2]);
    agree("(a+b)+c", &x, &jm);
    agree("a+(b+c)", &y, &jm);
    check!(bytes(&x) == bytes(&y), "not-canonical", "{}: (a+b)+c and a+(b+c) serialize differently", R::NAME);
    check!(lib("eq", || x.same(&y)) != Some(false), "not-equal", "{}: (a+b)+c and a+(b+c) are not equal", R::NAME);
    lib("drop", move || drop((aa, ab, ba, bc, x, y)));
}

fn cluster<R: Rep>() {
    guard::bump_reset();
    let n = [3usize, 2, 4][idx(3)];
    let mut kg = KeyGen::draw();
    let vals = pick(&[1u64, 3, 40]);
    let mut net: Net<Payload> = Net::new(n);
    let mut nodes: Vec<Node<R>> = (0..n)
        .map(|_| Node { r: lib("empty", R::fresh), m: R::start(), disk: Disk::new(), saved: None, sent: (0..n).map(|_| None).collect(), updates: 0 })
        .collect();
    let (mut may, mut must) = (R::start(), R::start());
    tr!("{n} replicas of a {}", R::NAME);
    let fmts: u64 = if R::TREE { 1 } else { 3 };
    let mut faults = 0;
    for _ in 0..ops(40) {
        let _s = span();
        let i = idx(n);
        match weighted(&[8, 6, 8, 2, 1, 1, 1, 2]) {
            0 => {
                let k = if R::TREE {
                    kg.key()
                } else if chance(1, 8) && (R::NAME == "total set" || R::NAME == "total map") {
                    let mut k = vec![REST];
                    for _ in 0..draw(4) {
                        k.push(draw(UNIVERSE as u64) as u8)
                    }
                    k
                } else {
                    vec![draw(UNIVERSE as u64) as u8]
                };
                let v = if R::NAME.ends_with("set") { 0 } else { draw(vals) as i32 };
                let mut u = Model::new();
                if !R::TREE && k[0] == REST {
                    for x in (0..UNIVERSE).chain([REST]) {
                        if R::NAME == "total map" || !k[1..].contains(&x) {
                            u.insert(vec![x], v);
                        }
                    }
                } else {
                    u.insert(k.clone(), v);
                }
                tr!("replica {i}: update {k:?} {v}");
                lib("update", || nodes[i].r.update(&k, v));
                join(&mut nodes[i].m, &u);
                join(&mut may, &u);
                nodes[i].updates += 1;
                agree("after an update", &nodes[i].r, &nodes[i].m);
            }
            1 => {
                // send the state, or what is new since the last time
                let to = (i + 1 + idx(n - 1)) % n;
                let fmt = draw(fmts);
                let full = nodes[i].sent[to].is_none() || coin();
                let (b, m) = if full {
                    (nodes[i].r.encode(fmt), nodes[i].m.clone())
                } else {
                    let d = lib("delta", || nodes[i].r.delta(nodes[i].sent[to].as_ref().unwrap()));
                    let m = read(&d);
                    for (k, v) in &m {
                        check!(nodes[i].m.get(k) == Some(v), "delta", "{}: the difference of two states has {k:?} -> {v}", R::NAME);
                    }
                    // the difference and the older state make up the newer one
                    let old = nodes[i].sent[to].as_ref().unwrap();
                    let mut sum = read(old);
                    join(&mut sum, &m);
                    check!(sum == nodes[i].m, "delta", "{}: the difference of two states and the older one make {sum:?} instead of {:?}", R::NAME, nodes[i].m);
                    let b = d.encode(fmt);
                    if R::TREE && R::CANON {
                        let fresh = lib("build", || {
                            let mut x = R::fresh();
                            m.iter().for_each(|(k, v)| x.update(k, *v));
                            x
                        });
                        check!(lib("eq", || d.same(&fresh)) != Some(false) && fresh.encode(fmt) == b, "not-canonical", "{}: the difference of two states is not what insertion of the same entries makes", R::NAME);
                        lib("drop", move || drop(fresh));
                    }
                    lib("drop", move || drop(d));
                    (b, m)
                };
                tr!("replica {i} sends {} to {to} ({} bytes)", if full { "its state" } else { "what is new" }, b.len());
                let Some(b) = guard::bump(&b) else { break };
                net.send(i, to, Payload { b, fmt, m });
                let c = lib("clone", || nodes[i].r.clone());
                let old = nodes[i].sent[to].replace(c);
                lib("drop", move || drop(old));
            }
            2 => {
                if let Some(m) = net.deliver() {
                    tr!("replica {} hears from {}", m.to, m.from);
                    receive(&mut nodes[m.to], &m.p);
                }
            }
            3 => {
                let fmt = draw(fmts);
                let ok = nodes[i].save(fmt);
                tr!("replica {i} saves: {ok}");
                if ok {
                    let m = nodes[i].m.clone();
                    join(&mut must, &m);
                }
            }
            4 => {
                tr!("    !! replica {i} crashes");
                fired(F::node_crash);
                faults += 1;
                net.lose_to(i);
                nodes[i].restart();
            }
            5 => {
                net.disturb();
                faults += 1;
            }
            7 => {
                if R::TREE {
                    let m = &nodes[i].m;
                    let extra: Vec<Key> = gen_map(&mut kg, 6).into_keys().filter(|k| !m.contains_key(k)).collect();
                    let how = draw(30);
                    let old = lib("clone", || nodes[i].r.clone());
                    tr!("replica {i}: takes up {extra:?} and loses it again, way {how}");
                    let Node { r, m, .. } = &mut nodes[i];
                    lib("detour", || r.detour(&extra, m, how));
                    agree("after a detour", r, m);
                    check!(lib("eq", || old.same(r)) != Some(false), "not-equal", "{}: after a detour, the replica holds the same as before but is not equal", R::NAME);
                    check!(!R::CANON || old.encode(0) == r.encode(0), "not-canonical", "{}: after a detour, the replica holds the same as before but serializes differently", R::NAME);
                    lib("drop", move || drop(old));
                }
            }
            _ => {
                let (j, k) = (idx(n), idx(n));
                laws(&nodes[i].r, &nodes[j].r, &nodes[k].r, [&nodes[i].m, &nodes[j].m, &nodes[k].m]);
            }
        }
    }
    if (faults > 0 || ctx().fired.iter().enumerate().any(|(i, f)| *f > 0 && i != F::address_reuse as usize)) && nodes.iter().filter(|x| x.updates > 0).count() > 1 {
        nontrivial();
    }
    // the faults stop; every state is delivered exactly once
    net.faulty = false;
    net.heal();
    if coin() {
        net.clear();
    }
    while let Some(m) = net.deliver() {
        receive(&mut nodes[m.to], &m.p);
    }
    for i in 0..n {
        for to in 0..n {
            if i != to {
                let fmt = draw(fmts);
                let b = nodes[i].r.encode(fmt);
                let Some(b) = guard::bump(&b) else { continue };
                net.send(i, to, Payload { b, fmt, m: nodes[i].m.clone() });
            }
        }
    }
    let mut steps = 0;
    while let Some(m) = net.deliver() {
        receive(&mut nodes[m.to], &m.p);
        steps += 1;
    }
    check!(steps <= n * (n - 1), "liveness", "the final exchange took {steps} messages");
    tr!("after the exchange: {:?}", nodes[0].m);
    let first = read(&nodes[0].r);
    let bytes0: Vec<Vec<u8>> = if R::CANON { (0..fmts).map(|f| nodes[0].r.encode(f)).collect() } else { Vec::new() };
    for (k, v) in &must {
        check!(first.get(k).is_some_and(|x| x >= v), "lost-update", "{}: {k:?} -> {v} was saved and is gone", R::NAME);
    }
    for (k, v) in &first {
        check!(may.get(k).is_some_and(|x| x >= v), "invented", "{}: {k:?} -> {v} was never written", R::NAME);
    }
    for i in 1..n {
        let g = read(&nodes[i].r);
        check!(g == first, "diverged", "{}: replica {i} holds {g:?}, replica 0 {first:?}", R::NAME);
        check!(lib("eq", || nodes[i].r.same(&nodes[0].r)) != Some(false), "not-equal", "{}: replicas {i} and 0 hold the same but are not equal", R::NAME);
        for (f, b) in bytes0.iter().enumerate() {
            check!(nodes[i].r.encode(f as u64) == *b, "not-canonical", "{}: replicas {i} and 0 hold the same but serialize differently", R::NAME);
        }
    }
    obs(first.len() as u64);
    for x in nodes {
        lib("drop", move || drop((x.r, x.sent)));
    }
}
fn run() {
    match draw(7) {
        0 => cluster::<S>(),
        1 => cluster::<TS>(),
        2 => cluster::<MP>(),
        3 => cluster::<TM>(),
        4 => cluster::<Flat>(),
        5 => cluster::<ArcT>(),
        _ => cluster::<LazyT>(),
    }
}
