//! Shared by the radix tree scenarios: flavours, key generation, model maps, one step of a history.
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::{E, K};
use rkyv::ser::serializers::AllocSerializer;
use rkyv::ser::Serializer;
use std::collections::BTreeMap;
pub use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

pub type Key = Vec<u8>;
pub type M = BTreeMap<Key, (i32, u32)>;
pub type Flat = RadixTree<K, E>;
pub type ArcT = ArcRadixTree<K, E>;
pub type LazyT = LazyRadixTree<'static, K, E>;

pub fn ks(k: &[u8]) -> &[K] {
    // K is a transparent wrapper of u8
    unsafe { std::slice::from_raw_parts(k.as_ptr() as *const K, k.len()) }
}
pub fn bs(k: &[K]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(k.as_ptr() as *const u8, k.len()) }
}

pub trait Flav: AbstractRadixTreeMut<K, E, Materialized = Self> + Clone + Send + 'static {
    const NAME: &'static str;
    type Arch: AbstractRadixTree<K, E, Materialized = Self> + 'static;
    /// library call: the archived form
    fn archive(&self) -> Vec<u8>;
    fn root(b: &'static [u8]) -> &'static Self::Arch;
    fn from_flat(f: Flat) -> Self;
    /// conversion from the archived form, where the flavour has one
    fn from_arch(a: &'static Self::Arch) -> Option<Self>;
    /// structural equality, where the flavour has one
    fn same(&self, _o: &Self) -> Option<bool> {
        None
    }
}
macro_rules! archive_body {
    ($t:ty, $s:expr) => {{
        let mut ser = AllocSerializer::<256>::default();
        ser.serialize_value($s).expect("serializing into memory");
        let b = ser.into_serializer().into_inner();
        let v = {
            let _o = out_lib();
            b.as_slice().to_vec()
        };
        drop(b);
        v
    }};
}
impl Flav for Flat {
    const NAME: &'static str = "flat";
    type Arch = rkyv::Archived<Flat>;
    fn archive(&self) -> Vec<u8> {
        archive_body!(Flat, self)
    }
    fn root(b: &'static [u8]) -> &'static Self::Arch {
        unsafe { rkyv::archived_root::<Flat>(b) }
    }
    fn from_flat(f: Flat) -> Self {
        f
    }
    fn from_arch(a: &'static Self::Arch) -> Option<Self> {
        Some(rkyv::Deserialize::<Flat, _>::deserialize(a, &mut rkyv::Infallible).unwrap())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Flav for ArcT {
    const NAME: &'static str = "arc";
    type Arch = rkyv::Archived<ArcT>;
    fn archive(&self) -> Vec<u8> {
        archive_body!(ArcT, self)
    }
    fn root(b: &'static [u8]) -> &'static Self::Arch {
        unsafe { rkyv::archived_root::<ArcT>(b) }
    }
    fn from_flat(f: Flat) -> Self {
        f.into()
    }
    fn from_arch(a: &'static Self::Arch) -> Option<Self> {
        Some(ArcT::from(a))
    }
}
impl Flav for LazyT {
    const NAME: &'static str = "lazy";
    type Arch = rkyv::Archived<LazyT>;
    fn archive(&self) -> Vec<u8> {
        archive_body!(LazyT, self)
    }
    fn root(b: &'static [u8]) -> &'static Self::Arch {
        unsafe { rkyv::archived_root::<LazyT>(b) }
    }
    fn from_flat(f: Flat) -> Self {
        f.into()
    }
    fn from_arch(a: &'static Self::Arch) -> Option<Self> {
        Some(LazyT::from(a))
    }
}

// ---------------------------------------------------------------- keys

pub struct KeyGen {
    pub alpha: u64,
    pub maxlen: u64,
    pub pool: Vec<Key>,
    /// never hundreds of keys
    pub small: bool,
}
impl KeyGen {
    pub fn draw() -> KeyGen {
        let alpha = pick(&[2u64, 3, 1, 12, 200]);
        let mut maxlen = if alpha == 1 { pick(&[6u64, 20]) } else { pick(&[4u64, 7, 12, 20, 40]) };
        if chance(1, 24) {
            maxlen = pick(&[100u64, 300, 700]);
            probe("keys of hundreds of components");
        }
        KeyGen { alpha, maxlen, pool: Vec::new(), small: false }
    }
    fn sym(&self) -> u8 {
        draw(self.alpha) as u8
    }
    fn fresh(&self) -> Key {
        let n = draw(self.maxlen + 1);
        if n > 48 {
            // long, from few draws
            let mut k = vec![self.sym(); n as usize];
            for _ in 0..draw(4) {
                let i = idx(k.len());
                k[i] = self.sym();
            }
            return k;
        }
        if n > 8 && coin() {
            // a long run of one symbol, so that long shared fragments are common
            let c = self.sym();
            let mut k = vec![c; n as usize - 2];
            k.push(self.sym());
            k.push(self.sym());
            return k;
        }
        (0..n).map(|_| self.sym()).collect()
    }
    /// a key related to those seen before
    pub fn key(&mut self) -> Key {
        let _s = span();
        let k = if self.pool.is_empty() {
            self.fresh()
        } else {
            match weighted(&[4, 3, 3, 3, 1]) {
                0 => self.fresh(),
                1 => self.pool[idx(self.pool.len())].clone(),
                2 => {
                    let p = &self.pool[idx(self.pool.len())];
                    p[..idx(p.len() + 1)].to_vec()
                }
                3 => {
                    // leave an existing key at some point and continue differently
                    let p = &self.pool[idx(self.pool.len())];
                    let mut k = p[..idx(p.len() + 1)].to_vec();
                    for _ in 0..1 + draw(3) {
                        k.push(self.sym());
                    }
                    k
                }
                _ => Vec::new(),
            }
        };
        if self.pool.len() < 40 {
            self.pool.push(k.clone());
        }
        k
    }
}

pub fn val() -> (i32, u32) {
    (draw(5) as i32, fresh_tag())
}
/// hundreds of keys, from few draws
fn bulk_tree(kg: &mut KeyGen, m: &mut M) {
    probe("tree with hundreds of entries");
    let n = pick(&[60usize, 150, 300, 500]);
    let mut r = Rng(draw(1 << 20));
    let base = if coin() { kg.key() } else { Vec::new() };
    let shape = draw(5);
    for i in 0..n {
        let mut k = base.clone();
        match shape {
            0 => k.extend([(i / 150) as u8, (i % 150) as u8]),
            1 => k.extend(format!("{i}").into_bytes()),
            2 => k.extend((0..1 + r.next() % 10).map(|_| (r.next() % 3) as u8)),
            // a chain
            3 if i < 150 => k.extend(vec![1u8; i]),
            3 => k.extend(vec![1u8; i - 150].into_iter().chain([0])),
            // long fragments
            _ => k.extend(vec![(i % 5) as u8; 40 * (i % 9)].into_iter().chain([(i / 5) as u8])),
        }
        if kg.pool.len() < 40 {
            kg.pool.push(k.clone());
        }
        m.insert(k, ((i % 5) as i32, fresh_tag()));
    }
}
/// a model map of up to `max` entries
pub fn gen_map(kg: &mut KeyGen, max: u64) -> M {
    let mut m = M::new();
    for _ in 0..size(max) {
        let k = kg.key();
        m.insert(k, val());
    }
    if max >= 10 && !kg.small && chance(1, 500) {
        bulk_tree(kg, &mut m);
    }
    if max >= 4 && chance(1, 10) {
        // a node with many children
        let base = kg.key();
        let (n, step) = (pick(&[9u64, 17, 12, 34, 66]), pick(&[1u64, 3]));
        let n = if !kg.small && chance(1, 6) { pick(&[130, 199]) } else { n };
        let step = if n * step > 200 { 1 } else { step };
        let mut r = Rng(draw(1 << 20));
        for i in 0..n {
            let mut k = base.clone();
            k.push((i * step) as u8);
            let v = ((i % 5) as i32, fresh_tag());
            match r.next() % 8 {
                0 => k.push((r.next() % 3) as u8),
                // with children of their own
                1 => {
                    let mut k2 = k.clone();
                    k2.push((r.next() % 3) as u8);
                    m.insert(k2, (1, fresh_tag()));
                }
                _ => {}
            }
            m.insert(k, v);
        }
        probe("node with many children");
    }
    m
}
/// the tree with the given contents, built by insertions in drawn order
pub fn build<T: Flav>(m: &M) -> T {
    let mut keys: Vec<&Key> = m.keys().collect();
    let mode = draw(3);
    if mode == 1 {
        keys.reverse();
    }
    let mut t: T = lib("empty", || T::empty());
    while !keys.is_empty() {
        let i = if mode == 2 { idx(keys.len()) } else { 0 };
        let k = keys.remove(i);
        let v = m[k];
        lib("insert", || t.insert(ks(k), E::new(v.0, v.1)));
    }
    t
}

// ---------------------------------------------------------------- combining decisions

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dec {
    Keep,
    Right,
    Drop,
    New(i32, u32),
}
pub fn dec(seed: u64, v: (i32, u32), w: (i32, u32)) -> Dec {
    let h = mix(mix(seed, (v.0 as u64) << 32 | v.1 as u64), (w.0 as u64) << 32 | w.1 as u64);
    match h % 6 {
        0 | 1 => Dec::Keep,
        2 => Dec::Right,
        3 if seed & 1 == 1 => Dec::Drop,
        3 => Dec::Keep,
        _ => Dec::New((h >> 8) as i32 & 7, (h >> 32) as u32 | 0x8000_0000),
    }
}
/// which prefixes of the operand count, for prefix removal and retention
pub fn sel(seed: u64, w: (i32, u32)) -> bool {
    seed & 3 == 0 || mix(seed, (w.0 as u64) << 32 | w.1 as u64) % 3 > 0
}
/// values of an operand: elements, or unit
pub trait W: Clone {
    fn wkt(&self) -> (i32, u32);
    fn to_v(&self) -> Option<E>;
}
impl W for E {
    fn wkt(&self) -> (i32, u32) {
        self.kt()
    }
    fn to_v(&self) -> Option<E> {
        Some(self.clone())
    }
}
impl W for () {
    fn wkt(&self) -> (i32, u32) {
        (0, 0)
    }
    fn to_v(&self) -> Option<E> {
        None
    }
}
/// the caller's in-place combining function
pub fn f_mut<X: W>(seed: u64, v: &mut E, w: &X) -> bool {
    let (a, b) = (v.kt(), w.wkt());
    callback(K_CLOSURE);
    match dec(seed, a, b) {
        Dec::Keep => true,
        Dec::Drop => false,
        Dec::Right => {
            if let Some(x) = w.to_v() {
                *v = x
            }
            true
        }
        Dec::New(x, t) => {
            *v = E::new(x, t);
            true
        }
    }
}
/// the caller's by-reference combining function
pub fn f_ref<X: W>(seed: u64, v: &E, w: &X) -> Option<E> {
    let (a, b) = (v.kt(), w.wkt());
    callback(K_CLOSURE);
    match dec(seed, a, b) {
        Dec::Keep => Some(v.clone()),
        Dec::Drop => None,
        Dec::Right => Some(w.to_v().unwrap_or_else(|| v.clone())),
        Dec::New(x, t) => Some(E::new(x, t)),
    }
}
fn dec_model(seed: u64, unit: bool, v: (i32, u32), w: (i32, u32)) -> Option<(i32, u32)> {
    match dec(seed, v, if unit { (0, 0) } else { w }) {
        Dec::Keep => Some(v),
        Dec::Drop => None,
        Dec::Right => Some(if unit { v } else { w }),
        Dec::New(x, t) => Some((x, t)),
    }
}
pub fn m_outer(a: &M, b: &M, f: impl Fn((i32, u32), (i32, u32)) -> Option<(i32, u32)>) -> M {
    let mut r = a.clone();
    for (k, w) in b {
        match a.get(k) {
            Some(v) => match f(*v, *w) {
                Some(x) => {
                    r.insert(k.clone(), x);
                }
                None => {
                    r.remove(k);
                }
            },
            None => {
                r.insert(k.clone(), *w);
            }
        }
    }
    r
}
pub fn m_inner(a: &M, b: &M, f: impl Fn((i32, u32), (i32, u32)) -> Option<(i32, u32)>) -> M {
    a.iter().filter_map(|(k, v)| b.get(k).and_then(|w| f(*v, *w)).map(|x| (k.clone(), x))).collect()
}
pub fn m_left(a: &M, b: &M, f: impl Fn((i32, u32), (i32, u32)) -> Option<(i32, u32)>) -> M {
    a.iter()
        .filter_map(|(k, v)| match b.get(k) {
            Some(w) => f(*v, *w).map(|x| (k.clone(), x)),
            None => Some((k.clone(), *v)),
        })
        .collect()
}
pub fn m_prefix(a: &M, p: &[u8]) -> M {
    a.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), *v)).collect()
}

// ---------------------------------------------------------------- reading

/// contents of a tree through its iterator, with order and agreement of every way to read it checked
pub fn read_tree<T: AbstractRadixTree<K, E>>(what: &str, t: &T) -> M {
    let mut r = M::new();
    let mut order: Vec<(i32, u32)> = Vec::new();
    // keys handed out may be kept
    let keep = chance(1, 8);
    let mut kept = Vec::new();
    lib(what, || {
        let mut last: Option<Key> = None;
        for (k, v) in t.iter() {
            let _o = out_lib();
            let kk = bs(&k).to_vec();
            check!(bs(AsRef::<[K]>::as_ref(&k)) == kk && bs(std::borrow::Borrow::<[K]>::borrow(&k)) == kk, "key-views", "{what}: the views of the key {kk:?} an iterator yielded differ");
            if keep {
                kept.push((k, kk.clone()));
            }
            if let Some(l) = &last {
                check!(*l < kk, "order", "{what}: iteration is not strictly ascending: {:?} then {:?}", l, kk);
            }
            check!(order.len() < 100_000, "non-termination", "{what}: iteration does not end");
            order.push(v.kt());
            r.insert(kk.clone(), v.kt());
            last = Some(kk);
        }
        for (k, kk) in &kept {
            check!(bs(k) == kk, "key-isolation", "{what}: a key the iterator yielded as {kk:?} reads {:?} later", bs(k));
        }
        kept.clear();
        let mut i = 0;
        for v in t.values() {
            let _o = out_lib();
            check!(order.get(i) == Some(&v.kt()), "values", "{what}: values() disagrees with iter() at position {i}");
            i += 1;
        }
        check!(i == order.len(), "values", "{what}: values() yields {i} values, iter() {}", order.len());
        for (k, v) in &r {
            let g = t.get(ks(k)).map(|e| e.kt());
            check!(g == Some(*v), "lookup", "{what}: iteration yields key {:?} but lookup gives {:?}", k, g);
            check!(t.contains_key(ks(k)), "lookup", "{what}: contains_key is false for {:?}", k);
        }
    });
    obs(r.len() as u64);
    for (k, v) in &r {
        obs(mix(k.len() as u64, (v.0 as u64) << 32 | v.1 as u64));
    }
    r
}
/// like read_tree, but without touching more than the iterator does
pub fn peek<T: AbstractRadixTree<K, E>>(what: &str, t: &T) -> M {
    lib(what, || t.iter().map(|(k, v)| { let _o = out_lib(); (bs(&k).to_vec(), v.kt()) }).fold_out())
}
trait FoldOut {
    fn fold_out(self) -> M;
}
impl<I: Iterator<Item = (Key, (i32, u32))>> FoldOut for I {
    fn fold_out(self) -> M {
        let mut m = M::new();
        for (k, v) in self {
            let _o = out_lib();
            m.insert(k, v);
        }
        m
    }
}
pub fn diff(a: &M, b: &M) -> String {
    for (k, v) in a {
        match b.get(k) {
            None => return format!("key {k:?} is there but should not be"),
            Some(w) if w != v => return format!("key {k:?} has value {v:?}, expected {w:?}"),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return format!("key {k:?} is missing");
        }
    }
    "same".into()
}

// ---------------------------------------------------------------- one step of a history

pub struct H<T> {
    pub t: T,
    pub m: M,
    /// an injected failure interrupted an in-place operation on this tree (or one it was derived from)
    pub bent: bool,
}
pub fn drop_h<T>(h: H<T>) {
    let H { t, m, .. } = h;
    lib("drop", move || drop(t));
    drop(m);
}

pub struct Env {
    pub kg: KeyGen,
    /// kinds of caller code that may be made to panic
    pub mask: u32,
    pub max_handles: usize,
    /// re-check every handle after every operation
    pub check_all: bool,
    /// operands may be archives and other flavours
    pub cross: bool,
    /// slot of the guarded area used for archived operands
    pub slot: usize,
}

/// operand of the operations that take any tree
pub enum Any<T: Flav> {
    Own(usize),
    Clone(T),
    Arch(&'static T::Arch),
    Flat(Flat),
    Arc(ArcT),
    Lazy(LazyT),
    FlatArch(&'static <Flat as Flav>::Arch),
    ArcArch(&'static <ArcT as Flav>::Arch),
    LazyArch(&'static <LazyT as Flav>::Arch),
    Unit(RadixTree<K, ()>),
}
macro_rules! any {
    ($o:expr, $hs:expr, |$x:ident| $body:expr) => {
        match $o {
            Any::Own(i) => {
                let $x = &$hs[*i].t;
                $body
            }
            Any::Clone($x) => $body,
            Any::Arch($x) => { let $x = *$x; $body }
            Any::Flat($x) => $body,
            Any::Arc($x) => $body,
            Any::Lazy($x) => $body,
            Any::FlatArch($x) => { let $x = *$x; $body }
            Any::ArcArch($x) => { let $x = *$x; $body }
            Any::LazyArch($x) => { let $x = *$x; $body }
            Any::Unit($x) => $body,
        }
    };
}
/// operands of the operations that need the same materialised type
macro_rules! same {
    ($o:expr, $hs:expr, |$x:ident| $body:expr) => {
        match $o {
            Any::Own(i) => {
                let $x = &$hs[*i].t;
                $body
            }
            Any::Clone($x) => $body,
            Any::Arch($x) => { let $x = *$x; $body }
            _ => unreachable!(),
        }
    };
}

fn place_arch<T: Flav>(slot: usize, t: &T) -> &'static T::Arch {
    let b = lib("archive", || t.archive());
    let b = guard::place(slot, &b, true);
    T::root(b)
}

/// Take the operand for an operation on handle `t`. Returns it with its model and whether it is bent.
fn operand<T: Flav>(hs: &[H<T>], t: usize, env: &mut Env, need_same: bool) -> (Any<T>, M, bool) {
    let _s = span();
    let o = idx(hs.len());
    let by = if env.cross { weighted(&[6, 2, 3, if need_same { 0 } else { 3 }, 3]) } else { weighted(&[6, 2, 0, 0, 3]) };
    let h = &hs[o];
    match by {
        0 if o != t => (Any::Own(o), h.m.clone(), h.bent),
        0 | 1 => (Any::Clone(lib("clone", || h.t.clone())), h.m.clone(), h.bent),
        2 => {
            probe("operand: archive");
            (Any::Arch(place_arch(env.slot, &h.t)), h.m.clone(), h.bent)
        }
        3 => {
            let m = h.m.clone();
            probe("operand: other flavour");
            let a = match draw(7) {
                0 => Any::Flat(build::<Flat>(&m)),
                1 => Any::Arc(build::<ArcT>(&m)),
                2 => Any::Lazy(build::<LazyT>(&m)),
                3 => {
                    let x = build::<Flat>(&m);
                    let a = place_arch(env.slot, &x);
                    lib("drop", move || drop(x));
                    Any::FlatArch(a)
                }
                4 => {
                    let x = build::<ArcT>(&m);
                    let a = place_arch(env.slot, &x);
                    lib("drop", move || drop(x));
                    Any::ArcArch(a)
                }
                5 => {
                    let x = build::<LazyT>(&m);
                    let a = place_arch(env.slot, &x);
                    lib("drop", move || drop(x));
                    Any::LazyArch(a)
                }
                _ => {
                    let mut x: RadixTree<K, ()> = lib("empty", RadixTree::empty);
                    for k in m.keys() {
                        lib("insert", || x.insert(ks(k), ()));
                    }
                    Any::Unit(x)
                }
            };
            (a, m, false)
        }
        _ => {
            // a small tree of its own
            let mut m = gen_map(&mut env.kg, 6);
            if coin() {
                m.extend(h.m.iter().filter(|_| coin()).map(|(k, v)| (k.clone(), *v)));
            }
            let x = build::<T>(&m);
            (Any::Clone(x), m, false)
        }
    }
}
fn drop_any<T: Flav>(a: Any<T>) {
    lib("drop", move || drop(a));
}
fn is_unit<T: Flav>(a: &Any<T>) -> bool {
    matches!(a, Any::Unit(_))
}

fn arm_for(env: &Env, est: u64) -> bool {
    if env.mask == 0 {
        return false;
    }
    arm(env.mask, est, false) == Fault::Panic
}

/// result of a failed operation: the target must still be a map made of what it could be made of
fn after_panic<T: Flav>(name: &str, h: &mut H<T>, others: &M, seed: u64) {
    let got = read_tree(name, &h.t);
    for (k, v) in &got {
        let src = h.m.contains_key(k) || others.contains_key(k);
        check!(src, "key-origin", "{} {name}: after a failed call the tree has key {k:?} which no operand had", T::NAME);
        let ok = h.m.get(k) == Some(v)
            || others.get(k) == Some(v)
            || match (h.m.get(k), others.get(k)) {
                (Some(a), Some(b)) => dec_model(seed, false, *a, *b) == Some(*v) || dec_model(seed, true, *a, *b) == Some(*v),
                _ => false,
            };
        check!(ok, "value-origin", "{} {name}: after a failed call key {k:?} has value {v:?}", T::NAME);
    }
    if got != h.m {
        probe("interrupted operation left a partial result");
    }
    h.m = got;
    h.bent = true;
}

pub fn add<T: Flav>(hs: &mut Vec<H<T>>, env: &Env, h: H<T>) {
    if hs.len() < env.max_handles {
        hs.push(h);
    } else {
        let i = idx(hs.len());
        let old = std::mem::replace(&mut hs[i], h);
        drop_h(old);
    }
}

const MUTATORS: usize = 9;
pub fn step<T: Flav>(hs: &mut Vec<H<T>>, env: &mut Env) {
    let _s = span();
    let t = idx(hs.len());
    let op = weighted(&[10, 5, 5, 3, 4, 3, 4, 4, 4, 3, 4, 4, 3, 3, 3, 4, 5, 5, 3, 2, 2, 6, 5, 5, 5]);
    match op {
        0 => {
            let (k, v) = (env.kg.key(), val());
            let h = &mut hs[t];
            let armed = arm_for(env, 4);
            tr!("{} #{t} insert {k:?} {v:?}", T::NAME);
            let r = lib_catch(|| h.t.insert(ks(&k), E::new(v.0, v.1)));
            disarm();
            match r {
                Ok(()) => {
                    h.m.insert(k, v);
                }
                Err(Stop::Injected) if armed => {
                    let o: M = [(k, v)].into_iter().collect();
                    after_panic("insert", h, &o, 0);
                }
                Err(e) => violation("panic", format!("insert: {e:?}")),
            }
        }
        1..=8 => {
            let need_same = op <= 2;
            let (o, om, ob) = operand(hs, t, env, need_same);
            let seed = draw(1 << 20);
            let unit = is_unit(&o);
            let armed = arm_for(env, 2 + (hs[t].m.len() + om.len()) as u64);
            let names = ["", "union_with", "outer_combine_with", "intersection_with", "inner_combine_with", "difference_with", "left_combine_with", "remove_prefix_with", "retain_prefix_with"];
            let name = names[op];
            tr!("{} #{t} {name} with {:?}", T::NAME, om);
            // the target is taken out so that the operand can be another handle
            let mut h = H { t: lib("empty", T::empty), m: std::mem::take(&mut hs[t].m), bent: hs[t].bent };
            std::mem::swap(&mut h.t, &mut hs[t].t);
            let r = lib_catch(|| match op {
                1 => same!(&o, hs, |x| h.t.union_with(x)),
                2 => same!(&o, hs, |x| h.t.outer_combine_with(x, move |v, w| f_mut(seed, v, w))),
                3 => any!(&o, hs, |x| h.t.intersection_with(x)),
                4 => any!(&o, hs, |x| h.t.inner_combine_with(x, move |v, w| f_mut(seed, v, w))),
                5 => any!(&o, hs, |x| h.t.difference_with(x)),
                6 => any!(&o, hs, |x| h.t.left_combine_with(x, move |v, w| f_mut(seed, v, w))),
                7 => any!(&o, hs, |x| h.t.remove_prefix_with(x, move |w| { callback(K_CLOSURE); sel(seed, w.wkt()) })),
                _ => any!(&o, hs, |x| h.t.retain_prefix_with(x, move |w| { callback(K_CLOSURE); sel(seed, w.wkt()) })),
            });
            disarm();
            let d = |v, w| dec_model(seed, unit, v, w);
            let selm = |w: &(i32, u32)| sel(seed, if unit { (0, 0) } else { *w });
            match r {
                Ok(()) => {
                    h.m = match op {
                        1 => m_outer(&h.m, &om, |v, _| Some(v)),
                        2 => m_outer(&h.m, &om, d),
                        3 => m_inner(&h.m, &om, |v, _| Some(v)),
                        4 => m_inner(&h.m, &om, d),
                        5 => m_left(&h.m, &om, |_, _| None),
                        6 => m_left(&h.m, &om, d),
                        7 => h.m.into_iter().filter(|(k, _)| !om.iter().any(|(p, w)| selm(w) && k.starts_with(p))).collect(),
                        _ => h.m.into_iter().filter(|(k, _)| om.iter().any(|(p, w)| selm(w) && k.starts_with(p))).collect(),
                    };
                    let _ = ob;
                }
                Err(Stop::Injected) if armed => after_panic(name, &mut h, &om, seed),
                Err(e) => violation("panic", format!("{} {name}: {e:?}", T::NAME)),
            }
            if ob {
                h.bent = true;
            }
            std::mem::swap(&mut h.t, &mut hs[t].t);
            hs[t].m = std::mem::take(&mut h.m);
            hs[t].bent = h.bent;
            let empty = h.t;
            lib("drop", move || drop(empty));
            // an operand passed by reference is unchanged
            if !env.check_all && chance(1, 3) {
                match &o {
                    Any::Clone(x) => {
                        let g = read_tree("operand", x);
                        check!(g == om, "operand-changed", "{} {name}: operand changed: {}", T::NAME, diff(&g, &om));
                    }
                    Any::Arch(x) => {
                        let g = read_tree("operand", *x);
                        check!(g == om, "operand-changed", "{} {name}: archived operand changed: {}", T::NAME, diff(&g, &om));
                    }
                    _ => {}
                }
            }
            drop_any(o);
        }
        MUTATORS => {
            let p = env.kg.key();
            let p = p[..p.len().min(6)].to_vec();
            let h = &mut hs[t];
            if h.m.keys().any(|k| k.len() > 60) {
                return;
            }
            tr!("{} #{t} prepend {p:?}", T::NAME);
            lib("prepend", || h.t.prepend(ks(&p)));
            h.m = std::mem::take(&mut h.m).into_iter().map(|(k, v)| ([&p[..], &k[..]].concat(), v)).collect();
        }
        10..=15 => {
            let need_same = op <= 11;
            let (o, om, ob) = operand(hs, t, env, need_same);
            let seed = draw(1 << 20);
            let unit = is_unit(&o);
            let names = ["union", "outer_combine", "intersection", "inner_combine", "difference", "left_combine"];
            let name = names[op - 10];
            // the receiver may be an archive as well
            let arch_recv = env.cross && chance(1, 4);
            let recv = if arch_recv { Some(place_arch(env.slot + 1, &hs[t].t)) } else { None };
            let armed = arm_for(env, 2 + (hs[t].m.len() + om.len()) as u64);
            tr!("{} #{t} {name} with {:?}{}", T::NAME, om, if arch_recv { " (archived receiver)" } else { "" });
            let r = lib_catch(|| match (op, recv) {
                // union, intersection and difference are methods of mutable trees only
                (10, _) => same!(&o, hs, |x| hs[t].t.union(x)),
                (11, None) => same!(&o, hs, |x| hs[t].t.outer_combine(x, move |v, w| f_ref(seed, v, w))),
                (11, Some(a)) => same!(&o, hs, |x| a.outer_combine(x, move |v, w| f_ref(seed, v, w))),
                (12, _) => any!(&o, hs, |x| hs[t].t.intersection(x)),
                (13, None) => any!(&o, hs, |x| hs[t].t.inner_combine(x, move |v, w| f_ref(seed, v, w))),
                (13, Some(a)) => any!(&o, hs, |x| a.inner_combine(x, move |v, w| f_ref(seed, v, w))),
                (14, _) => any!(&o, hs, |x| hs[t].t.difference(x)),
                (_, None) => any!(&o, hs, |x| hs[t].t.left_combine(x, move |v, w| match w { Some(w) => f_ref(seed, v, w), None => Some(v.clone()) })),
                (_, Some(a)) => any!(&o, hs, |x| a.left_combine(x, move |v, w| match w { Some(w) => f_ref(seed, v, w), None => Some(v.clone()) })),
            });
            disarm();
            let d = |v, w| dec_model(seed, unit, v, w);
            match r {
                Ok(x) => {
                    let a = &hs[t].m;
                    let m = match op {
                        10 => m_outer(a, &om, |v, _| Some(v)),
                        11 => m_outer(a, &om, d),
                        12 => m_inner(a, &om, |v, _| Some(v)),
                        13 => m_inner(a, &om, d),
                        14 => m_left(a, &om, |_, _| None),
                        _ => m_left(a, &om, d),
                    };
                    let bent = hs[t].bent || ob;
                    let g = read_tree(name, &x);
                    check!(g == m, "result", "{} {name}: {}", T::NAME, diff(&g, &m));
                    add(hs, env, H { t: x, m, bent });
                }
                Err(Stop::Injected) if armed => {
                    let g = read_tree(name, &hs[t].t);
                    check!(g == hs[t].m, "operand-changed", "{} {name}: failed, and its receiver changed: {}", T::NAME, diff(&g, &hs[t].m));
                }
                Err(e) => violation("panic", format!("{} {name}: {e:?}", T::NAME)),
            }
            drop_any(o);
        }
        16 => {
            let p = env.kg.key();
            let armed = arm_for(env, 1 + hs[t].m.len() as u64);
            tr!("{} #{t} filter_prefix {p:?}", T::NAME);
            let r = lib_catch(|| hs[t].t.filter_prefix(ks(&p)));
            disarm();
            match r {
                Ok(x) => {
                    let m = m_prefix(&hs[t].m, &p);
                    let g = read_tree("filter_prefix", &x);
                    check!(g == m, "result", "{} filter_prefix {p:?}: {}", T::NAME, diff(&g, &m));
                    let bent = hs[t].bent;
                    add(hs, env, H { t: x, m, bent });
                }
                Err(Stop::Injected) if armed => {}
                Err(e) => violation("panic", format!("filter_prefix: {e:?}")),
            }
        }
        17 => {
            let armed = arm_for(env, 1 + hs[t].m.len() as u64);
            tr!("{} #{t} clone", T::NAME);
            let r = lib_catch(|| hs[t].t.clone());
            disarm();
            match r {
                Ok(x) => {
                    let (m, bent) = (hs[t].m.clone(), hs[t].bent);
                    if let Some(s) = lib("eq", || x.same(&hs[t].t)) {
                        check!(s, "result", "a clone does not equal its source");
                    }
                    add(hs, env, H { t: x, m, bent });
                }
                Err(Stop::Injected) if armed => {}
                Err(e) => violation("panic", format!("clone: {e:?}")),
            }
        }
        18 => {
            let (x, m) = match draw(4) {
                0 => (lib("empty", T::empty), M::new()),
                1 => {
                    let v = val();
                    (lib("leaf", || T::leaf(E::new(v.0, v.1))), [(vec![], v)].into_iter().collect())
                }
                2 => {
                    let (k, v) = (env.kg.key(), val());
                    (lib("single", || T::single(ks(&k), E::new(v.0, v.1))), [(k, v)].into_iter().collect())
                }
                _ => {
                    // collected from a sequence with repeated keys: the last wins
                    let n = size(8);
                    let items: Vec<(Key, (i32, u32))> = (0..n).map(|_| (env.kg.key(), val())).collect();
                    let armed = arm_for(env, 1 + n);
                    let mut it = items.iter();
                    let r = lib_catch(|| {
                        let f: Flat = std::iter::from_fn(|| it.next().map(|(k, v)| (ks(k), E::new(v.0, v.1)))).collect();
                        T::from_flat(f)
                    });
                    disarm();
                    match r {
                        Ok(x) => (x, items.into_iter().collect()),
                        Err(Stop::Injected) if armed => return,
                        Err(e) => violation("panic", format!("collect: {e:?}")),
                    }
                }
            };
            tr!("{} new {:?}", T::NAME, m);
            let g = read_tree("new", &x);
            check!(g == m, "result", "{} constructor: {}", T::NAME, diff(&g, &m));
            add(hs, env, H { t: x, m, bent: false });
        }
        19 if hs.len() > 1 => {
            tr!("{} #{t} drop", T::NAME);
            let h = hs.remove(t);
            drop_h(h);
        }
        20 => {
            if hs.len() > 1 {
                // owned iteration
                tr!("{} #{t} into_iter", T::NAME);
                let h = hs.remove(t);
                let H { t: tree, m, .. } = h;
                let stop = draw(m.len() as u64 + 2) as usize;
                let mut got: Vec<(Key, (i32, u32))> = Vec::new();
                lib("into_iter", || {
                    let mut it = tree.into_iter();
                    while got.len() < stop {
                        match it.next() {
                            Some((k, v)) => {
                                let _o = out_lib();
                                got.push((bs(&k).to_vec(), v.kt()));
                            }
                            None => break,
                        }
                    }
                });
                let want: Vec<(Key, (i32, u32))> = m.into_iter().take(stop).collect();
                check!(got == want, "result", "{} into_iter: {got:?} instead of {want:?}", T::NAME);
            }
        }
        21 => {
            let k = env.kg.key();
            let h = &hs[t];
            tr!("{} #{t} get {k:?}", T::NAME);
            let (g, c) = lib("get", || (h.t.get(ks(&k)).map(|e| e.kt()), h.t.contains_key(ks(&k))));
            check!(g == h.m.get(&k).copied(), "lookup", "{} get {k:?}: {g:?} instead of {:?}", T::NAME, h.m.get(&k));
            check!(c == g.is_some(), "lookup", "{} contains_key {k:?} is {c}", T::NAME);
            check!(lib("is_empty", || h.t.is_empty()) == h.m.is_empty(), "lookup", "{} is_empty is wrong", T::NAME);
        }
        22 => {
            let p = env.kg.key();
            tr!("{} #{t} scan_prefix {p:?}", T::NAME);
            let h = &hs[t];
            let arch = env.cross && chance(1, 3);
            let mut got: Vec<(Key, (i32, u32))> = Vec::new();
            let mut push = |k: &[K], v: &E| {
                let _o = out_lib();
                got.push((bs(k).to_vec(), v.kt()));
            };
            if arch {
                let a = place_arch(env.slot + 1, &h.t);
                lib("scan_prefix", || a.scan_prefix(ks(&p)).for_each(|(k, v)| push(&k, v)));
            } else {
                lib("scan_prefix", || h.t.scan_prefix(ks(&p)).for_each(|(k, v)| push(&k, v)));
            }
            let want: Vec<(Key, (i32, u32))> = m_prefix(&h.m, &p).into_iter().collect();
            check!(got == want, "result", "{} scan_prefix {p:?}: {got:?} instead of {want:?}", T::NAME);
        }
        23 => {
            let (o, om, _ob) = operand(hs, t, env, false);
            tr!("{} #{t} predicates against {om:?} ({:?}/{:?})", T::NAME, any!(&o, hs, |x| (x.prefix().len(), x.children().len())), (hs[t].t.prefix().len(), hs[t].t.children().len()));
            let armed = arm_for(env, 3);
            let r = lib_catch(|| {
                any!(&o, hs, |x| {
                    let h = &hs[t].t;
                    (h.is_subset(x), h.is_superset(x), h.intersects(x), h.is_disjoint(x))
                })
            });
            disarm();
            let m = &hs[t].m;
            match r {
                Ok((sub, sup, int, dis)) => {
                    let wsub = m.keys().all(|k| om.contains_key(k));
                    let wsup = om.keys().all(|k| m.contains_key(k));
                    let wint = m.keys().any(|k| om.contains_key(k));
                    check!(sub == wsub, "predicate", "{} is_subset is {sub}: {m:?} against {om:?}", T::NAME);
                    check!(sup == wsup, "predicate", "{} is_superset is {sup}: {m:?} against {om:?}", T::NAME);
                    check!(int == wint, "predicate", "{} intersects is {int}: {m:?} against {om:?}", T::NAME);
                    check!(dis != wint, "predicate", "{} is_disjoint is {dis}: {m:?} against {om:?}", T::NAME);
                }
                Err(Stop::Injected) if armed => {}
                Err(e) => violation("panic", format!("predicates: {e:?}")),
            }
            drop_any(o);
        }
        _ => {
            // structural equality of the plain tree, and the round trip through the archived form
            let o = idx(hs.len());
            if hs[t].bent || hs[o].bent {
                return;
            }
            if let Some(s) = lib("eq", || hs[t].t.same(&hs[o].t)) {
                let want = hs[t].m.len() == hs[o].m.len() && hs[t].m.iter().zip(hs[o].m.iter()).all(|((k, v), (l, w))| k == l && v.0 == w.0);
                check!(s == want, "equality", "{} == is {s} for {:?} and {:?}", T::NAME, hs[t].m, hs[o].m);
            }
            if env.cross {
                let a = place_arch(env.slot, &hs[t].t);
                let g = read_tree("archive", a);
                check!(g == hs[t].m, "result", "{} archived form: {}", T::NAME, diff(&g, &hs[t].m));
            }
        }
    }
    // the target (and every other handle) reads as its own map
    if env.check_all || chance(1, 2) {
        for i in 0..hs.len() {
            if env.check_all || i == t {
                let g = read_tree("after", &hs[i].t);
                check!(g == hs[i].m, "content", "{} handle {i} after an operation on handle {t}: {}", T::NAME, diff(&g, &hs[i].m));
            }
        }
    }
}
