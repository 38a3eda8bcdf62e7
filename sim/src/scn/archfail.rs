//! C07: archiving and loading that is interrupted by failures of the output, the registry or caller code.
use super::arch::{Elem, Str};
use super::medium::*;
use super::tree::*;
use super::*;
use crate::rt::inst::{E, K};
use bytecheck::CheckBytes;
use rkyv::ser::Serializer;
use rkyv::validation::validators::DefaultValidator;
use rkyv::{Archive, Deserialize, Infallible, Serialize};
use vec_collections::{VecMap, VecSet};

pub const C07: Scn = Scn {
    id: "C07",
    run,
    quick: 4_000_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one attempt to archive or load was interrupted",
    real: &["rkyv Archive/Serialize/Deserialize of VecSet, VecMap, RadixTree, ArcRadixTree, LazyRadixTree", "From<&Archived> of ArcRadixTree and LazyRadixTree", "rkyv (real)"],
    stub: &["output, scratch space and shared pointer registries (simulated, failing at any call or byte)", "element types (instrumented)", "global allocator"],
    assumes: &["rkyv's own Deserialize of slices leaks what it has read so far when it is interrupted; leaks are not judged in runs where that happened", "element destructors do not panic"],
};

/// what is archived
trait Coll: Sized {
    type Model: PartialEq + std::fmt::Debug + Clone;
    fn name() -> &'static str;
    fn model(&self) -> Self::Model;
    /// library call
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail>;
    /// library call; None: the archive was not accepted
    fn validate(b: &'static [u8], pos: usize) -> Option<()>;
    /// library call: load from a (valid) archive
    fn load(b: &'static [u8], pos: usize, l: &mut Loader) -> Result<Self, Fail>;
    /// library call: load through From<&Archived>, where there is one. Leaks are judged here.
    fn open(_b: &'static [u8], _pos: usize) -> Option<Self> {
        None
    }
    fn eq(&self, o: &Self) -> bool;
    fn shares() -> bool {
        false
    }
}
fn at<T: Archive>(b: &'static [u8], pos: usize) -> &'static T::Archived {
    assert!(pos + std::mem::size_of::<T::Archived>() <= b.len());
    unsafe { rkyv::archived_value::<T>(b, pos) }
}
impl<T, const N: usize> Coll for VecSet<[T; N]>
where
    T: Elem + Ord + Serialize<Medium>,
    T::Archived: Ord + Archive + CheckBytes<DefaultValidator<'static>> + Deserialize<T, Infallible>,
    [T; N]: smallvec::Array<Item = T>,
    VecSet<[T; N]>: Archive<Archived = vec_collections::ArchivedVecSet<T::Archived>> + Serialize<Medium>,
    vec_collections::ArchivedVecSet<T::Archived>: Deserialize<VecSet<[T; N]>, Infallible>,
{
    type Model = Vec<(i32, u32)>;
    fn name() -> &'static str {
        "set"
    }
    fn model(&self) -> Self::Model {
        self.iter().map(|e| e.model()).collect()
    }
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail> {
        m.serialize_value(self)
    }
    fn validate(b: &'static [u8], pos: usize) -> Option<()> {
        rkyv::check_archived_value::<Self>(b, pos).ok().map(|_| ())
    }
    fn load(b: &'static [u8], pos: usize, _l: &mut Loader) -> Result<Self, Fail> {
        Ok(at::<Self>(b, pos).deserialize(&mut Infallible).unwrap())
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
impl<KT, VT, const N: usize> Coll for VecMap<[(KT, VT); N]>
where
    KT: Elem + Ord + Serialize<Medium>,
    VT: Elem + Serialize<Medium> + PartialEq,
    KT::Archived: Ord + CheckBytes<DefaultValidator<'static>> + Deserialize<KT, Infallible>,
    VT::Archived: CheckBytes<DefaultValidator<'static>> + Deserialize<VT, Infallible>,
    [(KT, VT); N]: smallvec::Array<Item = (KT, VT)>,
    VecMap<[(KT, VT); N]>: Archive<Archived = vec_collections::ArchivedVecMap<KT::Archived, VT::Archived>> + Serialize<Medium>,
    vec_collections::ArchivedVecMap<KT::Archived, VT::Archived>: Deserialize<VecMap<[(KT, VT); N]>, Infallible> + CheckBytes<DefaultValidator<'static>>,
{
    type Model = Vec<((i32, u32), (i32, u32))>;
    fn name() -> &'static str {
        "map"
    }
    fn model(&self) -> Self::Model {
        self.as_ref().iter().map(|(k, v)| (k.model(), v.model())).collect()
    }
    fn ser(&self, m: &mut Medium) -> Result<usize, Fail> {
        m.serialize_value(self)
    }
    fn validate(b: &'static [u8], pos: usize) -> Option<()> {
        rkyv::check_archived_value::<Self>(b, pos).ok().map(|_| ())
    }
    fn load(b: &'static [u8], pos: usize, _l: &mut Loader) -> Result<Self, Fail> {
        Ok(at::<Self>(b, pos).deserialize(&mut Infallible).unwrap())
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
macro_rules! tree {
    ($t:ty, $shares:expr, |$b:ident, $p:ident| $validate:expr, |$lb:ident, $lp:ident, $ll:ident| $load:expr, |$ob:ident, $op:ident| $open:expr) => {
        impl Coll for $t {
            type Model = M;
            fn name() -> &'static str {
                <$t as Flav>::NAME
            }
            fn model(&self) -> M {
                read_tree("read", self)
            }
            fn ser(&self, m: &mut Medium) -> Result<usize, Fail> {
                m.serialize_value(self)
            }
            fn validate($b: &'static [u8], $p: usize) -> Option<()> {
                $validate
            }
            fn load($lb: &'static [u8], $lp: usize, $ll: &mut Loader) -> Result<Self, Fail> {
                $load
            }
            fn open($ob: &'static [u8], $op: usize) -> Option<Self> {
                $open
            }
            fn eq(&self, o: &Self) -> bool {
                self.same(o).unwrap_or(true)
            }
            fn shares() -> bool {
                $shares
            }
        }
    };
}
tree!(Flat, false, |b, p| rkyv::check_archived_value::<Flat>(b, p).ok().map(|_| ()), |b, p, _l| Ok(Deserialize::<Flat, _>::deserialize(at::<Flat>(b, p), &mut Infallible).unwrap()), |_b, _p| None);
tree!(ArcT, true, |b, p| rkyv::check_archived_value::<ArcT>(b, p).ok().map(|_| ()), |b, p, l| Deserialize::<ArcT, _>::deserialize(at::<ArcT>(b, p), l), |b, p| Some(ArcT::from(at::<ArcT>(b, p))));
// the lazy flavour has no validation and no Deserialize; it is opened
tree!(LazyT, true, |_b, _p| Some(()), |b, p, _l| Ok(LazyT::from(at::<LazyT>(b, p))), |b, p| Some(LazyT::from(at::<LazyT>(b, p))));

/// `mk(i)` makes the i-th of several collections with the same history
fn case<T: Coll>(mk: &dyn Fn(usize) -> T, n: usize) {
    let s = mk(0);
    let model = s.model();
    // an undisturbed attempt, by a twin
    let twin = mk(1);
    let base = idx(2) * 4096;
    let (want, wpos, calls, lens, regs) = {
        let mut m = Medium::new(base);
        let p = match lib("archive", || twin.ser(&mut m)) {
            Ok(p) => p,
            Err(e) => violation("spurious-failure", format!("{}: archiving reports {e:?} although nothing failed", T::name())),
        };
        check!(m.depth == 0, "scratch", "{}: scratch space is not given back", T::name());
        (std::mem::take(&mut m.out), p - base, m.calls, m.out.len(), m.registrations)
    };
    let _ = lens;
    check!(twin.model() == model, "source-changed", "{}: archiving changed the collection", T::name());
    lib("drop", move || drop(twin));
    tr!("{} of {n}, {} bytes, {calls} calls: {model:?}", T::name(), want.len());
    for _ in 0..draw(4) {
        let _s = span();
        let mut m = Medium::new(base);
        match weighted(&[4, 2, 1, 1, 1, 3, 1]) {
            0 => (m.kind, m.at) = (Kind::Any, 1 + draw(calls.max(1))),
            1 => (m.kind, m.at) = (Kind::Full, draw(want.len() as u64)),
            2 => (m.kind, m.at) = (Kind::Scratch, 1 + draw(calls / 2 + 1)),
            3 => (m.kind, m.at) = (Kind::Registry, 1 + draw(regs + 1)),
            4 => (m.kind, m.at) = (Kind::Write, 1 + draw(calls / 2 + 1)),
            5 => {
                let c = ctx();
                c.arm_mask = pick(&[K_SER | K_CLONE, K_CLONE, K_SER]);
                c.arm = 1 + draw(2 * n as u64 + 2);
            }
            _ => m.amnesia = true,
        }
        let r = lib_catch(|| s.ser(&mut m));
        disarm();
        match (r, m.failed) {
            (Ok(Err(e)), Some(f)) => {
                check!(e == f, "wrong-error", "{}: archiving reports {e:?} instead of {f:?}", T::name());
                nontrivial();
            }
            (Ok(Err(e)), None) => violation("spurious-failure", format!("{}: archiving reports {e:?} although nothing failed", T::name())),
            (Ok(Ok(_)), Some(f)) => violation("failure-swallowed", format!("{}: archiving succeeds although its output failed with {f:?}", T::name())),
            (Ok(Ok(p)), None) => {
                if m.amnesia {
                    // nothing is shared, but it still is an archive of the same contents
                    let (b, p) = (std::mem::take(&mut m.out), p - base);
                    let buf: &'static [u8] = guard::place(1, &b, true);
                    let d = lib("load", || T::load(buf, p, &mut Loader::new(0)));
                    let d = d.unwrap_or_else(|e| violation("spurious-failure", format!("loading reports {e:?}")));
                    check!(d.model() == model, "content", "{}: archive written without sharing reads {:?} instead of {model:?}", T::name(), d.model());
                    lib("drop", move || drop(d));
                } else {
                    check!(p - base == wpos && m.out == want, "bytes", "{}: repeated archiving of the same collection gives other bytes", T::name());
                }
            }
            (Err(Stop::Injected), _) => nontrivial(),
            (Err(Stop::Lib(x)), _) => violation("panic", format!("archiving a {}: {x}", T::name())),
        }
        drop(m);
        check!(s.model() == model, "source-changed", "{}: interrupted archiving changed the collection to {:?}", T::name(), s.model());
    }
    // the retry
    let mut m = Medium::new(base);
    let p = match lib("archive", || s.ser(&mut m)) {
        Ok(p) => p - base,
        Err(e) => violation("retry-failed", format!("{}: archiving after an interrupted attempt reports {e:?}", T::name())),
    };
    check!(p == wpos && m.out == want, "retry-bytes", "{}: archiving after an interrupted attempt gives other bytes than an undisturbed attempt", T::name());
    drop(m);
    let buf: &'static [u8] = guard::place(1, &want, coin());
    check!(lib("validate", || T::validate(buf, p)).is_some(), "intact-rejected", "{}: archive is rejected", T::name());
    obs(mix(want.len() as u64, p as u64));
    // loading, interrupted
    let loads = if T::shares() && chance(1, 2) { draw(3) } else { draw(2) * draw(2) };
    for _ in 0..loads {
        let _s = span();
        let by_ref = coin();
        let mut l = Loader::new(0);
        if coin() {
            l.at = 1 + draw(regs + 1);
        } else {
            let c = ctx();
            c.arm_mask = K_SER | K_CLONE;
            c.arm = 1 + draw(n as u64 + 1);
        }
        let r = lib_catch(|| if by_ref { T::open(buf, p).map(Ok) } else { Some(T::load(buf, p, &mut l)) });
        disarm();
        match r {
            Ok(None) => {}
            Ok(Some(Ok(d))) => {
                check!(l.failed.is_none(), "failure-swallowed", "{}: loading succeeds although its registry failed", T::name());
                // the flavour may load the rest later
                let x = d.model();
                check!(x == model, "content", "{}: loaded archive reads {x:?} instead of {model:?}", T::name());
                lib("drop", move || drop(d));
            }
            Ok(Some(Err(e))) => {
                check!(l.failed == Some(e), "spurious-failure", "{}: loading reports {e:?} instead of {:?}", T::name(), l.failed);
                nontrivial();
                ctx().forgive_leaks = true;
                probe("leaks of rkyv forgiven");
            }
            Err(Stop::Injected) => {
                nontrivial();
                if !by_ref {
                    ctx().forgive_leaks = true;
                    probe("leaks of rkyv forgiven");
                }
            }
            Err(Stop::Lib(x)) => violation("panic", format!("loading a {}: {x}", T::name())),
        }
    }
    for by_ref in [false, true] {
        let r = lib("load", || if by_ref { T::open(buf, p).map(Ok) } else { Some(T::load(buf, p, &mut Loader::new(0))) });
        match r {
            None => {}
            Some(Err(e)) => violation("retry-failed", format!("{}: loading reports {e:?} although nothing fails any more", T::name())),
            Some(Ok(d)) => {
                let x = d.model();
                check!(x == model, "content", "{}: loaded archive reads {x:?} instead of {model:?}", T::name());
                check!(lib("eq", || T::eq(&d, &s)), "content", "{}: loaded collection does not equal its source", T::name());
                lib("drop", move || drop(d));
            }
        }
    }
    check!(buf == &want[..], "archive-written", "loading modified the archive");
    lib("drop", move || drop(s));
}

fn keys(max: u64) -> Vec<(i32, u32)> {
    let r = pick(&[6u64, 16, 60]);
    (0..size(max)).map(|_| (draw(r) as i32, fresh_tag())).collect()
}
fn set<T: Elem + Ord + Clone, const N: usize>()
where
    VecSet<[T; N]>: Coll,
    [T; N]: smallvec::Array<Item = T>,
{
    let ks = keys(12);
    case::<VecSet<[T; N]>>(&|_| lib("collect", || ks.iter().map(|(k, t)| T::make(*k, *t)).collect()), ks.len());
}
fn map<KT: Elem + Ord + Clone, VT: Elem, const N: usize>()
where
    VecMap<[(KT, VT); N]>: Coll,
    [(KT, VT); N]: smallvec::Array<Item = (KT, VT)>,
{
    let ks = keys(10);
    case::<VecMap<[(KT, VT); N]>>(&|_| lib("collect", || ks.iter().map(|(k, t)| (KT::make(*k, *t), VT::make(*t as i32 & 7, *t))).collect()), ks.len());
}
fn tree<T: Flav + Coll>(lazy: bool) {
    let mut kg = KeyGen::draw();
    let m = gen_map(&mut kg, 12);
    let m2 = gen_map(&mut kg, 5);
    let how = draw(5);
    let n = m.len() + m2.len();
    let shape = if lazy {
        let f = build::<T>(&m);
        let b = lib("archive", || f.archive());
        lib("drop", move || drop(f));
        Some(b)
    } else {
        None
    };
    let buf: Option<&'static [u8]> = shape.map(|b| &*guard::place(0, &b, true));
    let mk = |_: usize| -> T {
        let mut t: T = match buf {
            Some(b) => lib("open", || T::from_arch(T::root(b)).unwrap()),
            None => {
                let mut t: T = lib("empty", T::empty);
                for (k, v) in &m {
                    lib("insert", || t.insert(ks(k), E::new(v.0, v.1)));
                }
                t
            }
        };
        let mut o: T = lib("empty", T::empty);
        for (k, v) in &m2 {
            lib("insert", || o.insert(ks(k), E::new(v.0, v.1)));
        }
        lib("modify", || match how {
            0 => {}
            1 => t.union_with(&o),
            2 => t.difference_with(&o),
            3 => {
                let mut c = t.clone();
                t.prepend(&[K(1), K(2)]);
                c.prepend(&[K(1), K(3)]);
                t.union_with(&c);
            }
            _ => {
                let c = t.clone();
                t.union_with(&o);
                drop(c);
            }
        });
        lib("drop", move || drop(o));
        t
    };
    case::<T>(&mk, 2 * n);
}

fn run() {
    match draw(12) {
        0 => set::<E, 2>(),
        1 => set::<Str, 4>(),
        2 => map::<E, E, 2>(),
        3 => map::<Str, E, 1>(),
        4 | 5 => tree::<Flat>(false),
        6..=8 => tree::<ArcT>(false),
        9 => tree::<LazyT>(false),
        10 => tree::<LazyT>(true),
        _ => tree::<ArcT>(true),
    }
}
