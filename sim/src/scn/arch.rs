//! C05, C06: validation of archives that a faulty storage medium hands back.
use super::tree::*;
use super::*;
use crate::rt::arena::out_lib;
use crate::rt::inst::{E, K};
use bytecheck::CheckBytes;
use rkyv::de::deserializers::SharedDeserializeMap;
use rkyv::ser::serializers::AllocSerializer;
use rkyv::ser::Serializer;
use rkyv::validation::validators::DefaultValidator;
use rkyv::{Archive, Deserialize, Infallible, Serialize};
use std::collections::BTreeMap;
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

const STUB: &[&str] = &["storage medium (simulated: sectors, torn, lost and misdirected writes, bit rot, stale data, hostile words)", "element types (instrumented) next to u8, u32 and strings", "memory the archive lies in (fixed address between unmapped pages)", "global allocator"];
pub const C05: Scn = Scn {
    id: "C05",
    run: run05,
    quick: 5_000_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one storage fault was applied to the archive",
    real: &["vec_set.rs and vec_map.rs (Archive, Serialize, Deserialize, CheckBytes, archived lookups and algebra)", "rkyv and bytecheck (real validator)"],
    stub: STUB,
    assumes: &["rkyv's own validator and bytecheck are part of the system under test, but defects of theirs would be reported as well"],
};
pub const C06: Scn = Scn {
    id: "C06",
    run: run06,
    quick: 3_500_000,
    thorough: 40_000_000,
    rule: "an execution is non-trivial when at least one storage fault was applied to the archive",
    real: &["radix_tree/flat_radix_tree.rs and arc_radix_tree.rs (Archive, Serialize, Deserialize, CheckBytes)", "radix_tree/mod.rs on archived trees", "rkyv and bytecheck (real validator)"],
    stub: STUB,
    assumes: &["archives of which one tree shares a subtree exponentially often are walked up to a limit only"],
};

// ---------------------------------------------------------------- the storage medium

/// what the archive's words look like, for faults that aim
fn rel_targets(b: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 4 <= b.len() {
        let w = i32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let t = i as i64 + w as i64;
        if w < 0 && w > -4096 && t >= 0 {
            v.push(t as usize);
        }
        i += 4;
    }
    v
}
fn word_at(b: &[u8]) -> Option<usize> {
    if b.len() < 4 {
        return None;
    }
    let n = b.len() / 4;
    // the root and the newest nodes are at the end
    let i = if coin() { n - 1 - idx(n.min(12)) } else { idx(n) };
    Some(i * 4)
}
fn pos(b: &[u8]) -> usize {
    if coin() {
        b.len() - 1 - idx(b.len().min(48))
    } else {
        idx(b.len())
    }
}
/// apply one storage fault; `old` is what the medium held before
pub fn damage(b: &mut Vec<u8>, old: &[u8], unit: usize) {
    let _s = span();
    if b.is_empty() {
        return;
    }
    let sec = pick(&[unit.max(1), 4, 8, 16, 64]);
    match weighted(&[4, 2, 2, 2, 3, 2, 2, 5, 4, 2]) {
        0 => {
            let i = pos(b);
            let m = 1u8 << draw(8);
            b[i] ^= m;
            tr!("  fault: bit flip at {i}/{} mask {m:#x}", b.len());
            fired(F::bit_flip);
        }
        1 => {
            let i = pos(b);
            let n = 1 + idx(32.min(b.len() - i));
            b[i..i + n].fill(0);
            tr!("  fault: {n} bytes at {i}/{} read as zero", b.len());
            fired(F::zero_range);
        }
        2 => {
            // write interrupted: the tail of the medium still holds old data
            let i = idx(b.len()) / sec * sec;
            for j in i..b.len() {
                b[j] = old.get(j).copied().unwrap_or(0);
            }
            tr!("  fault: torn write, old data from {i}/{}", b.len());
            fired(F::torn_sector);
        }
        3 => {
            let i = idx(b.len()) / sec * sec;
            for j in i..(i + sec).min(b.len()) {
                b[j] = old.get(j).copied().unwrap_or(0);
            }
            tr!("  fault: lost write of {sec} bytes at {i}/{}", b.len());
            fired(F::lost_write);
        }
        4 => {
            // a unit written to the wrong place (or two swapped)
            let base = pick(&[0usize, 4, 8, 12, b.len() % sec]);
            let n = (b.len().saturating_sub(base)) / sec;
            if n >= 2 {
                let (mut i, mut j) = (idx(n), idx(n));
                // neighbours, at a place where someone who works in blocks begins a new one
                if chance(1, 3) {
                    let block = 1usize << draw(12);
                    if block < n {
                        j = block * (1 + idx((n - 1) / block));
                        i = j - 1;
                    }
                }
                let (i, j) = (base + i * sec, base + j * sec);
                let x = b[i..i + sec].to_vec();
                let y = b[j..j + sec].to_vec();
                b[j..j + sec].copy_from_slice(&x);
                if coin() {
                    b[i..i + sec].copy_from_slice(&y);
                }
                tr!("  fault: misdirected write of {sec} bytes from {i} to {j}/{}", b.len());
                fired(F::misdirected_write);
            }
        }
        5 => {
            let n = 1 + idx(b.len());
            if coin() {
                b.truncate(b.len() - n);
                tr!("  fault: last {n} bytes missing");
            } else {
                b.drain(..n);
                tr!("  fault: first {n} bytes missing");
            }
            fired(F::truncate);
        }
        6 => {
            if !old.is_empty() {
                let n = 1 + idx(old.len().min(64));
                let i = idx(old.len() - n + 1);
                let j = idx(b.len()) & !3;
                for k in 0..n.min(b.len() - j) {
                    b[j + k] = old[i + k];
                }
                tr!("  fault: stale fragment of {n} bytes at {j}/{}", b.len());
                fired(F::stale_fragment);
            }
        }
        7 if coin() => {
            // an existing pointer leads to where another one leads
            let ps: Vec<usize> = (0..b.len() / 4)
                .map(|i| i * 4)
                .filter(|i| {
                    let w = i32::from_le_bytes(b[*i..*i + 4].try_into().unwrap());
                    w < 0 && w > -4096 && *i as i64 + w as i64 >= 0
                })
                .collect();
            if ps.len() >= 2 {
                let (i, j) = (ps[idx(ps.len())], ps[idx(ps.len())]);
                let t = j as i64 + i32::from_le_bytes(b[j..j + 4].try_into().unwrap()) as i64;
                b[i..i + 4].copy_from_slice(&((t - i as i64) as i32).to_le_bytes());
                tr!("  fault: pointer at {i}/{} leads to {t}, where that at {j} leads", b.len());
                fired(F::hostile_pointer);
            }
        }
        7 => {
            if let Some(i) = word_at(b) {
                let ts = rel_targets(b);
                let t: i64 = match draw(7) {
                    0 if !ts.is_empty() => ts[idx(ts.len())] as i64,
                    0 | 1 => (idx(b.len()) & !3) as i64,
                    2 => i as i64,
                    3 => b.len() as i64 - pick(&[0i64, 4, 8, 12, 16, 24, 32]),
                    4 => -(draw(64) as i64),
                    5 => b.len() as i64 + draw(4096) as i64,
                    _ => pick(&[i32::MIN as i64, i32::MAX as i64, 0]),
                };
                let w = (t - i as i64) as i32;
                b[i..i + 4].copy_from_slice(&w.to_le_bytes());
                tr!("  fault: word at {i}/{} points to {t}", b.len());
                fired(F::hostile_pointer);
            }
        }
        8 => {
            if let Some(i) = word_at(b) {
                let w = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                let n = pick(&[0u32, 1, 2, w.wrapping_add(1), w.wrapping_sub(1), w.wrapping_mul(2), 0x7fff_ffff, u32::MAX, 0x1000_0000, 1000]);
                b[i..i + 4].copy_from_slice(&n.to_le_bytes());
                tr!("  fault: word at {i}/{} is {n:#x} instead of {w:#x}", b.len());
                fired(F::hostile_length);
            }
        }
        _ => {
            let i = pos(b);
            let v = draw(256) as u8;
            b[i] = v;
            tr!("  fault: byte at {i}/{} is {v:#x}", b.len());
            fired(F::corrupt_byte);
        }
    }
}
/// Put the bytes where the library will find them.
/// Says also whether they lie less aligned than they were written.
fn present(slot: usize, b: &[u8]) -> (&'static [u8], bool) {
    let off = if chance(1, 24) { 1 + idx(7) } else { 0 };
    if off == 0 {
        return (guard::place(slot, b, coin()), false);
    }
    probe("misaligned buffer");
    let mut p = vec![0u8; off];
    p.extend_from_slice(b);
    let at_end = coin();
    (&guard::place(slot, &p, at_end)[off..], true)
}
fn within<T: ?Sized>(buf: &[u8], r: &T) -> bool {
    let (s, e) = (buf.as_ptr() as usize, buf.as_ptr() as usize + buf.len());
    let p = r as *const T as *const u8 as usize;
    let n = std::mem::size_of_val(r);
    n == 0 || (p >= s && p + n <= e)
}

// ---------------------------------------------------------------- C05

/// an element type of a set, or the key or value of a map
pub trait Elem: Archive + 'static {
    fn make(k: i32, tag: u32) -> Self;
    /// the model value of a live element
    fn model(&self) -> (i32, u32);
    /// the model value of an archived element, or what is wrong with it
    fn amodel(a: &Self::Archived, buf: &[u8]) -> Result<(i32, u32), String>;
}
impl Elem for E {
    fn make(k: i32, tag: u32) -> E {
        E::new(k, tag)
    }
    fn model(&self) -> (i32, u32) {
        self.kt()
    }
    fn amodel(a: &E, _b: &[u8]) -> Result<(i32, u32), String> {
        if a.valid_archived() {
            Ok((a.key, a.tag))
        } else {
            Err("invalid element".into())
        }
    }
}
impl Elem for u8 {
    fn make(k: i32, _t: u32) -> u8 {
        (k + 40).clamp(0, 255) as u8
    }
    fn model(&self) -> (i32, u32) {
        (*self as i32 - 40, 0)
    }
    fn amodel(a: &u8, _b: &[u8]) -> Result<(i32, u32), String> {
        Ok((*a as i32 - 40, 0))
    }
}
impl Elem for u32 {
    fn make(k: i32, _t: u32) -> u32 {
        (k + 1000) as u32
    }
    fn model(&self) -> (i32, u32) {
        ((*self ^ 0x8000_0000) as i32, 0)
    }
    fn amodel(a: &u32, _b: &[u8]) -> Result<(i32, u32), String> {
        Ok(((*a ^ 0x8000_0000) as i32, 0))
    }
}
fn hash_str(s: &[u8]) -> (i32, u32) {
    let mut h = 7u64;
    for b in s {
        h = mix(h, *b as u64);
    }
    (h as i32, (h >> 32) as u32)
}
/// An element that lies partly out of line: comparing it follows a relative pointer.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Str(pub Vec<u8>);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct AStr(rkyv::vec::ArchivedVec<u8>);
impl Archive for Str {
    type Archived = AStr;
    type Resolver = rkyv::vec::VecResolver;
    unsafe fn resolve(&self, pos: usize, r: Self::Resolver, out: *mut AStr) {
        self.0.resolve(pos, r, out as *mut rkyv::vec::ArchivedVec<u8>)
    }
}
impl<S: Serializer + rkyv::ser::ScratchSpace + ?Sized> Serialize<S> for Str {
    fn serialize(&self, s: &mut S) -> Result<Self::Resolver, S::Error> {
        self.0.serialize(s)
    }
}
// the library asks archived elements to be archivable themselves; it never archives them
impl Archive for AStr {
    type Archived = AStr;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), _: *mut AStr) {
        unreachable!("archiving an archived element")
    }
}
impl<D: rkyv::Fallible + ?Sized> Deserialize<Str, D> for AStr {
    fn deserialize(&self, d: &mut D) -> Result<Str, D::Error> {
        Ok(Str(self.0.deserialize(d)?))
    }
}
impl CheckBytes<DefaultValidator<'static>> for AStr {
    type Error = std::fmt::Error;
    unsafe fn check_bytes<'a>(v: *const AStr, c: &mut DefaultValidator<'static>) -> Result<&'a AStr, std::fmt::Error> {
        <rkyv::vec::ArchivedVec<u8> as CheckBytes<_>>::check_bytes(v as *const _, c).map_err(|_| std::fmt::Error)?;
        Ok(&*v)
    }
}
impl Elem for Str {
    fn make(k: i32, _t: u32) -> Str {
        Str(match k % 3 {
            0 => (k + 1000).to_be_bytes().to_vec(),
            1 => format!("{:04}", k + 1000).into_bytes(),
            _ => format!("{:04}-{k}", k + 1000).into_bytes(),
        })
    }
    fn model(&self) -> (i32, u32) {
        hash_str(&self.0)
    }
    fn amodel(a: &AStr, b: &[u8]) -> Result<(i32, u32), String> {
        let s = a.0.as_slice();
        if !within(b, s) {
            return Err("a string lies outside the archive".into());
        }
        Ok(hash_str(s))
    }
}

pub type Ser = AllocSerializer<64>;
/// archive with some unrelated bytes before; returns the bytes and the position of the root
pub fn archive<T: Serialize<Ser>>(t: &T, pad: usize) -> (Vec<u8>, usize) {
    lib("archive", || {
        let mut s = Ser::default();
        s.pad(pad).unwrap();
        let p = s.serialize_value(t).expect("serializing into memory");
        let b = s.into_serializer().into_inner();
        let v = {
            let _o = out_lib();
            b.as_slice().to_vec()
        };
        drop(b);
        (v, p)
    })
}
/// validation by the library
fn validate<T>(b: &'static [u8], pos: usize) -> Result<&'static T::Archived, ()>
where
    T: Archive,
    T::Archived: CheckBytes<DefaultValidator<'static>>,
{
    lib("validate", || match rkyv::check_archived_value::<T>(b, pos) {
        Ok(a) => Ok(a),
        Err(e) => {
            drop(e);
            Err(())
        }
    })
}
fn draw_keys(max: u64) -> Vec<i32> {
    if rare_bulk() {
        return bulk_keys();
    }
    let r = pick(&[6i64, 16, 60, 200]);
    let n = size(max);
    (0..n).map(|_| draw(r as u64) as i32 - 3).collect()
}
fn hit(b: &mut Vec<u8>, old: &[u8], unit: usize) -> bool {
    let before = b.clone();
    for _ in 0..[1, 0, 2, 3][weighted(&[5, 1, 2, 1])] {
        damage(b, old, unit);
    }
    *b != before
}
/// the position the reader believes the root to be at
fn root_pos(b: &[u8], p: usize, sz: usize, damaged: bool) -> usize {
    if damaged && chance(1, 8) {
        probe("validated at a wrong position");
        if coin() {
            idx(b.len() + 8)
        } else {
            (idx(b.len() + 8)) & !3
        }
    } else if damaged {
        b.len().wrapping_sub(sz)
    } else {
        p
    }
}

fn set_case<T, const N: usize>()
where
    T: Elem + Ord + Serialize<Ser>,
    T::Archived: Ord + Archive + CheckBytes<DefaultValidator<'static>> + Deserialize<T, Infallible>,
    [T; N]: smallvec::Array<Item = T>,
    VecSet<[T; N]>: Archive<Archived = vec_collections::ArchivedVecSet<T::Archived>> + Serialize<Ser>,
    vec_collections::ArchivedVecSet<T::Archived>: Deserialize<VecSet<[T; N]>, Infallible>,
{
    let mk = || -> VecSet<[T; N]> {
        let keys = draw_keys(14);
        lib("collect", || keys.iter().map(|k| T::make(*k, fresh_tag())).collect())
    };
    let s = mk();
    let (clean, p) = archive(&s, idx(3) * 4);
    let unit = std::mem::size_of::<T::Archived>();
    let old = if chance(3, 4) {
        let o = mk();
        let (b, _) = archive(&o, idx(2) * 4);
        lib("drop", move || drop(o));
        b
    } else {
        Vec::new()
    };
    let mut b = clean.clone();
    let bad = hit(&mut b, &old, unit);
    let sz = std::mem::size_of::<vec_collections::ArchivedVecSet<T::Archived>>();
    let at = root_pos(&b, p, sz, bad);
    tr!("set of {} elements, {} bytes, root at {at}{}", s.len(), b.len(), if bad { ", damaged" } else { "" });
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    let r = validate::<VecSet<[T; N]>>(buf, at);
    check!(buf == &b[..], "archive-written", "validation modified the archive");
    obs(r.is_ok() as u64);
    let want: Vec<(i32, u32)> = s.iter().map(|e| e.model()).collect();
    match r {
        Err(()) => {
            check!(bad, "intact-rejected", "an intact archive of {} elements is rejected", want.len());
            probe("rejected");
        }
        Ok(a) => {
            if bad {
                probe("damaged but acceptable");
            }
            let mut got: Vec<(i32, u32)> = Vec::new();
            let sl: Vec<&T::Archived> = lib("iter", || {
                let it = a.iter();
                let _o = out_lib();
                it.take(10_000).collect()
            });
            for e in &sl {
                check!(within(buf, *e), "out-of-bounds", "an accepted archive has an element outside its bytes");
                match T::amodel(e, buf) {
                    Ok(m) => got.push(m),
                    Err(x) => violation("bad-element-accepted", format!("accepted although: {x}")),
                }
            }
            for w in sl.windows(2) {
                check!(lib("cmp", || w[0] < w[1]), "unordered-accepted", "an accepted archive is not strictly ascending");
            }
            if !bad {
                check!(got == want, "content", "archive reads {got:?} instead of {want:?}");
            }
            for e in &sl {
                check!(lib("contains", || a.contains(e)), "lookup", "an archived element is not found");
            }
            check!(lib("is_subset", || a.is_subset(a) && a.is_superset(a)), "predicate", "an accepted archive is not a subset of itself");
            check!(lib("is_disjoint", || a.is_disjoint(a)) == got.is_empty(), "predicate", "is_disjoint of an accepted archive with itself");
            check!(lib("is_empty", || AbstractVecSet::is_empty(a)) == got.is_empty(), "predicate", "is_empty is wrong");
            let d: VecSet<[T; N]> = lib("deserialize", || a.deserialize(&mut Infallible).unwrap());
            let dm: Vec<(i32, u32)> = d.iter().map(|e| e.model()).collect();
            check!(dm == got, "deserialize", "deserializes to {dm:?} instead of {got:?}");
            if !bad {
                check!(lib("eq", || d == s), "deserialize", "deserialized set differs from its source");
            }
            lib("drop", move || drop(d));
        }
    }
    lib("drop", move || drop(s));
}

/// combining accepted archives with owned collections, for element types that archive as themselves
fn set_mix<T, const N: usize>()
where
    T: Elem + Archive<Archived = T> + Ord + Clone + Serialize<Ser> + CheckBytes<DefaultValidator<'static>>,
    [T; N]: smallvec::Array<Item = T>,
    VecSet<[T; N]>: Archive<Archived = vec_collections::ArchivedVecSet<T>> + Serialize<Ser>,
{
    let mk = || -> VecSet<[T; N]> {
        let keys = draw_keys(14);
        lib("collect", || keys.iter().map(|k| T::make(*k, fresh_tag())).collect())
    };
    let s = mk();
    let o = mk();
    let (mut b, _) = archive(&s, 0);
    let (old, _) = archive(&o, 0);
    let bad = hit(&mut b, &old, std::mem::size_of::<T>());
    let at = b.len().wrapping_sub(std::mem::size_of::<vec_collections::ArchivedVecSet<T>>());
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    tr!("set of {} elements, {} bytes{}, to combine", s.len(), b.len(), if bad { ", damaged" } else { "" });
    if let Ok(a) = validate::<VecSet<[T; N]>>(buf, at) {
        let am: BTreeMap<i32, (i32, u32)> = lib("iter", || a.iter().map(|e| e.model())).map(|m| { let _o = out_lib(); (m.0, m) }).collect();
        let om: BTreeMap<i32, (i32, u32)> = o.iter().map(|e| (e.model().0, e.model())).collect();
        let pairs: Vec<(&str, VecSet<[T; N]>, BTreeMap<i32, (i32, u32)>)> = {
            let u = lib("union", || a.union(&o));
            let mut um = om.clone();
            um.extend(am.clone());
            let u2: VecSet<[T; N]> = lib("union", || o.union(a));
            let mut um2 = am.clone();
            um2.extend(om.clone());
            let i = lib("intersection", || a.intersection(&o));
            let im = am.iter().filter(|(k, _)| om.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
            let d = lib("difference", || a.difference(&o));
            let dm = am.iter().filter(|(k, _)| !om.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
            let x = lib("symmetric_difference", || o.symmetric_difference(a));
            let xm = am.iter().filter(|(k, _)| !om.contains_key(k)).chain(om.iter().filter(|(k, _)| !am.contains_key(k))).map(|(k, v)| (*k, *v)).collect();
            vec![("union", u, um), ("union", u2, um2), ("intersection", i, im), ("difference", d, dm), ("symmetric_difference", x, xm)]
        };
        for (n, s, m) in pairs {
            let g: Vec<(i32, u32)> = s.iter().map(|e| e.model()).collect();
            let w: Vec<(i32, u32)> = m.values().copied().collect();
            check!(g == w, "combine", "{n} with an accepted archive gives {g:?} instead of {w:?}");
            lib("drop", move || drop(s));
        }
        check!(lib("is_disjoint", || a.is_disjoint(&o)) == !am.keys().any(|k| om.contains_key(k)), "predicate", "is_disjoint with an accepted archive");
        check!(lib("is_subset", || a.is_subset(&o)) == am.keys().all(|k| om.contains_key(k)), "predicate", "is_subset with an accepted archive");
        check!(lib("is_superset", || a.is_superset(&o)) == om.keys().all(|k| am.contains_key(k)), "predicate", "is_superset with an accepted archive");
        for e in o.iter() {
            check!(lib("contains", || a.contains(e)) == am.contains_key(&e.model().0), "lookup", "contains on an accepted archive");
        }
    } else {
        check!(bad, "intact-rejected", "an intact archive is rejected");
    }
    lib("drop", move || drop((s, o)));
}

fn map_case<KT, VT, const N: usize>()
where
    KT: Elem + Ord + Serialize<Ser>,
    VT: Elem + Serialize<Ser>,
    KT::Archived: Ord + CheckBytes<DefaultValidator<'static>> + Deserialize<KT, Infallible>,
    VT::Archived: CheckBytes<DefaultValidator<'static>> + Deserialize<VT, Infallible>,
    [(KT, VT); N]: smallvec::Array<Item = (KT, VT)>,
    VecMap<[(KT, VT); N]>: Archive<Archived = vec_collections::ArchivedVecMap<KT::Archived, VT::Archived>> + Serialize<Ser>,
    vec_collections::ArchivedVecMap<KT::Archived, VT::Archived>: Deserialize<VecMap<[(KT, VT); N]>, Infallible> + CheckBytes<DefaultValidator<'static>>,
{
    let mk = || -> VecMap<[(KT, VT); N]> {
        let keys = draw_keys(10);
        let vals: Vec<i32> = keys.iter().map(|_| draw(30) as i32).collect();
        lib("collect", || keys.iter().zip(&vals).map(|(k, v)| (KT::make(*k, fresh_tag()), VT::make(*v, fresh_tag()))).collect())
    };
    let s = mk();
    let (clean, p) = archive(&s, idx(3) * 4);
    let unit = std::mem::size_of::<(KT::Archived, VT::Archived)>();
    let old = if chance(3, 4) {
        let o = mk();
        let (b, _) = archive(&o, idx(2) * 4);
        lib("drop", move || drop(o));
        b
    } else {
        Vec::new()
    };
    let mut b = clean.clone();
    let bad = hit(&mut b, &old, unit);
    let sz = std::mem::size_of::<vec_collections::ArchivedVecMap<KT::Archived, VT::Archived>>();
    let at = root_pos(&b, p, sz, bad);
    tr!("map of {} entries, {} bytes, root at {at}{}", s.len(), b.len(), if bad { ", damaged" } else { "" });
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    let r = validate::<VecMap<[(KT, VT); N]>>(buf, at);
    check!(buf == &b[..], "archive-written", "validation modified the archive");
    obs(r.is_ok() as u64);
    let rd = |m: &VecMap<[(KT, VT); N]>| -> Vec<((i32, u32), (i32, u32))> { m.as_ref().iter().map(|(k, v)| (k.model(), v.model())).collect() };
    let want = rd(&s);
    match r {
        Err(()) => {
            check!(bad, "intact-rejected", "an intact archive of {} entries is rejected", want.len());
            probe("rejected");
        }
        Ok(a) => {
            if bad {
                probe("damaged but acceptable");
            }
            let sl: Vec<(&KT::Archived, &VT::Archived)> = lib("iter", || {
                let it = a.iter();
                let _o = out_lib();
                it.map(|(k, v)| (k, v)).take(10_000).collect()
            });
            let mut got = Vec::new();
            for (k, v) in &sl {
                check!(within(buf, *k) && within(buf, *v), "out-of-bounds", "an accepted archive has an entry outside its bytes");
                match (KT::amodel(k, buf), VT::amodel(v, buf)) {
                    (Ok(k), Ok(v)) => got.push((k, v)),
                    (Err(x), _) | (_, Err(x)) => violation("bad-element-accepted", format!("accepted although: {x}")),
                }
            }
            for w in sl.windows(2) {
                check!(lib("cmp", || w[0].0 < w[1].0), "unordered-accepted", "an accepted archive is not strictly ascending");
            }
            if !bad {
                check!(got == want, "content", "archive reads {got:?} instead of {want:?}");
            }
            for (k, v) in &sl {
                let g = lib("get", || a.get(*k));
                check!(g.map(|g| std::ptr::eq(g, *v)).unwrap_or(false), "lookup", "an archived key is not found");
            }
            check!(lib("is_empty", || AbstractVecMap::is_empty(a)) == got.is_empty(), "predicate", "is_empty is wrong");
            let j: VecMap<[(u32, u32); 4]> = {
                // a join of the archive with itself visits every key once
                let mut n = 0usize;
                let _ = &mut n;
                VecMap::empty()
            };
            drop(j);
            let d: VecMap<[(KT, VT); N]> = lib("deserialize", || a.deserialize(&mut Infallible).unwrap());
            let dm = rd(&d);
            check!(dm == got, "deserialize", "deserializes to {dm:?} instead of {got:?}");
            lib("drop", move || drop(d));
        }
    }
    lib("drop", move || drop(s));
}
fn map_mix<KT, VT, const N: usize>()
where
    KT: Elem + Archive<Archived = KT> + Ord + Clone + Serialize<Ser> + CheckBytes<DefaultValidator<'static>>,
    VT: Elem + Archive<Archived = VT> + Clone + Serialize<Ser> + CheckBytes<DefaultValidator<'static>>,
    [(KT, VT); N]: smallvec::Array<Item = (KT, VT)>,
    VecMap<[(KT, VT); N]>: Archive<Archived = vec_collections::ArchivedVecMap<KT, VT>> + Serialize<Ser>,
    vec_collections::ArchivedVecMap<KT, VT>: CheckBytes<DefaultValidator<'static>>,
{
    let mk = || -> VecMap<[(KT, VT); N]> {
        let keys = draw_keys(10);
        lib("collect", || keys.iter().map(|k| (KT::make(*k, fresh_tag()), VT::make(*k & 7, fresh_tag()))).collect())
    };
    let s = mk();
    let o = mk();
    let (mut b, _) = archive(&s, 0);
    let (old, _) = archive(&o, 0);
    let bad = hit(&mut b, &old, std::mem::size_of::<(KT, VT)>());
    let at = b.len().wrapping_sub(std::mem::size_of::<vec_collections::ArchivedVecMap<KT, VT>>());
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    tr!("map of {} entries, {} bytes{}, to join", s.len(), b.len(), if bad { ", damaged" } else { "" });
    if let Ok(a) = validate::<VecMap<[(KT, VT); N]>>(buf, at) {
        let am: BTreeMap<i32, (i32, u32)> = a.iter().map(|(k, v)| (k.model().0, v.model())).collect();
        let om: BTreeMap<i32, (i32, u32)> = o.as_ref().iter().map(|(k, v)| (k.model().0, v.model())).collect();
        // key -> (left value, right value)
        type J = BTreeMap<i32, (Option<(i32, u32)>, Option<(i32, u32)>)>;
        let mut full = J::new();
        for (k, v) in &am {
            full.entry(*k).or_default().0 = Some(*v);
        }
        for (k, v) in &om {
            full.entry(*k).or_default().1 = Some(*v);
        }
        let log = std::cell::RefCell::new(J::new());
        let note = |k: &KT, v: Option<&VT>, w: Option<&VT>| {
            let _o = out_lib();
            let x = (v.map(|x| x.model()), w.map(|x| x.model()));
            let dup = log.borrow_mut().insert(k.model().0, x).is_some();
            check!(!dup, "combine", "a join with an accepted archive visits a key twice");
        };
        let outer: VecMap<[(KT, VT); N]> = lib("outer_join", || {
            a.outer_join(&o, |x| {
                use vec_collections::OuterJoinArg::*;
                let (k, v) = match x {
                    Left(k, v) => {
                        note(k, Some(v), None);
                        (k, v)
                    }
                    Right(k, w) => {
                        note(k, None, Some(w));
                        (k, w)
                    }
                    Both(k, v, w) => {
                        note(k, Some(v), Some(w));
                        (k, v)
                    }
                };
                let _ = k;
                Some(v.clone())
            })
        });
        check!(*log.borrow() == full, "combine", "outer join with an accepted archive");
        check!(outer.len() == full.len(), "combine", "outer join with an accepted archive has {} entries instead of {}", outer.len(), full.len());
        lib("drop", move || drop(outer));
        log.borrow_mut().clear();
        let inner: VecMap<[(KT, VT); N]> = lib("inner_join", || {
            AbstractVecMap::inner_join(&o, a, |k, w, v| {
                note(k, Some(v), Some(w));
                Some(v.clone())
            })
        });
        let fi: J = full.iter().filter(|(_, x)| x.0.is_some() && x.1.is_some()).map(|(k, v)| (*k, *v)).collect();
        check!(*log.borrow() == fi, "combine", "inner join with an accepted archive");
        lib("drop", move || drop(inner));
        for (k, _) in o.as_ref() {
            let g = lib("get", || a.get(k)).map(|v| v.model());
            check!(g == am.get(&k.model().0).copied(), "lookup", "get on an accepted archive");
        }
    } else {
        check!(bad, "intact-rejected", "an intact archive is rejected");
    }
    lib("drop", move || drop((s, o)));
}

fn run05() {
    for _ in 0..1 + draw(2) {
        let _s = span();
        match draw(14) {
            0 => set_case::<E, 2>(),
            1 => set_case::<u32, 4>(),
            2 => set_case::<u8, 4>(),
            3 => set_case::<Str, 2>(),
            4 => map_case::<E, E, 2>(),
            5 => map_case::<u32, u32, 4>(),
            6 => map_case::<u8, E, 1>(),
            7 => map_case::<Str, u32, 2>(),
            8 => map_case::<u32, Str, 2>(),
            9 => map_case::<Str, E, 1>(),
            10 => set_mix::<E, 2>(),
            11 => set_mix::<u32, 4>(),
            12 => map_mix::<E, E, 2>(),
            _ => map_mix::<u32, u32, 2>(),
        }
    }
}

// ---------------------------------------------------------------- C06

/// What an accepted tree looks like. `None` if it is larger than the limit.
struct Walk {
    nodes: usize,
    canonical: bool,
    m: M,
}
fn walk<T: AbstractRadixTree<K, E>>(buf: &[u8], t: &T) -> Option<Walk> {
    let mut w = Walk { nodes: 0, canonical: true, m: M::new() };
    fn go<T: AbstractRadixTree<K, E>>(buf: &[u8], t: &T, path: &mut Key, w: &mut Walk, root: bool, depth: usize) -> bool {
        w.nodes += 1;
        if w.nodes > 3000 || depth > 300 {
            return false;
        }
        check!(within(buf, t), "out-of-bounds", "an accepted tree has a node outside the archive");
        let p = t.prefix();
        check!(within(buf, p), "out-of-bounds", "an accepted tree has a prefix outside the archive");
        check!(p.iter().all(|k| k.0 <= 0xEF), "bad-key-accepted", "an accepted tree has an invalid key component");
        check!(root || !p.is_empty(), "empty-prefix-accepted", "an accepted tree has a child with an empty prefix");
        let n = path.len();
        path.extend_from_slice(bs(p));
        if let Some(v) = t.value() {
            check!(within(buf, v), "out-of-bounds", "an accepted tree has a value outside the archive");
            check!(v.valid_archived(), "bad-value-accepted", "an accepted tree has an invalid value at {path:?}");
            w.m.insert(path.clone(), (v.key, v.tag));
        }
        let c = t.children();
        check!(within(buf, c), "out-of-bounds", "an accepted tree has children outside the archive");
        if t.value().is_none() && c.len() < 2 && !(root && c.is_empty() && p.is_empty()) {
            w.canonical = false;
        }
        for x in c {
            if !go(buf, x, path, w, false, depth + 1) {
                return false;
            }
        }
        for x in c.windows(2) {
            check!(x[0].prefix()[0].0 < x[1].prefix()[0].0, "unordered-accepted", "an accepted tree has children that are not strictly ascending under {path:?}");
        }
        path.truncate(n);
        true
    }
    let mut path = Key::new();
    if go(buf, t, &mut path, &mut w, true, 0) {
        Some(w)
    } else {
        None
    }
}
fn m_pre(m: &M, p: &Key) -> M {
    m.iter()
        .map(|(k, v)| {
            let mut x = p.clone();
            x.extend_from_slice(k);
            (x, *v)
        })
        .collect()
}
/// Several trees that share structure, in one archive.
fn forest_case<T: Valid>() {
    let mut kg = KeyGen { small: true, ..KeyGen::draw() };
    let mut ms = vec![gen_map(&mut kg, 10)];
    let mut ts = vec![build::<T>(&ms[0])];
    for _ in 0..1 + draw(3) {
        let i = idx(ts.len());
        let mut m = ms[i].clone();
        let mut t = lib("clone", || ts[i].clone());
        if chance(3, 4) {
            let m2 = gen_map(&mut kg, 3);
            let o = build::<T>(&m2);
            if coin() {
                lib("union_with", || t.union_with(&o));
                m = m_outer(&m, &m2, |v, _| Some(v));
            } else {
                lib("difference_with", || t.difference_with(&o));
                m = m_left(&m, &m2, |_, _| None);
            }
            lib("drop", move || drop(o));
        }
        ms.push(m);
        ts.push(t);
    }
    let (clean, p) = archive(&ts, idx(3) * 4);
    let mut b = clean.clone();
    let bad = hit(&mut b, &[], std::mem::size_of::<<T as Flav>::Arch>());
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    let at = if bad { b.len().wrapping_sub(8) } else { p };
    tr!("{} {} trees, {} bytes{}", ts.len(), T::NAME, b.len(), if bad { ", damaged" } else { "" });
    match T::check_vec(buf, at) {
        Err(()) => {
            check!(bad, "intact-rejected", "an intact archive of {} related {} trees is rejected", ts.len(), T::NAME);
            probe("rejected");
        }
        Ok(a) => {
            check!(within(buf, a), "out-of-bounds", "an accepted archive has trees outside its bytes");
            if !bad {
                check!(a.len() == ms.len(), "content", "an archive of {} trees has {}", ms.len(), a.len());
            }
            for (i, t) in a.iter().enumerate().take(50) {
                if let Some(w) = walk(buf, t) {
                    let g = read_tree("archive", t);
                    check!(g == w.m, "content", "{}: iteration of the archive disagrees with its nodes: {}", T::NAME, diff(&g, &w.m));
                    if !bad {
                        check!(g == ms[i], "content", "{}: intact archive reads differently: {}", T::NAME, diff(&g, &ms[i]));
                    }
                    let d = lib("deserialize", || T::revive(t));
                    let dm = read_tree("deserialized", &d);
                    check!(dm == g, "deserialize", "{}: deserialized tree differs from the archive: {}", T::NAME, diff(&dm, &g));
                    lib("drop", move || drop(d));
                }
            }
        }
    }
    lib("drop", move || drop(ts));
}
trait Valid: Flav + Archive<Archived = <Self as Flav>::Arch> + Serialize<Ser> {
    fn check(b: &'static [u8], pos: usize) -> Result<&'static <Self as Flav>::Arch, ()>;
    fn check_vec(b: &'static [u8], pos: usize) -> Result<&'static [<Self as Flav>::Arch], ()>;
    fn revive(a: &'static <Self as Flav>::Arch) -> Self;
}
impl Valid for Flat {
    fn check(b: &'static [u8], pos: usize) -> Result<&'static <Self as Flav>::Arch, ()> {
        validate::<Flat>(b, pos)
    }
    fn check_vec(b: &'static [u8], pos: usize) -> Result<&'static [<Self as Flav>::Arch], ()> {
        validate::<Vec<Flat>>(b, pos).map(|x| x.as_slice())
    }
    fn revive(a: &'static <Self as Flav>::Arch) -> Self {
        Deserialize::<Flat, _>::deserialize(a, &mut Infallible).unwrap()
    }
}
impl Valid for ArcT {
    fn check(b: &'static [u8], pos: usize) -> Result<&'static <Self as Flav>::Arch, ()> {
        validate::<ArcT>(b, pos)
    }
    fn check_vec(b: &'static [u8], pos: usize) -> Result<&'static [<Self as Flav>::Arch], ()> {
        validate::<Vec<ArcT>>(b, pos).map(|x| x.as_slice())
    }
    fn revive(a: &'static <Self as Flav>::Arch) -> Self {
        Deserialize::<ArcT, _>::deserialize(a, &mut SharedDeserializeMap::default()).unwrap()
    }
}
fn tree_case<T: Valid>() {
    let mut kg = KeyGen { small: true, ..KeyGen::draw() };
    let m = gen_map(&mut kg, 14);
    let mut t = build::<T>(&m);
    let mut m = m;
    if chance(1, 4) {
        // a shape that insertion alone does not give
        let m2 = gen_map(&mut kg, 8);
        let o = build::<T>(&m2);
        match draw(3) {
            0 => {
                lib("difference_with", || t.difference_with(&o));
                m = m_left(&m, &m2, |_, _| None);
            }
            1 => {
                lib("union_with", || t.union_with(&o));
                m = m_outer(&m, &m2, |v, _| Some(v));
            }
            _ => {
                // subtrees that occur twice
                let (p, q) = (kg.key(), kg.key());
                let m1 = m_pre(&m, &p);
                let m3 = m_pre(&m, &q);
                lib("prepend", || {
                    let mut o = t.clone();
                    t.prepend(ks(&p));
                    o.prepend(ks(&q));
                    t.union_with(&o);
                });
                m = m_outer(&m1, &m3, |v, _| Some(v));
            }
        }
        lib("drop", move || drop(o));
    }
    let (clean, p) = archive(&t, idx(3) * 4);
    let old = if chance(2, 3) {
        let o = gen_map(&mut kg, 10);
        let o = build::<T>(&o);
        let (b, _) = archive(&o, 0);
        lib("drop", move || drop(o));
        b
    } else {
        Vec::new()
    };
    let sz = std::mem::size_of::<<T as Flav>::Arch>();
    let mut b = clean.clone();
    let bad = hit(&mut b, &old, sz);
    let at = root_pos(&b, p, sz, bad);
    tr!("{} tree {m:?}, {} bytes, root at {at}{}", T::NAME, b.len(), if bad { ", damaged" } else { "" });
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    let r = T::check(buf, at);
    check!(buf == &b[..], "archive-written", "validation modified the archive");
    obs(r.is_ok() as u64);
    match r {
        Err(()) => {
            check!(bad, "intact-rejected", "{}: an intact archive of {} entries is rejected", T::NAME, m.len());
            probe("rejected");
        }
        Ok(a) => {
            if bad {
                probe("damaged but acceptable");
            }
            let w = walk(buf, a);
            match w {
                None => {
                    // a legal but exponentially shared (or very deep) tree: look at its beginning only
                    probe("accepted, larger than the walk limit");
                    let mut last: Option<Key> = None;
                    lib("iter", || {
                        for (k, _) in a.iter().take(200) {
                            let _o = out_lib();
                            let kk = bs(&k).to_vec();
                            check!(kk.len() < 2_000_000, "cyclic-accepted", "an accepted tree is cyclic: iteration never ends and keys grow without bound");
                            if let Some(l) = &last {
                                check!(*l < kk, "order", "iteration of an accepted tree is not ascending");
                            }
                            last = Some(kk);
                        }
                    });
                }
                Some(w) => {
                    let g = read_tree("archive", a);
                    check!(g == w.m, "content", "{}: iteration of the archive disagrees with its nodes: {}", T::NAME, diff(&g, &w.m));
                    if !bad {
                        check!(g == m, "content", "{}: intact archive reads differently: {}", T::NAME, diff(&g, &m));
                    }
                    for _ in 0..2 {
                        let k = kg.key();
                        let x = lib("get", || a.get(ks(&k)).map(|e| e.kt()));
                        check!(x == g.get(&k).copied(), "lookup", "{}: get {k:?} on the archive gives {x:?}", T::NAME);
                        let mut n = 0;
                        lib("scan_prefix", || {
                            for (kk, v) in a.scan_prefix(ks(&k)) {
                                let _o = out_lib();
                                check!(g.get(bs(&kk)) == Some(&v.kt()) && kk.starts_with(ks(&k)), "lookup", "scan_prefix of an accepted archive");
                                n += 1;
                            }
                        });
                        check!(n == m_prefix(&g, &k).len(), "lookup", "{}: scan_prefix {k:?} of an accepted archive yields {n} entries", T::NAME);
                    }
                    let d = lib("deserialize", || T::revive(a));
                    let dm = read_tree("deserialized", &d);
                    check!(dm == g, "deserialize", "{}: deserialized tree differs from the archive: {}", T::NAME, diff(&dm, &g));
                    // combine with an owned tree, in both directions
                    let om = gen_map(&mut kg, 8);
                    let mut o = build::<T>(&om);
                    let u = lib("outer_combine", || a.outer_combine(&o, |v, _| Some(v.clone())));
                    let i = lib("inner_combine", || a.inner_combine(&o, |v, _| Some(v.clone())));
                    let l = lib("left_combine", || a.left_combine(&o, |v, w| if w.is_some() { None } else { Some(v.clone()) }));
                    let dj = lib("is_disjoint", || a.is_disjoint(&o));
                    let sub = lib("is_subset", || (a.is_subset(&o), a.is_superset(&o)));
                    let x = lib("difference", || o.difference(a));
                    lib("union_with", || o.union_with(a));
                    let res = [
                        ("outer_combine", &u, m_outer(&g, &om, |v, _| Some(v))),
                        ("inner_combine", &i, m_inner(&g, &om, |v, _| Some(v))),
                        ("left_combine", &l, m_left(&g, &om, |_, _| None)),
                        ("difference", &x, m_left(&om, &g, |_, _| None)),
                        ("union_with", &o, m_outer(&om, &g, |v, _| Some(v))),
                    ];
                    for (n, t, want) in res {
                        let r = read_tree(n, t);
                        if w.canonical {
                            check!(r == want, "combine", "{}: {n} with an accepted archive: {}", T::NAME, diff(&r, &want));
                        }
                    }
                    if w.canonical {
                        check!(dj != g.keys().any(|k| om.contains_key(k)), "combine", "{}: is_disjoint with an accepted archive", T::NAME);
                        check!(sub.0 == g.keys().all(|k| om.contains_key(k)), "combine", "{}: is_subset with an accepted archive", T::NAME);
                        check!(sub.1 == om.keys().all(|k| g.contains_key(k)), "combine", "{}: is_superset with an accepted archive", T::NAME);
                    } else {
                        probe("accepted, not canonical");
                    }
                    lib("drop", move || drop((d, o, u, i, l, x)));
                    if !bad {
                        if let Some(s) = lib("eq", || T::from_arch(a).map(|x| { let s = x.same(&t); drop(x); s })).flatten() {
                            check!(s, "deserialize", "{}: deserialized tree does not equal its source", T::NAME);
                        }
                    }
                }
            }
            check!(buf == &b[..], "archive-written", "using the archive modified it");
        }
    }
    lib("drop", move || drop(t));
}
/// Trees of different kinds and value types, some of them with parts out of line, in one archive.
#[derive(Archive, Serialize, Deserialize)]
#[archive_attr(derive(CheckBytes))]
struct Pack {
    s: RadixTree<K, Str>,
    a: ArcT,
    z: ArcRadixTree<K, Str>,
    f: Flat,
    /// more versions of `z`
    y: Vec<ArcRadixTree<K, Str>>,
}
type MS = BTreeMap<Key, Vec<u8>>;
fn gen_str(kg: &mut KeyGen, max: u64) -> MS {
    let m = gen_map(kg, max);
    m.into_iter().map(|(k, v)| (k, Str::make(v.0 + v.1 as i32 % 50, 0).0)).collect()
}
fn put_str<T: AbstractRadixTreeMut<K, Str>>(t: &mut T, m: &MS) {
    for (k, v) in m {
        lib("insert", || t.insert(ks(k), Str(v.clone())));
    }
}
fn read_str<T: AbstractRadixTree<K, Str>>(t: &T) -> MS {
    let mut r = MS::new();
    let mut last: Option<Key> = None;
    lib("iter", || {
        for (k, v) in t.iter() {
            let _o = out_lib();
            let k = bs(&k).to_vec();
            check!(last.as_ref().map_or(true, |l| *l < k), "order", "iteration is not ascending at {k:?}");
            last = Some(k.clone());
            r.insert(k, v.0.clone());
        }
    });
    for (k, v) in r.iter().take(4) {
        let g = lib("get", || t.get(ks(k)).map(|s| s.0.as_slice()));
        check!(g == Some(v.as_slice()), "lookup", "get {k:?} gives {g:?}, iteration {v:?}");
    }
    obs(r.len() as u64);
    r
}
fn pack_case() {
    let mut kg = KeyGen { small: true, ..KeyGen::draw() };
    let (sm, am, zm, fm) = (gen_str(&mut kg, 8), gen_map(&mut kg, 8), gen_str(&mut kg, 8), gen_map(&mut kg, 4));
    let mut p: Pack = lib("empty", || Pack { s: RadixTree::default(), a: ArcT::default(), z: ArcRadixTree::default(), f: Flat::default(), y: Vec::new() });
    put_str(&mut p.s, &sm);
    put_str(&mut p.z, &zm);
    let (a, f) = (build::<ArcT>(&am), build::<Flat>(&fm));
    lib("assign", || {
        p.a = a;
        p.f = f;
    });
    let mut ym = Vec::new();
    for _ in 0..draw(3) {
        let mut m = zm.clone();
        let mut t = lib("clone", || p.z.clone());
        let add = gen_str(&mut kg, 3);
        put_str(&mut t, &add);
        m.extend(add);
        lib("push", || p.y.push(t));
        ym.push(m);
    }
    let (clean, pos) = archive(&p, idx(3) * 4);
    let mut b = clean.clone();
    let bad = hit(&mut b, &[], [12, 20, 28][idx(3)]);
    let sz = std::mem::size_of::<<Pack as Archive>::Archived>();
    let at = root_pos(&b, pos, sz, bad);
    tr!("pack of {} + {} + {} + {} entries and {} versions, {} bytes, root at {at}{}", sm.len(), am.len(), zm.len(), fm.len(), ym.len(), b.len(), if bad { ", damaged" } else { "" });
    let (buf, mis) = present(0, &b);
    let bad = bad || mis;
    let r = validate::<Pack>(buf, at);
    obs(r.is_ok() as u64);
    match r {
        Err(()) => {
            check!(bad, "intact-rejected", "an intact archive of several kinds of trees is rejected");
            probe("rejected");
        }
        Ok(x) => {
            check!(within(buf, x), "out-of-bounds", "an accepted archive has trees outside its bytes");
            let (wa, wf) = (walk(buf, &x.a), walk(buf, &x.f));
            if bad {
                probe("damaged but acceptable");
            }
            if let (Some(wa), Some(wf)) = (wa, wf) {
                if x.y.len() < 20 {
                    // sharing that went wrong makes a tree exponentially large at worst: the budget of the arena ends that
                    let d: Option<Pack> = lib("deserialize", || if buf.len() < 1500 { Some(x.deserialize(&mut SharedDeserializeMap::default()).unwrap()) } else { None });
                    if let Some(d) = d {
                        let g = (read_str(&d.s), read_tree("pack", &d.a), read_str(&d.z), read_tree("pack", &d.f), d.y.iter().map(read_str).collect::<Vec<_>>());
                        check!(g.1 == wa.m && g.3 == wf.m, "deserialize", "a deserialized tree differs from its archive");
                        if !bad {
                            check!(g == (sm, am, zm, fm, ym), "deserialize", "a pack of trees reads differently after deserialization: {g:?}");
                        }
                        lib("drop", move || drop(d));
                    }
                }
            }
        }
    }
    check!(buf == &b[..], "archive-written", "using the archive modified it");
    lib("drop", move || drop(p));
}
fn run06() {
    match draw(12) {
        10.. => pack_case(),
        0..=4 => tree_case::<ArcT>(),
        5..=7 => tree_case::<Flat>(),
        8 => forest_case::<ArcT>(),
        _ => forest_case::<Flat>(),
    }
}
