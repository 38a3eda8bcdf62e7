//! C04: decoding and encoding collections over sources and sinks that fail, cut short, corrupt, repeat or
//! announce false lengths.
use super::*;
use crate::rt::arena;
use crate::rt::inst::{reg, E};
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use smallvec::Array;
use std::fmt;
use std::io::{self, Read, Write};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{VecMap, VecSet};

pub const C04: Scn = Scn {
    id: "C04",
    run,
    quick: 2_500_000,
    thorough: 35_000_000,
    rule: "an execution is non-trivial when at least one fault (damaged, truncated, repeated or reordered input, false length, failing or short read or write, failing element decoder) was injected",
    real: &["serde implementations of vec_set.rs, vec_map.rs, total_vec_set.rs, total_vec_map.rs", "serde_json and smallvec (dependencies, real code)"],
    stub: &["byte source and sink (simulated reader and writer)", "a small binary serde format with announced lengths", "element, key and value types", "global allocator (deterministic arena)"],
    assumes: &["the reference decoder (a plain list read through the same format and the same faults) is right about what the input carries"],
};

// ------------------------------------------------------------------------------------------- reference types

/// an element as the reference decoder reads it
#[derive(Clone, Copy, Debug, PartialEq)]
struct R(i32);
impl<'de> Deserialize<'de> for R {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<R, D::Error> {
        let v = i32::deserialize(d)?;
        if !(-100_000..=100_000).contains(&v) {
            return Err(de::Error::custom("element out of range"));
        }
        Ok(R(v))
    }
}
impl Serialize for R {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i32(self.0)
    }
}
/// a map as a plain list of entries, in the order of the input, duplicates included
#[derive(Clone, Debug)]
struct Pairs(Vec<(R, R)>);
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Pairs, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Pairs;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<Pairs, M::Error> {
                let mut v = Vec::new();
                while let Some(e) = m.next_entry::<R, R>()? {
                    v.push(e);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(V)
    }
}
impl Serialize for Pairs {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}

// ------------------------------------------------------------------------------------------- simulated source

#[derive(Clone, Debug)]
struct Script {
    /// at most so many bytes per read
    chunk: usize,
    /// hard error when this offset is reached
    error_at: usize,
    /// every n-th read is interrupted
    interrupt: usize,
}
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    reads: usize,
    s: Script,
    count: bool,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.s.interrupt > 0 && self.reads % self.s.interrupt == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.pos >= self.s.error_at {
            if self.count {
                fired(F::read_error);
            }
            return Err(io::ErrorKind::Other.into());
        }
        let n = buf.len().min(self.s.chunk).min(self.data.len() - self.pos).min(self.s.error_at - self.pos);
        if n < buf.len() && n > 0 && self.count {
            fired(F::short_read);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------------------------------- binary format

#[derive(Debug)]
struct Err0;
impl fmt::Display for Err0 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("codec error")
    }
}
impl std::error::Error for Err0 {}
impl de::Error for Err0 {
    fn custom<T: fmt::Display>(_: T) -> Err0 {
        Err0
    }
}
impl ser::Error for Err0 {
    fn custom<T: fmt::Display>(_: T) -> Err0 {
        Err0
    }
}
/// `counted`: a sequence is its length and that many elements. Otherwise the length is only announced, and each
/// element is preceded by 1, the end marked by 0.
struct De<'a, 'b> {
    r: &'a mut Source<'b>,
    counted: bool,
    /// fail the element access with this number (codec error), 0 = never
    fail: u64,
    calls: u64,
    count: bool,
}
impl De<'_, '_> {
    fn bytes<const N: usize>(&mut self) -> Result<[u8; N], Err0> {
        let mut b = [0u8; N];
        let mut n = 0;
        while n < N {
            match self.r.read(&mut b[n..]) {
                Ok(0) => {
                    if self.count {
                        fired(F::read_eof);
                    }
                    return Err(Err0);
                }
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => return Err(Err0),
            }
        }
        Ok(b)
    }
    fn step(&mut self) -> Result<(), Err0> {
        self.calls += 1;
        if self.calls == self.fail {
            if self.count {
                fired(F::codec_error);
            }
            return Err(Err0);
        }
        Ok(())
    }
}
struct Acc<'c, 'a, 'b> {
    d: &'c mut De<'a, 'b>,
    left: u64,
    hint: u64,
    tuple: bool,
}
impl Acc<'_, '_, '_> {
    fn more(&mut self) -> Result<bool, Err0> {
        self.d.step()?;
        self.hint = self.hint.saturating_sub(1);
        if self.d.counted || self.tuple {
            if self.left == 0 {
                return Ok(false);
            }
            self.left -= 1;
            Ok(true)
        } else {
            match self.d.bytes::<1>()?[0] {
                0 => Ok(false),
                1 => Ok(true),
                _ => Err(Err0),
            }
        }
    }
}
impl<'de> SeqAccess<'de> for Acc<'_, '_, '_> {
    type Error = Err0;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Err0> {
        if !self.more()? {
            return Ok(None);
        }
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(if self.d.counted || self.tuple { self.left } else { self.hint } as usize)
    }
}
impl<'de> MapAccess<'de> for Acc<'_, '_, '_> {
    type Error = Err0;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Err0> {
        if !self.more()? {
            return Ok(None);
        }
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Err0> {
        self.d.step()?;
        seed.deserialize(&mut *self.d)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(if self.d.counted { self.left } else { self.hint } as usize)
    }
}
impl<'de> Deserializer<'de> for &mut De<'_, '_> {
    type Error = Err0;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Err0> {
        Err(Err0)
    }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err0> {
        v.visit_i32(i32::from_le_bytes(self.bytes()?))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err0> {
        match self.bytes::<1>()?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(Err0),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err0> {
        let n = u64::from_le_bytes(self.bytes()?);
        v.visit_seq(Acc { d: self, left: n, hint: n, tuple: false })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err0> {
        let n = u64::from_le_bytes(self.bytes()?);
        v.visit_map(Acc { d: self, left: n, hint: n, tuple: false })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Err0> {
        v.visit_seq(Acc { d: self, left: len as u64, hint: len as u64, tuple: true })
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Err0> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, len: usize, v: V) -> Result<V::Value, Err0> {
        self.deserialize_tuple(len, v)
    }
    serde::forward_to_deserialize_any! { i8 i16 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct struct enum identifier ignored_any }
}

// ------------------------------------------------------------------------------------------- simulated sink

struct Sink {
    out: Vec<u8>,
    chunk: usize,
    error_at: usize,
    zero: bool,
    writes: usize,
    interrupt: usize,
    failed: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = arena::out_lib();
        self.writes += 1;
        if self.interrupt > 0 && self.writes % self.interrupt == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.out.len() >= self.error_at {
            self.failed = true;
            if self.zero {
                fired(F::write_zero);
                return Ok(0);
            }
            fired(F::write_error);
            return Err(io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.chunk).min(self.error_at - self.out.len());
        if n < b.len() {
            fired(F::short_write);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Ser<'a> {
    w: &'a mut Sink,
    counted: bool,
}
impl Ser<'_> {
    fn put(&mut self, b: &[u8]) -> Result<(), Err0> {
        self.w.write_all(b).map_err(|_| Err0)
    }
}
struct SerAcc<'c, 'a> {
    s: &'c mut Ser<'a>,
    mark: bool,
    end: bool,
}
impl<'c, 'a> Serializer for &'c mut Ser<'a> {
    type Ok = ();
    type Error = Err0;
    type SerializeSeq = SerAcc<'c, 'a>;
    type SerializeTuple = SerAcc<'c, 'a>;
    type SerializeMap = SerAcc<'c, 'a>;
    type SerializeTupleStruct = ser::Impossible<(), Err0>;
    type SerializeTupleVariant = ser::Impossible<(), Err0>;
    type SerializeStruct = ser::Impossible<(), Err0>;
    type SerializeStructVariant = ser::Impossible<(), Err0>;
    fn serialize_i32(self, v: i32) -> Result<(), Err0> {
        self.put(&v.to_le_bytes())
    }
    fn serialize_bool(self, v: bool) -> Result<(), Err0> {
        self.put(&[v as u8])
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<SerAcc<'c, 'a>, Err0> {
        let n = len.ok_or(Err0)? as u64;
        self.put(&n.to_le_bytes())?;
        let mark = !self.counted;
        Ok(SerAcc { s: self, mark, end: mark })
    }
    fn serialize_map(self, len: Option<usize>) -> Result<SerAcc<'c, 'a>, Err0> {
        self.serialize_seq(len)
    }
    fn serialize_tuple(self, _: usize) -> Result<SerAcc<'c, 'a>, Err0> {
        Ok(SerAcc { s: self, mark: false, end: false })
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Err0> {
        v.serialize(self)
    }
    fn serialize_i8(self, _: i8) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_i16(self, _: i16) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_i64(self, _: i64) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_u8(self, _: u8) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_u16(self, _: u16) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_u32(self, _: u32) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_u64(self, _: u64) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_f32(self, _: f32) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_f64(self, _: f64) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_char(self, _: char) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_str(self, _: &str) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_none(self) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_unit(self) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Err0> {
        Err(Err0)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Err0> {
        Err(Err0)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Err0> {
        Err(Err0)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Err0> {
        Err(Err0)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Err0> {
        Err(Err0)
    }
}
impl SerAcc<'_, '_> {
    fn el<T: ?Sized + Serialize>(&mut self, v: &T, mark: bool) -> Result<(), Err0> {
        if mark {
            self.s.put(&[1])?;
        }
        v.serialize(&mut *self.s)
    }
    fn fin(self) -> Result<(), Err0> {
        if self.end {
            self.s.put(&[0])?;
        }
        Ok(())
    }
}
impl ser::SerializeSeq for SerAcc<'_, '_> {
    type Ok = ();
    type Error = Err0;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> {
        let m = self.mark;
        self.el(v, m)
    }
    fn end(self) -> Result<(), Err0> {
        self.fin()
    }
}
impl ser::SerializeTuple for SerAcc<'_, '_> {
    type Ok = ();
    type Error = Err0;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> {
        self.el(v, false)
    }
    fn end(self) -> Result<(), Err0> {
        self.fin()
    }
}
impl ser::SerializeMap for SerAcc<'_, '_> {
    type Ok = ();
    type Error = Err0;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> {
        let m = self.mark;
        self.el(v, m)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> {
        self.el(v, false)
    }
    fn end(self) -> Result<(), Err0> {
        self.fin()
    }
}

// ------------------------------------------------------------------------------------------- collections

type View = (Vec<(i32, i32)>, Option<i32>);

trait Coll: Serialize + DeserializeOwned + PartialEq {
    type Raw: DeserializeOwned + Serialize;
    const NAME: &'static str;
    fn make(items: &[(i32, i32)], extra: i32) -> Self;
    fn view(&self) -> View;
    fn raw(items: &[(i32, i32)], extra: i32) -> Self::Raw;
    /// is this what the input carried?
    fn judge(v: &View, raw: &Self::Raw) -> Result<(), String>;
    fn live(v: &View) -> usize;
}
fn canonical(v: &View) -> Result<(), String> {
    match v.0.windows(2).all(|w| w[0].0 < w[1].0) {
        true => Ok(()),
        false => Err(format!("not strictly ascending: {:?}", v.0)),
    }
}
fn same_keys(v: &View, keys: impl Iterator<Item = i32>) -> Result<(), String> {
    let mut k: Vec<i32> = keys.collect();
    k.sort();
    k.dedup();
    let g: Vec<i32> = v.0.iter().map(|e| e.0).collect();
    if k == g {
        Ok(())
    } else {
        Err(format!("holds {g:?}, the input carried {k:?}"))
    }
}
impl<A: Array<Item = E>> Coll for VecSet<A> {
    type Raw = Vec<R>;
    const NAME: &'static str = "set";
    fn make(items: &[(i32, i32)], _: i32) -> Self {
        items.iter().map(|i| E::new(i.0, i.1 as u32)).collect()
    }
    fn view(&self) -> View {
        (self.as_ref().iter().map(|e| (e.kt().0, 0)).collect(), None)
    }
    fn raw(items: &[(i32, i32)], _: i32) -> Vec<R> {
        items.iter().map(|i| R(i.0)).collect()
    }
    fn judge(v: &View, raw: &Vec<R>) -> Result<(), String> {
        same_keys(v, raw.iter().map(|r| r.0))
    }
    fn live(v: &View) -> usize {
        v.0.len()
    }
}
impl<A: Array<Item = E>> Coll for TotalVecSet<A> {
    type Raw = (Vec<R>, bool);
    const NAME: &'static str = "total set";
    fn make(items: &[(i32, i32)], extra: i32) -> Self {
        let s: VecSet<A> = VecSet::<A>::make(items, 0);
        let s: TotalVecSet<A> = s.into();
        if extra & 1 == 1 {
            !s
        } else {
            s
        }
    }
    fn view(&self) -> View {
        // a total set shows its elements only through its own encoder
        let j = serde_json::to_string(self).unwrap();
        let (v, n): (Vec<i32>, bool) = serde_json::from_str(&j).unwrap();
        (v.into_iter().map(|k| (k, 0)).collect(), Some(n as i32))
    }
    fn raw(items: &[(i32, i32)], extra: i32) -> (Vec<R>, bool) {
        (VecSet::<A>::raw(items, 0), extra & 1 == 1)
    }
    fn judge(v: &View, raw: &(Vec<R>, bool)) -> Result<(), String> {
        if v.1 != Some(raw.1 as i32) {
            return Err(format!("negated {:?}, the input carried {}", v.1, raw.1));
        }
        same_keys(v, raw.0.iter().map(|r| r.0))
    }
    fn live(v: &View) -> usize {
        v.0.len()
    }
}
fn entries<'a>(it: impl Iterator<Item = (&'a E, &'a E)>) -> Vec<(i32, i32)> {
    it.map(|(k, v)| (k.kt().0, v.kt().0)).collect()
}
impl<A: Array<Item = (E, E)>> Coll for VecMap<A> {
    type Raw = Pairs;
    const NAME: &'static str = "map";
    fn make(items: &[(i32, i32)], _: i32) -> Self {
        items.iter().map(|i| (E::new(i.0, 0), E::new(i.1, 0))).collect()
    }
    fn view(&self) -> View {
        (entries(self.as_ref().iter().map(|e| (&e.0, &e.1))), None)
    }
    fn raw(items: &[(i32, i32)], _: i32) -> Pairs {
        Pairs(items.iter().map(|i| (R(i.0), R(i.1))).collect())
    }
    fn judge(v: &View, raw: &Pairs) -> Result<(), String> {
        same_keys(v, raw.0.iter().map(|r| r.0 .0))?;
        for e in &v.0 {
            if !raw.0.iter().any(|r| r.0 .0 == e.0 && r.1 .0 == e.1) {
                return Err(format!("maps {} to {}, which the input does not carry", e.0, e.1));
            }
        }
        Ok(())
    }
    fn live(v: &View) -> usize {
        2 * v.0.len()
    }
}
impl<A: Array<Item = (E, E)>> Coll for TotalVecMap<E, A> {
    type Raw = (Pairs, R);
    const NAME: &'static str = "total map";
    fn make(items: &[(i32, i32)], extra: i32) -> Self {
        TotalVecMap::new(VecMap::<A>::make(items, 0), E::new(extra, 0))
    }
    fn view(&self) -> View {
        let m = entries(self.non_default_mappings().as_ref().iter().map(|e| (&e.0, &e.1)));
        let none = E::new(-777_777, 0);
        let d = self[&none].kt().0;
        (m, Some(d))
    }
    fn raw(items: &[(i32, i32)], extra: i32) -> (Pairs, R) {
        (VecMap::<A>::raw(items, 0), R(extra))
    }
    fn judge(v: &View, raw: &(Pairs, R)) -> Result<(), String> {
        let d = raw.1 .0;
        if v.1 != Some(d) {
            return Err(format!("default {:?}, the input carried {d}", v.1));
        }
        for e in &v.0 {
            if e.1 == d {
                return Err(format!("entry {} equals the default", e.0));
            }
            if !raw.0 .0.iter().any(|r| r.0 .0 == e.0 && r.1 .0 == e.1) {
                return Err(format!("maps {} to {}, which the input does not carry", e.0, e.1));
            }
        }
        for r in &raw.0 .0 {
            let k = r.0 .0;
            if v.0.iter().all(|e| e.0 != k) && !raw.0 .0.iter().any(|r| r.0 .0 == k && r.1 .0 == d) {
                return Err(format!("key {k} of the input is lost"));
            }
        }
        Ok(())
    }
    fn live(v: &View) -> usize {
        2 * v.0.len() + 1
    }
}

// ------------------------------------------------------------------------------------------- the scenario

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Json,
    JsonReader,
    Counted,
    Announced,
}
/// returns the value, the number of bytes handed over
fn decode<T: DeserializeOwned>(fmt: Fmt, data: &[u8], s: &Script, fail: u64, count: bool) -> (Result<T, ()>, usize) {
    if fmt == Fmt::Json {
        return (serde_json::from_slice(data).map_err(drop), data.len());
    }
    let mut src = Source { data, pos: 0, reads: 0, s: s.clone(), count };
    let r = match fmt {
        Fmt::JsonReader => serde_json::from_reader(&mut src).map_err(drop),
        _ => {
            let mut d = De { r: &mut src, counted: fmt == Fmt::Counted, fail, calls: 0, count };
            T::deserialize(&mut d).map_err(drop)
        }
    };
    (r, src.pos)
}
fn encode<T: Serialize>(fmt: Fmt, v: &T, w: &mut Sink) -> Result<(), ()> {
    match fmt {
        Fmt::Json | Fmt::JsonReader => serde_json::to_writer(w, v).map_err(drop),
        _ => v.serialize(&mut Ser { w, counted: fmt == Fmt::Counted }).map_err(drop),
    }
}
/// for other scenarios: encode into memory, in one of the formats
pub fn pack<T: Serialize>(binary: bool, v: &T) -> Vec<u8> {
    let mut w = good_sink();
    let r = {
        let _i = arena::in_lib();
        encode(if binary { Fmt::Announced } else { Fmt::Json }, v, &mut w)
    };
    check!(r.is_ok(), "encode", "encoding into memory fails");
    let out = w.out.clone();
    let _i = arena::in_lib();
    drop(w);
    out
}
pub fn unpack<T: DeserializeOwned>(binary: bool, b: &[u8]) -> Option<T> {
    let s = Script { chunk: usize::MAX, error_at: usize::MAX, interrupt: 0 };
    lib("decode", || decode(if binary { Fmt::Announced } else { Fmt::Json }, b, &s, 0, false).0.ok())
}
fn good_sink() -> Sink {
    Sink { out: Vec::new(), chunk: usize::MAX, error_at: usize::MAX, zero: false, writes: 0, interrupt: 0, failed: false }
}

fn items() -> Vec<(i32, i32)> {
    let r = key_range();
    if r == BULK {
        return bulk_keys().into_iter().map(|k| (k - 2, k & 3)).collect();
    }
    let n = size(pick(&[6, 20, 60]));
    let vals = pick(&[2u64, 5, 50]);
    (0..n).map(|_| (draw(r as u64) as i32 - 2, draw(vals) as i32)).collect()
}

/// what a disk or a network makes of the bytes; returns whether anything changed
fn damage(b: &mut Vec<u8>, old: &[u8], fmt: Fmt) -> bool {
    let before = b.clone();
    for _ in 0..1 + draw(3) {
        let _s = span();
        match draw(8) {
            0 => {
                let n = idx(b.len() + 1);
                b.truncate(n);
                fired(F::truncate);
            }
            1 if !b.is_empty() => {
                let i = idx(b.len());
                b[i] ^= 1 << draw(8);
                fired(F::bit_flip);
            }
            2 if !b.is_empty() => {
                let i = idx(b.len());
                b[i] = pick(&[0u8, 0xFF, b'0', b',', b'-', b'9', b'"', b'[', b']', b'{', 1, 0x80]);
                fired(F::corrupt_byte);
            }
            3 if !b.is_empty() => {
                let a = idx(b.len());
                let l = 1 + idx((b.len() - a).min(32));
                let w = b[a..a + l].to_vec();
                let at = idx(b.len() + 1);
                b.splice(at..at, w);
                fired(F::stream_dup);
            }
            4 if !b.is_empty() => {
                let a = idx(b.len());
                let l = 1 + idx((b.len() - a).min(32));
                for x in &mut b[a..a + l] {
                    *x = 0;
                }
                fired(F::zero_range);
            }
            5 if !old.is_empty() => {
                // a new encoding written over an older one
                let cut = idx(old.len().min(b.len()) + 1);
                let mut v = b[..cut.min(b.len())].to_vec();
                v.extend_from_slice(&old[cut.min(old.len())..]);
                *b = v;
                fired(F::stale_fragment);
            }
            _ if matches!(fmt, Fmt::Counted | Fmt::Announced) && b.len() >= 8 => {
                let n = u64::from_le_bytes(b[..8].try_into().unwrap());
                let f = match draw(10) {
                    0 => n.wrapping_add(1),
                    1 => n.saturating_sub(1),
                    2 => 0,
                    3 => 5_000,
                    4 => 1 << 20,
                    5 => 1 << 24,
                    6 => u32::MAX as u64,
                    7 => 1 << 40,
                    8 => u64::MAX >> 1,
                    _ => u64::MAX,
                };
                b[..8].copy_from_slice(&f.to_le_bytes());
                fired(F::false_length);
            }
            _ => {}
        }
    }
    *b != before
}

fn scenario<C: Coll>() {
    let fmt = pick(&[Fmt::Counted, Fmt::Announced, Fmt::Json, Fmt::JsonReader]);
    let extra = draw(4) as i32;
    let it = items();
    let c = lib("build", || C::make(&it, extra));
    let view = lib("view", || c.view());
    tr!("{} over {fmt:?}: {view:?}", C::NAME);
    let base_live = reg().live;
    check!(base_live == C::live(&view), "element-leak", "{base_live} elements alive, the {} holds {}", C::NAME, C::live(&view));
    // --- encode; a failed attempt is repeated
    let mut bytes = None;
    let undisturbed = {
        let mut w = good_sink();
        let r = lib("encode", || encode(fmt, &c, &mut w));
        check!(r.is_ok(), "encode-failed", "encoding a {} to a working sink failed", C::NAME);
        w.out
    };
    for attempt in 0..4 {
        let _s = span();
        let mut w = good_sink();
        let mut panics = false;
        if attempt < 3 {
            match weighted(&[4, 3, 2, 2]) {
                1 => {
                    w.error_at = idx(undisturbed.len() + 4);
                    w.zero = coin();
                }
                2 => {
                    w.chunk = 1 + idx(5);
                    w.interrupt = pick(&[0usize, 2, 3, 7]);
                }
                3 => {
                    panics = true;
                    ctx().arm_mask = K_SER;
                    ctx().arm = 1 + draw(2 * it.len() as u64 + 1);
                }
                _ => {}
            }
        }
        let r = lib_catch(|| encode(fmt, &c, &mut w));
        disarm();
        let after = lib("view", || c.view());
        check!(after == view, "source-changed", "encoding changed {view:?} into {after:?}");
        check!(reg().live == base_live, "element-leak", "{} elements alive after encoding, {base_live} before", reg().live);
        tr!("  encode attempt {attempt}: {} bytes, {}", w.out.len(), match &r { Ok(Ok(())) => "ok", Ok(Err(())) => "error", Err(_) => "panic" });
        match r {
            Ok(Ok(())) => {
                check!(!w.failed, "failure-swallowed", "the sink failed but encoding a {} reported success", C::NAME);
                check!(w.out == undisturbed, "encoding-differs", "two encodings of the same {} differ", C::NAME);
                bytes = Some(w.out);
                break;
            }
            Ok(Err(())) => check!(w.failed, "spurious-failure", "encoding a {} failed on a sink that did not", C::NAME),
            Err(Stop::Injected) => check!(panics, "panic", "unexpected injected panic"),
            Err(Stop::Lib(m)) => violation("panic", format!("encoding a {}: {m}", C::NAME)),
        }
    }
    let bytes = bytes.unwrap();
    // --- decode: intact, hand-made lists, damaged
    let raw_items = items();
    let mut other = good_sink();
    let _ = encode(fmt, &C::raw(&raw_items, extra + 1), &mut other);
    let old = other.out;
    for _ in 0..1 + draw(5) {
        let _s = span();
        let what = draw(4);
        let mut b = match what {
            0 | 1 => bytes.clone(),
            _ => {
                fired(F::stream_reorder);
                old.clone()
            }
        };
        let mut intact = what <= 1;
        if what & 1 == 1 {
            let o = if what == 1 { &old } else { &bytes };
            intact &= !damage(&mut b, o, fmt);
        }
        let reader = fmt != Fmt::Json;
        let mut s = Script { chunk: usize::MAX, error_at: usize::MAX, interrupt: 0 };
        let mut fail = 0;
        let mut panics = false;
        match weighted(&[5, 2, 2, 1, 2]) {
            1 if reader => {
                s.chunk = 1 + idx(7);
                s.interrupt = pick(&[0usize, 2, 3, 9]);
            }
            2 if reader => s.error_at = idx(b.len() + 1),
            3 if matches!(fmt, Fmt::Counted | Fmt::Announced) => fail = 1 + draw(2 * it.len() as u64 + 4),
            4 => {
                panics = true;
                ctx().arm_mask = if coin() { K_CMP } else { K_SER };
            }
            _ => {}
        }
        let (want, _) = decode::<C::Raw>(fmt, &b, &s, fail, false);
        let arm = if panics { 1 + draw(3 * it.len() as u64 + 3) } else { 0 };
        ctx().arm = arm;
        {
            let a = arena::a();
            a.peak_bytes = a.live_bytes;
        }
        let bytes0 = arena::a().live_bytes;
        let mut got_bytes = 0;
        let r = lib_catch(|| {
            let (r, n) = decode::<C>(fmt, &b, &s, fail, true);
            got_bytes = n;
            r
        });
        disarm();
        let peak = arena::a().peak_bytes - bytes0;
        tr!(
            "  decode {} bytes intact={intact} {s:?} codec failure at {fail}: library {}, reference {}",
            b.len(),
            match &r { Ok(Ok(_)) => "ok", Ok(Err(())) => "error", Err(_) => "panic" },
            if want.is_ok() { "ok" } else { "error" }
        );
        check!(
            peak <= (2 << 20) + 256 * got_bytes.max(b.len().min(64)),
            "memory-not-bounded-by-input",
            "decoding a {} used {peak} bytes of memory after {got_bytes} bytes of input",
            C::NAME
        );
        match r {
            Ok(Ok(d)) => {
                let v = lib("view", || d.view());
                obs(v.0.len() as u64);
                if let Err(m) = canonical(&v) {
                    violation("not-canonical", format!("a decoded {} is {m}", C::NAME));
                }
                match &want {
                    Ok(w) => {
                        if let Err(m) = C::judge(&v, w) {
                            violation("wrong-contents", format!("a decoded {} {m}", C::NAME));
                        }
                    }
                    Err(()) => violation("failure-swallowed", format!("the input of a {} was cut off, damaged or unreadable, yet decoding reported success with {v:?}", C::NAME)),
                }
                if intact {
                    check!(lib("eq", || d == c) && v == view, "roundtrip", "decoding an intact {} gave {v:?}, expected {view:?}", C::NAME);
                    probe("intact round trip");
                } else {
                    probe("damaged or hand-made input accepted");
                }
                check!(reg().live == base_live + C::live(&v), "element-leak", "{} elements alive after decoding, expected {}", reg().live, base_live + C::live(&v));
                lib("drop", || drop(d));
            }
            Ok(Err(())) => {
                check!(!(intact && want.is_ok()), "intact-rejected", "decoding an intact {} failed", C::NAME);
                probe("input rejected");
            }
            Err(Stop::Injected) => {}
            Err(Stop::Lib(m)) => violation("panic", format!("decoding a {}: {m}", C::NAME)),
        }
        check!(reg().live == base_live, "element-leak", "{} elements alive after decoding, {base_live} before", reg().live);
    }
    lib("drop", || drop(c));
}

fn run() {
    match draw(8) {
        0 => scenario::<VecSet<[E; 2]>>(),
        1 => scenario::<VecSet<[E; 16]>>(),
        2 => scenario::<VecMap<[(E, E); 1]>>(),
        3 => scenario::<VecMap<[(E, E); 8]>>(),
        4 => scenario::<TotalVecSet<[E; 2]>>(),
        5 => scenario::<TotalVecSet<[E; 8]>>(),
        6 => scenario::<TotalVecMap<E, [(E, E); 1]>>(),
        _ => scenario::<TotalVecMap<E, [(E, E); 8]>>(),
    }
}
