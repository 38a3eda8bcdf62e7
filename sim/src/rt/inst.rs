//! Instrumented element, key and value types: every instance is registered, every use is checked, and every
//! call into them is a place where caller code can fail, lie or lose the processor.
use super::arena::out_lib;
use super::ctx::*;
use bytecheck::CheckBytes;
use rkyv::{Archive, Archived, Fallible};
use std::cmp::Ordering;
use std::fmt;

const MAGIC: u32 = 0x5EED_1E57;
const ARCH: u32 = 0xFFFF_FFF0;

#[derive(Default)]
pub struct Registry {
    pub state: Vec<u8>,
    pub live: usize,
    pub peak: usize,
    pub clones: u64,
    pub clone_log: Option<Vec<(i32, u32)>>,
    /// addresses of archived values that were copied
    pub loads: Option<Vec<usize>>,
}
struct G(std::cell::UnsafeCell<Option<Registry>>);
unsafe impl Sync for G {}
static REG: G = G(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Registry {
    unsafe { (*REG.0.get()).get_or_insert_with(Registry::default) }
}
pub fn reset() {
    *reg() = Registry::default();
}
fn register() -> u32 {
    let r = reg();
    r.state.push(1);
    r.live += 1;
    r.peak = r.peak.max(r.live);
    r.state.len() as u32 - 1
}

/// Tracked element: ordered and compared by `key` only; `tag` tells equal elements apart.
#[repr(C)]
pub struct E {
    magic: u32,
    id: u32,
    pub key: i32,
    pub tag: u32,
    chk: u32,
}
fn chk(key: i32, tag: u32) -> u32 {
    (mix(key as u32 as u64, tag as u64 ^ 0x55) >> 16) as u32
}
impl E {
    pub fn new(key: i32, tag: u32) -> E {
        let _o = out_lib();
        E { magic: MAGIC, id: register(), key, tag, chk: chk(key, tag) }
    }
    pub fn iid(&self) -> u32 {
        self.id
    }
    pub fn is_archived(&self) -> bool {
        self.id == ARCH
    }
    fn sound(&self) -> Result<(), String> {
        if self.magic != MAGIC || self.chk != chk(self.key, self.tag) {
            return Err("use of memory that holds no element (freed, moved out or uninitialised)".into());
        }
        if self.id == ARCH {
            return Ok(());
        }
        match reg().state.get(self.id as usize) {
            Some(1) => Ok(()),
            _ => Err(format!("use of element {} after it was dropped", self.key)),
        }
    }
    pub fn ok(&self) {
        let _o = out_lib();
        if let Err(e) = self.sound() {
            violation("bad-element", e)
        }
    }
    pub fn kt(&self) -> (i32, u32) {
        self.ok();
        (self.key, self.tag)
    }
    /// the bytes are a valid archived element (harness-side check)
    pub fn valid_archived(&self) -> bool {
        self.magic == MAGIC && self.id == ARCH && self.chk == chk(self.key, self.tag)
    }
}
impl Drop for E {
    fn drop(&mut self) {
        {
            let _o = out_lib();
            if self.magic != MAGIC || self.chk != chk(self.key, self.tag) {
                violation("bad-drop", "drop of memory that holds no element".into());
            }
            let r = reg();
            if self.id == ARCH {
                violation("bad-drop", "drop of an element inside an archive".into());
            }
            match r.state.get_mut(self.id as usize) {
                Some(s) if *s == 1 => *s = 2,
                _ => violation("double-drop", format!("element {} (tag {}) dropped twice", self.key, self.tag)),
            }
            r.live -= 1;
        }
        callback(K_DROP);
        self.magic = 0xDEAD_DEAD;
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        self.ok();
        {
            let _o = out_lib();
            let r = reg();
            r.clones += 1;
            if let Some(l) = &mut r.clone_log {
                l.push((self.key, self.tag));
            }
            if self.id == ARCH {
                if let Some(l) = &mut r.loads {
                    l.push(self as *const E as usize);
                }
            }
        }
        callback(K_CLONE);
        self.ok();
        E::new(self.key, self.tag)
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.ok();
        o.ok();
        callback(K_CMP);
        let c = ctx();
        if c.lie != 0 {
            c.lie = mix(c.lie, 1) | 1;
            if c.lie & 0x30 == 0 {
                c.lie_count += 1;
                return match (c.lie >> 8) % 3 {
                    0 => Ordering::Less,
                    1 => Ordering::Equal,
                    _ => Ordering::Greater,
                };
            }
        }
        self.key.cmp(&o.key)
    }
}
impl std::hash::Hash for E {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.ok();
        self.key.hash(h)
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.key)
    }
}
impl Archive for E {
    type Archived = E;
    type Resolver = ();
    unsafe fn resolve(&self, _pos: usize, _r: (), out: *mut E) {
        self.ok();
        std::ptr::addr_of_mut!((*out).magic).write(MAGIC);
        std::ptr::addr_of_mut!((*out).id).write(ARCH);
        std::ptr::addr_of_mut!((*out).key).write(self.key);
        std::ptr::addr_of_mut!((*out).tag).write(self.tag);
        std::ptr::addr_of_mut!((*out).chk).write(self.chk);
    }
}
impl<S: Fallible + ?Sized> rkyv::Serialize<S> for E {
    fn serialize(&self, _s: &mut S) -> Result<(), S::Error> {
        self.ok();
        callback(K_SER);
        Ok(())
    }
}
impl<D: Fallible + ?Sized> rkyv::Deserialize<E, D> for E {
    fn deserialize(&self, _d: &mut D) -> Result<E, D::Error> {
        self.ok();
        callback(K_SER);
        Ok(E::new(self.key, self.tag))
    }
}
#[derive(Debug)]
pub struct BadElement;
impl fmt::Display for BadElement {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bad element")
    }
}
impl std::error::Error for BadElement {}
impl<C: ?Sized> CheckBytes<C> for E {
    type Error = BadElement;
    unsafe fn check_bytes<'a>(v: *const E, _c: &mut C) -> Result<&'a E, BadElement> {
        let e = &*v;
        if e.valid_archived() {
            Ok(e)
        } else {
            Err(BadElement)
        }
    }
}
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.ok();
        callback(K_SER);
        s.serialize_i32(self.key)
    }
}
impl<'de> serde::Deserialize<'de> for E {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<E, D::Error> {
        let v = i32::deserialize(d)?;
        if !(-100_000..=100_000).contains(&v) {
            return Err(serde::de::Error::custom("element out of range"));
        }
        Ok(E::new(v, 0))
    }
}
impl num_traits::Zero for E {
    fn zero() -> E {
        E::new(0, 0)
    }
    fn is_zero(&self) -> bool {
        self.key == 0
    }
}
impl Default for E {
    fn default() -> E {
        E::new(0, 0)
    }
}
impl num_traits::Bounded for E {
    fn min_value() -> E {
        E::new(-i32::MAX, 0)
    }
    fn max_value() -> E {
        E::new(i32::MAX, 0)
    }
}
impl num_traits::One for E {
    fn one() -> E {
        E::new(1, 0)
    }
}
macro_rules! arith {
    ($tr:ident, $m:ident, $op:expr) => {
        impl std::ops::$tr for E {
            type Output = E;
            fn $m(self, o: E) -> E {
                self.ok();
                o.ok();
                callback(K_CLOSURE);
                let f: fn(i32, i32) -> i32 = $op;
                E::new(f(self.key, o.key), 0)
            }
        }
    };
}
pub fn a_add(a: i32, b: i32) -> i32 {
    a.wrapping_add(b)
}
pub fn a_sub(a: i32, b: i32) -> i32 {
    a.wrapping_sub(b)
}
pub fn a_mul(a: i32, b: i32) -> i32 {
    a.wrapping_mul(b)
}
pub fn a_div(a: i32, b: i32) -> i32 {
    if b == 0 {
        7
    } else {
        a.wrapping_div(b)
    }
}
arith!(Add, add, a_add);
arith!(Sub, sub, a_sub);
arith!(Mul, mul, a_mul);
arith!(Div, div, a_div);
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        self.ok();
        callback(K_CLOSURE);
        E::new(self.key.wrapping_neg(), 0)
    }
}

/// Key component of radix trees: one byte, of which values above 0xEF are invalid in archives.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct K(pub u8);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        ctx().cmps += 1;
        self.0 == o.0
    }
}
impl Eq for K {}
impl fmt::Debug for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:x}", self.0)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        callback(K_CMP);
        self.0.cmp(&o.0)
    }
}
impl Archive for K {
    type Archived = K;
    type Resolver = ();
    unsafe fn resolve(&self, _pos: usize, _r: (), out: *mut K) {
        out.write(*self);
    }
}
impl<S: Fallible + ?Sized> rkyv::Serialize<S> for K {
    fn serialize(&self, _s: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl<D: Fallible + ?Sized> rkyv::Deserialize<K, D> for Archived<K> {
    fn deserialize(&self, _d: &mut D) -> Result<K, D::Error> {
        Ok(*self)
    }
}
impl<C: ?Sized> CheckBytes<C> for K {
    type Error = BadElement;
    unsafe fn check_bytes<'a>(v: *const K, _c: &mut C) -> Result<&'a K, BadElement> {
        if (*v).0 <= 0xEF {
            Ok(&*v)
        } else {
            Err(BadElement)
        }
    }
}

/// end of run: every element has been dropped
pub fn finish() {
    let r = reg();
    if r.live != 0 {
        violation("element-leak", format!("{} element(s) never dropped", r.live));
    }
}
