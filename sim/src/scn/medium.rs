//! An output medium for archives that can fail at any call, and a loader that can fail at any registration.
use super::*;
use crate::rt::arena::out_lib;
use rkyv::de::deserializers::SharedDeserializeMap;
use rkyv::de::{SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::serializers::{AllocScratch, FallbackScratch, HeapScratch};
use rkyv::ser::{ScratchSpace, Serializer, SharedSerializeRegistry};
use rkyv::Fallible;
use std::alloc::Layout;
use std::collections::BTreeMap;
use std::fmt;
use std::ptr::NonNull;

/// The failure the medium reported, by number. Only the simulator makes these.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fail(pub u64);
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated failure {}", self.0)
    }
}
impl std::error::Error for Fail {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    None,
    /// fails at the n-th call of any kind
    Any,
    Write,
    Scratch,
    Registry,
    /// no space beyond so many bytes
    Full,
}
/// Collects an archive. `base` bytes are already in the log before it.
pub struct Medium {
    pub base: usize,
    pub out: Vec<u8>,
    scratch: Option<FallbackScratch<HeapScratch<64>, AllocScratch>>,
    pub known: BTreeMap<usize, usize>,
    /// the registry forgets (every sharing is written out in full)
    pub amnesia: bool,
    pub kind: Kind,
    pub at: u64,
    pub calls: u64,
    pub writes: u64,
    pub scratches: u64,
    pub registrations: u64,
    pub failed: Option<Fail>,
    /// registrations in order (address, position)
    pub log: Vec<(usize, usize)>,
    pub depth: u64,
}
impl Medium {
    pub fn new(base: usize) -> Medium {
        let s = {
            let _i = crate::rt::arena::in_lib();
            Default::default()
        };
        Medium {
            base,
            out: Vec::new(),
            scratch: Some(s),
            known: BTreeMap::new(),
            amnesia: false,
            kind: Kind::None,
            at: 0,
            calls: 0,
            writes: 0,
            scratches: 0,
            registrations: 0,
            failed: None,
            log: Vec::new(),
            depth: 0,
        }
    }
    fn hit(&mut self, k: Kind) -> Result<(), Fail> {
        let _o = out_lib();
        if let Some(f) = self.failed {
            // a broken medium stays broken
            return Err(f);
        }
        self.calls += 1;
        let n = match k {
            Kind::Write => {
                self.writes += 1;
                self.writes
            }
            Kind::Scratch => {
                self.scratches += 1;
                self.scratches
            }
            _ => {
                self.registrations += 1;
                self.registrations
            }
        };
        let fail = match self.kind {
            Kind::Any => self.calls == self.at,
            x if x == k => n == self.at,
            _ => false,
        };
        if fail {
            self.fail(k);
            return Err(self.failed.unwrap());
        }
        Ok(())
    }
    fn fail(&mut self, k: Kind) {
        let _o = out_lib();
        let f = Fail(mix(self.at, self.calls) & 0xffff);
        self.failed = Some(f);
        tr!("    !! output fails at call {} ({k:?}), {} bytes written", self.calls, self.out.len());
        fired(match k {
            Kind::Write => F::write_error,
            Kind::Scratch => F::scratch_error,
            Kind::Full => F::disk_full,
            _ => F::registry_error,
        });
    }
}
impl Drop for Medium {
    fn drop(&mut self) {
        let _i = crate::rt::arena::in_lib();
        self.scratch = None;
    }
}
impl Fallible for Medium {
    type Error = Fail;
}
impl Serializer for Medium {
    fn pos(&self) -> usize {
        self.base + self.out.len()
    }
    fn write(&mut self, b: &[u8]) -> Result<(), Fail> {
        let _o = out_lib();
        let broken = self.failed.is_some();
        if let Err(e) = self.hit(Kind::Write) {
            if !broken && coin() {
                // part of it got through
                let n = idx(b.len() + 1);
                self.out.extend_from_slice(&b[..n]);
                fired(F::short_write);
            }
            return Err(e);
        }
        if self.kind == Kind::Full && (self.out.len() + b.len()) as u64 > self.at {
            let n = self.at as usize - self.out.len();
            self.out.extend_from_slice(&b[..n]);
            self.fail(Kind::Full);
            return Err(self.failed.unwrap());
        }
        check!(self.out.len() < 4 << 20, "non-termination", "archiving writes without end");
        self.out.extend_from_slice(b);
        Ok(())
    }
}
impl ScratchSpace for Medium {
    unsafe fn push_scratch(&mut self, l: Layout) -> Result<NonNull<[u8]>, Fail> {
        self.hit(Kind::Scratch)?;
        self.depth += 1;
        Ok(self.scratch.as_mut().unwrap().push_scratch(l).expect("scratch"))
    }
    unsafe fn pop_scratch(&mut self, p: NonNull<u8>, l: Layout) -> Result<(), Fail> {
        self.hit(Kind::Scratch)?;
        self.depth -= 1;
        self.scratch.as_mut().unwrap().pop_scratch(p, l).expect("scratch memory returned in the wrong order");
        Ok(())
    }
}
impl SharedSerializeRegistry for Medium {
    fn get_shared_ptr(&mut self, v: *const u8) -> Option<usize> {
        let _o = out_lib();
        if self.amnesia {
            return None;
        }
        self.known.get(&(v as usize)).copied()
    }
    fn add_shared_ptr(&mut self, v: *const u8, pos: usize) -> Result<(), Fail> {
        self.hit(Kind::Registry)?;
        let _o = out_lib();
        self.log.push((v as usize, pos));
        let old = self.known.insert(v as usize, pos);
        check!(old.is_none() || self.amnesia, "registered-twice", "a shared pointer is registered twice");
        Ok(())
    }
}

/// Deserialization side.
pub struct Loader {
    pub map: Option<SharedDeserializeMap>,
    pub at: u64,
    pub calls: u64,
    pub failed: Option<Fail>,
}
impl Loader {
    pub fn new(at: u64) -> Loader {
        let m = {
            let _i = crate::rt::arena::in_lib();
            SharedDeserializeMap::new()
        };
        Loader { map: Some(m), at, calls: 0, failed: None }
    }
}
impl Drop for Loader {
    fn drop(&mut self) {
        let _i = crate::rt::arena::in_lib();
        self.map = None;
    }
}
impl Fallible for Loader {
    type Error = Fail;
}
impl SharedDeserializeRegistry for Loader {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> {
        self.map.as_mut().unwrap().get_shared_ptr(p)
    }
    fn add_shared_ptr(&mut self, p: *const u8, s: Box<dyn SharedPointer>) -> Result<(), Fail> {
        {
            let _o = out_lib();
            self.calls += 1;
            if self.calls == self.at {
                let f = Fail(self.at);
                self.failed = Some(f);
                fired(F::registry_error);
                tr!("    !! loading fails at shared pointer {}", self.at);
                return Err(f);
            }
        }
        self.map.as_mut().unwrap().add_shared_ptr(p, s).map_err(|_| Fail(0))
    }
}
