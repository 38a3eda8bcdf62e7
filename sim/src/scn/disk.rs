//! A simulated disk: files that keep what was synced, and lose any part of what was not when the machine crashes.
use super::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DiskErr {
    Io,
    Full,
}
#[derive(Default, Clone)]
struct File {
    durable: Vec<u8>,
    /// what readers see
    now: Vec<u8>,
    /// unsynced writes: offset and length in `now`
    pending: Vec<(usize, usize)>,
}
pub struct Disk {
    files: BTreeMap<&'static str, File>,
    capacity: usize,
    sector: usize,
    /// probability (in 64ths) that a write or sync fails
    pub bad: u64,
}
fn passes(ms: u64) {
    let c = ctx();
    c.sim_time += ms * 1_000_000;
}
impl Disk {
    pub fn new() -> Disk {
        Disk { files: BTreeMap::new(), capacity: pick(&[1 << 20, 1 << 20, 6_000, 20_000]), sector: pick(&[64usize, 512, 16, 4096]), bad: pick(&[4u64, 0, 12]) }
    }
    pub fn read(&self, f: &'static str) -> Vec<u8> {
        passes(1);
        self.files.get(f).map(|f| f.now.clone()).unwrap_or_default()
    }
    fn used(&self) -> usize {
        self.files.values().map(|f| f.now.len()).sum()
    }
    /// Append. On failure part of the data may have been appended.
    pub fn append(&mut self, f: &'static str, b: &[u8]) -> Result<(), DiskErr> {
        passes(1 + draw(20));
        let room = self.capacity.saturating_sub(self.used());
        let bad = chance(self.bad, 64);
        let file = self.files.entry(f).or_default();
        let (n, r) = if bad {
            fired(F::disk_error);
            let n = if coin() { 0 } else { idx(b.len() + 1) };
            if n > 0 {
                fired(F::short_write);
            }
            (n, Err(DiskErr::Io))
        } else if b.len() > room {
            fired(F::disk_full);
            (room, Err(DiskErr::Full))
        } else {
            (b.len(), Ok(()))
        };
        if n > 0 {
            let at = file.now.len();
            file.now.extend_from_slice(&b[..n]);
            file.pending.push((at, n));
        }
        if r.is_err() {
            tr!("    !! appending {} bytes to {f} fails after {n} ({r:?})", b.len());
        }
        r
    }
    pub fn sync(&mut self, f: &'static str) -> Result<(), DiskErr> {
        passes(5 + draw(50));
        if chance(self.bad, 64) {
            fired(F::disk_error);
            tr!("    !! syncing {f} fails");
            return Err(DiskErr::Io);
        }
        if let Some(file) = self.files.get_mut(f) {
            file.durable = file.now.clone();
            file.pending.clear();
        }
        Ok(())
    }
    /// Cut the file. Durable at once.
    pub fn truncate(&mut self, f: &'static str, n: usize) {
        passes(5);
        if let Some(file) = self.files.get_mut(f) {
            file.now.truncate(n);
            // what was unsynced below the cut is rewritten
            file.durable = file.now.clone();
            file.pending.clear();
        }
    }
    pub fn remove(&mut self, f: &'static str) {
        self.files.remove(f);
    }
    /// Atomic and durable at once (the content is as durable as it was).
    pub fn rename(&mut self, a: &'static str, b: &'static str) {
        passes(5);
        if let Some(f) = self.files.remove(a) {
            self.files.insert(b, f);
        }
    }
    pub fn free_up(&mut self) {
        self.capacity = 1 << 20;
    }
    /// The machine stops. Of every unsynced write any sectors may have reached the medium.
    pub fn crash(&mut self) {
        fired(F::crash);
        passes(1000);
        let sec = self.sector;
        let mode = draw(3);
        for file in self.files.values_mut() {
            let mut d = file.durable.clone();
            let mut torn = false;
            for &(at, n) in &file.pending {
                let mut i = at;
                while i < at + n {
                    let end = ((i / sec + 1) * sec).min(at + n);
                    let keep = match mode {
                        0 => false,
                        1 => true,
                        _ => coin(),
                    };
                    if keep {
                        if d.len() < end {
                            d.resize(end, 0);
                        }
                        let e = end.min(file.now.len());
                        d[i..e].copy_from_slice(&file.now[i..e]);
                    } else {
                        torn = true;
                    }
                    i = end;
                }
            }
            if torn && mode == 2 {
                fired(F::torn_append);
            } else if torn {
                fired(F::lost_write);
            }
            file.durable = d.clone();
            file.now = d;
            file.pending.clear();
        }
    }
}
