//! Scenarios: one per property.
use crate::rt::*;
use crate::rt::inst;

pub mod arch;
pub mod cost;
pub mod archfail;
pub mod disk;
pub mod guard;
pub mod lazy;
pub mod log;
pub mod maps;
pub mod medium;
pub mod net;
pub mod radix;
pub mod replica;
pub mod follower;
pub mod serde_;
pub mod sets;
pub mod small;
pub mod owning;
pub mod equal;
pub mod stream;
pub mod tree;

pub struct Scn {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// what counts as a non-trivial evaluation
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumes: &'static [&'static str],
}

pub static SCNS: &[Scn] = &[sets::C01, maps::C02, stream::C03, serde_::C04, arch::C05, arch::C06, archfail::C07, log::C08, log::C09, radix::C10, radix::C11, lazy::C12, lazy::C13, replica::C14, follower::C15, equal::C16, small::C17, owning::C18, cost::C19];

/// Touch everything that is created once per process or thread, so that it is never created inside a run.
pub fn warm() {
    use vec_collections::radix_tree::{AbstractRadixTree, ArcRadixTree};
    fn empty<V: std::fmt::Debug + Clone + rkyv::Archive + Send + Sync + 'static>() {
        let t: ArcRadixTree<inst::K, V> = Default::default();
        assert!(t.is_empty());
    }
    empty::<inst::E>();
    empty::<()>();
    empty::<arch::Str>();
    let m = parking_lot::Mutex::new(());
    let c = parking_lot::Condvar::new();
    let mut g = m.lock();
    c.wait_for(&mut g, std::time::Duration::from_millis(1));
    drop(g);
    let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(Injected)));
}

/// what the simulator does to the caller code of the next operation
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Panic,
    Lie,
}
/// Decide the fault for the next operation. `est`: how many callbacks the operation is likely to make.
pub fn arm(mask: u32, est: u64, lie_ok: bool) -> Fault {
    let c = ctx();
    match weighted(&[6, 4, lie_ok as u64]) {
        1 => {
            c.arm_mask = mask;
            c.arm = 1 + draw(est.max(1));
            Fault::Panic
        }
        2 => {
            c.lie = draw(1 << 20) * 2 + 1;
            c.lie_count = 0;
            Fault::Lie
        }
        _ => Fault::None,
    }
}
/// end of the operation the fault was meant for; true if the lying comparison answered wrongly at least once
pub fn settle(f: Fault) -> bool {
    let c = ctx();
    disarm();
    if f == Fault::Lie && c.lie_count > 0 {
        let n = c.lie_count;
        c.lie_count = 0;
        for _ in 0..n.min(1) {
            fired(F::lying_cmp);
        }
        true
    } else {
        false
    }
}

/// key distributions: dense to sparse, with runs
pub fn key_range() -> i64 {
    if rare_bulk() {
        return BULK;
    }
    pick(&[6i64, 3, 16, 50, 300])
}
/// a key range that asks for collections of hundreds to thousands of elements, see [bulk_keys]
pub const BULK: i64 = 12_000;
pub fn rare_bulk() -> bool {
    chance(1, 250)
}
/// many keys, from few draws
pub fn bulk_keys() -> Vec<i32> {
    let n = pick(&[300u64, 40, 700, 1200, 2500, 5000]) + draw(300);
    let mut r = Rng(draw(1 << 20));
    let base = draw(3000) as i32;
    probe("thousands of elements");
    match draw(4) {
        0 => (0..n as i32).map(|i| base + i).collect(),
        1 => (0..n as i32).map(|i| base + i * 2 + (r.next() % 2) as i32).collect(),
        2 => (0..n as i32).rev().map(|i| i * 2).collect(),
        _ => (0..n).map(|_| (r.next() % BULK as u64) as i32).collect(),
    }
}
/// now and then, move new keys to where the keys drawn last end or begin: collections that touch
/// at one end, or just miss, or overlap by one
pub fn meet(mut ks: Vec<i32>) -> Vec<i32> {
    if ks.is_empty() {
        return ks;
    }
    let (lo, hi) = (*ks.iter().min().unwrap(), *ks.iter().max().unwrap());
    let mut by = 0;
    if let Some((plo, phi)) = ctx().last_keys {
        if chance(1, 6) {
            let gap = pick(&[0, 1, -1]);
            by = if coin() { phi + gap - lo } else { plo - gap - hi };
            if lo + by < 0 || hi + by > 100_000 {
                by = 0;
            } else {
                probe("collections that meet at one end");
            }
        }
    }
    for k in &mut ks {
        *k += by;
    }
    ctx().last_keys = Some((lo + by, hi + by));
    ks
}
/// now and then, have the next collection built from the keys of one that is there: the same, some
/// of them, all but or and one more, their neighbours, or what begins where they end
pub fn related(keys: impl ExactSizeIterator<Item = i32>) -> bool {
    // large collections rarely come by chance to lie next to each other
    if !chance(1, if keys.len() > 64 { 3 } else { 10 }) {
        return false;
    }
    let ks: Vec<i32> = keys.collect();
    let (lo, hi) = match (ks.iter().min(), ks.iter().max()) {
        (Some(a), Some(b)) => (*a, *b),
        _ => return false,
    };
    let mut r = Rng(draw(1 << 20));
    let at = (r.next() % ks.len() as u64) as usize;
    let new: Vec<i32> = match draw(10) {
        0 | 9 => {
            let first = hi + pick(&[0, 1, -1, 0]);
            (0..1 + (r.next() % 40) as i32).map(|i| first + i).collect()
        }
        1 => {
            let last = lo - pick(&[0, 1, -1, 0]);
            (0..1 + (r.next() % 40) as i32).map(|i| (last - i).max(0)).collect()
        }
        2 => ks,
        3 => ks.into_iter().filter(|_| r.next() % 2 == 0).collect(),
        4 => ks.into_iter().filter(|_| r.next() % 16 == 0).collect(),
        5 => ks.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, k)| *k).collect(),
        6 => {
            let k = ks[at] + 1;
            ks.into_iter().chain([k]).collect()
        }
        7 => ks.into_iter().map(|k| k + 1).collect(),
        _ => ks.into_iter().map(|k| k + (r.next() % 2) as i32).collect(),
    };
    probe("a collection made from the keys of another");
    ctx().next_keys = Some(new);
    true
}
pub fn fresh_tag() -> u32 {
    let c = ctx();
    c.steps += 1;
    c.steps as u32
}
pub fn obs_list(l: &[(i32, u32)]) {
    obs(l.len() as u64);
    for (k, t) in l {
        obs(((*k as u32 as u64) << 32) | *t as u64);
    }
}
