//! Per-run context: the choice stream every decision is drawn from, fault counters, trace, violations.
use super::arena;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// splitmix64 based generator (only ever seeded from VERIF_SEED, property and run index)
#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h = h.rotate_left(27).wrapping_mul(0x94D0_49BB_1331_11EB);
    h ^ (h >> 29)
}

macro_rules! faults {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(usize)]
        pub enum F { $($name),* , _COUNT }
        pub const FAULT_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
faults! {
    panic_cmp, panic_clone, panic_closure, panic_iter, panic_hash, lying_cmp, lying_size_hint,
    stream_dup, stream_reorder, read_error, short_read, read_eof, corrupt_byte, false_length, codec_error,
    write_error, short_write, write_zero, scratch_error, registry_error, panic_serialize,
    bit_flip, zero_range, torn_sector, lost_write, misdirected_write, truncate, stale_fragment, hostile_pointer, hostile_length,
    disk_error, disk_full, crash, torn_append, address_reuse,
    preempt, step_preempt, thread_block, sim_sleep,
    msg_drop, msg_dup, msg_delay, msg_reorder, partition, heal, node_crash, node_restart, msg_corrupt, node_stall,
    reload, compaction, no_memory,
}

#[derive(Default)]
pub struct Ctx {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub draws: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
    open: Vec<u32>,
    pub hash: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub fired: Vec<u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// countdown to an injected panic: number of callbacks still to pass (0 = disarmed)
    pub arm: u64,
    /// which callback kinds the armed panic may hit
    pub arm_mask: u32,
    pub arm_fired: bool,
    pub lie: u64,
    pub lie_count: u64,
    pub callbacks: u64,
    /// comparisons made by the library
    pub cmps: u64,
    pub cb_since_op: u64,
    pub sim_time: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub panic_msg: Option<String>,
    /// an interrupted call of rkyv itself may have leaked: do not judge leaks in this run
    pub forgive_leaks: bool,
    /// smallest and largest of the keys drawn last, see `scn::meet`
    pub last_keys: Option<(i32, i32)>,
    /// the keys of the next collection to be built, see `scn::related`
    pub next_keys: Option<Vec<i32>>,
}

impl Ctx {
    /// all spans, closing those still open at choice n
    pub fn all_spans(&self, n: usize) -> Vec<(u32, u32)> {
        let mut v = self.spans.clone();
        v.extend(self.open.iter().map(|s| (*s, n as u32)));
        v
    }
}
struct Global(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Global {}
static CTX: Global = Global(UnsafeCell::new(None));

/// only the thread that holds the simulator's baton may call this
#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { (*CTX.0.get()).get_or_insert_with(Ctx::default) }
}

pub enum Source {
    Seed(u64),
    Replay(Vec<u64>),
}

pub fn reset(src: Source, trace: bool) {
    let c = ctx();
    *c = Ctx { trace_on: trace, fired: vec![0; F::_COUNT as usize], ..Default::default() };
    match src {
        Source::Seed(s) => {
            let mut r = Rng(s);
            r.next();
            c.rng = Some(r)
        }
        Source::Replay(v) => c.replay = v,
    }
}

/// Draw a number below n. 0 is always the simplest choice (no fault, no preemption, smallest size).
pub fn draw(n: u64) -> u64 {
    let _o = arena::out_lib();
    let c = ctx();
    let n = n.max(1);
    let v = match &mut c.rng {
        Some(r) => r.next() % n,
        None => c.replay.get(c.draws.len()).copied().unwrap_or(0) % n,
    };
    c.draws.push(v);
    c.hash = mix(c.hash, v.wrapping_mul(31).wrapping_add(n));
    if c.draws.len() > 4_000_000 {
        violation("runaway", "more than four million choices in one run".into());
    }
    v
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
pub fn idx(n: usize) -> usize {
    draw(n as u64) as usize
}
/// true with probability num/den; false is the simple choice
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num.min(den)
}
pub fn coin() -> bool {
    draw(2) == 1
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[idx(xs.len())]
}
/// index chosen with the given weights; index 0 is the simple choice
pub fn weighted(ws: &[u64]) -> usize {
    let t: u64 = ws.iter().sum();
    let mut v = draw(t);
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}
/// a size in 0..=max, biased to small values but reaching max
pub fn size(max: u64) -> u64 {
    match draw(4) {
        0 => draw(max.min(3) + 1),
        1 => draw(max.min(9) + 1),
        2 => draw(max.min(24) + 1),
        _ => draw(max + 1),
    }
}

pub struct Span(());
pub fn span() -> Span {
    let _o = arena::out_lib();
    let c = ctx();
    c.open.push(c.draws.len() as u32);
    Span(())
}
impl Drop for Span {
    fn drop(&mut self) {
        let _o = arena::out_lib();
        let c = ctx();
        if let Some(s) = c.open.pop() {
            c.spans.push((s, c.draws.len() as u32));
        }
    }
}
/// `while more(max)` style loop control: each iteration continues unless 0 is drawn
pub fn ops(avg: u64) -> u64 {
    // number of operations; drawn once so that deleting an operation's span simply shortens the tail
    size(avg)
}

pub fn obs(v: u64) {
    let c = ctx();
    c.hash = mix(c.hash, v);
}
pub fn fired(f: F) {
    let _o = arena::out_lib();
    let c = ctx();
    c.fired[f as usize] += 1;
    c.nontrivial = true;
}
pub fn probe(name: &'static str) {
    let _o = arena::out_lib();
    *ctx().probes.entry(name).or_insert(0) += 1;
}
pub fn probe_n(name: &'static str, n: u64) {
    let _o = arena::out_lib();
    *ctx().probes.entry(name).or_insert(0) += n;
}
pub fn nontrivial() {
    ctx().nontrivial = true;
}
pub fn trace(f: impl FnOnce() -> String) {
    if ctx().trace_on {
        let _o = arena::out_lib();
        let s = f();
        let c = ctx();
        if c.trace.len() < 20_000 {
            c.trace.push(s);
        }
    }
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { $crate::rt::trace(|| format!($($a)*)) };
}

/// payload of panics the simulator injects into caller code
pub struct Injected;

pub const K_CMP: u32 = 1;
pub const K_CLONE: u32 = 2;
pub const K_CLOSURE: u32 = 4;
pub const K_ITER: u32 = 8;
pub const K_DROP: u32 = 16;
pub const K_SER: u32 = 32;
pub const K_CHECK: u32 = 64;

pub fn disarm() {
    let c = ctx();
    c.arm = 0;
    c.lie = 0;
}

/// every entry of caller-supplied code passes here
pub fn callback(kind: u32) {
    let c = ctx();
    c.callbacks += 1;
    c.cb_since_op += 1;
    c.cmps += (kind == K_CMP) as u64;
    if c.cb_since_op > 3_000_000 {
        violation("non-termination", "an operation called caller code more than three million times".into());
    }
    if c.arm > 0 && c.arm_mask & kind != 0 {
        c.arm -= 1;
        if c.arm == 0 {
            c.arm_fired = true;
            let f = match kind {
                K_CMP => F::panic_cmp,
                K_CLONE => F::panic_clone,
                K_CLOSURE => F::panic_closure,
                K_SER => F::panic_serialize,
                _ => F::panic_iter,
            };
            let payload: Box<dyn std::any::Any + Send> = {
                let _o = arena::out_lib();
                fired(f);
                trace(|| format!("    !! injected panic in callback kind {kind}"));
                Box::new(Injected)
            };
            std::panic::resume_unwind(payload);
        }
    }
    super::sched::point();
}

#[derive(Debug)]
pub enum Stop {
    Injected,
    Lib(String),
}

/// Run library code: allocations go to the arena, panics are caught; in step runs every instruction may be a
/// scheduling point.
pub fn lib_catch<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    lib_run(|| super::sched::stepped(f))
}
fn lib_run<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    ctx().cb_since_op = 0;
    ctx().arm_fired = false;
    let r = {
        let _g = arena::in_lib();
        catch_unwind(AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Injected>() {
                drop(p);
                Err(Stop::Injected)
            } else {
                let m = ctx().panic_msg.take().unwrap_or_else(|| "unknown panic".into());
                drop(p);
                Err(Stop::Lib(m))
            }
        }
    }
}
/// Run library code that must not panic.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match lib_run(f) {
        Ok(v) => v,
        Err(Stop::Injected) => violation("unexpected-injection", what.into()),
        Err(Stop::Lib(m)) => violation("panic", format!("{what}: {m}")),
    }
}

pub type Reporter = fn(&'static str, String) -> !;
static mut REPORTER: Option<Reporter> = None;
pub fn set_reporter(r: Reporter) {
    unsafe { REPORTER = Some(r) }
}
pub fn violation(kind: &'static str, detail: String) -> ! {
    let _o = arena::out_lib();
    let r = unsafe { REPORTER };
    match r {
        Some(r) => r(kind, detail),
        None => {
            eprintln!("violation {kind}: {detail}");
            std::process::abort()
        }
    }
}
#[macro_export]
macro_rules! check {
    ($c:expr, $kind:expr, $($a:tt)*) => { if !$c { $crate::rt::violation($kind, format!($($a)*)) } };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = arena::is_in_lib();
        let _o = arena::out_lib();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!(" at {}:{}", f, l.line())
            })
            .unwrap_or_default();
        ctx().panic_msg = Some(format!("{msg}{loc}"));
        if !was && std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("harness panic: {msg}{loc}");
        }
    }));
}
