//! Deterministic scheduler: real OS threads of which exactly one runs at a time. Who runs next is drawn from
//! the choice stream at scheduling points (allocations, frees, caller callbacks, lock operations, single steps).
use super::ctx::*;
use super::{arena, sys};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAXT: usize = 4;
thread_local! { static STEP_GAP: Cell<u64> = const { Cell::new(0) }; static STEPPED: Cell<bool> = const { Cell::new(false) }; static TID: Cell<usize> = const { Cell::new(usize::MAX) }; static NOPREEMPT: Cell<u32> = const { Cell::new(0) }; }

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}
struct Sched {
    st: [St; MAXT],
    cur: usize,
    n: usize,
    gap: u64,
    gap_max: u64,
    woken: [bool; MAXT],
    points: u64,
    switches: u64,
    step_budget: u64,
    /// step every operation, not only some
    step_all: bool,
}
static mut S: Sched = Sched {
    st: [St::Idle; MAXT],
    cur: 0,
    n: 0,
    gap: 0,
    gap_max: 1,
    woken: [false; MAXT],
    points: 0,
    switches: 0,
    step_budget: 0,
    step_all: false,
};
#[allow(clippy::mut_from_ref)]
fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static WORD: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);
static START: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
type Job = Box<dyn FnOnce() + Send>;
static mut JOBS: [Option<Job>; MAXT] = [const { None }; MAXT];

pub fn active() -> bool {
    ACTIVE.load(Relaxed) && TID.with(|t| t.get()) != usize::MAX
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}

fn wait_word(w: &AtomicU32) {
    loop {
        if w.swap(0, Acquire) == 1 {
            return;
        }
        sys::futex_wait(w.as_ptr(), 0);
    }
}
fn signal(w: &AtomicU32) {
    w.store(1, Release);
    sys::futex_wake(w.as_ptr(), 1);
}

/// Create the worker's thread pool (once per process).
pub fn init_pool(warm: fn()) {
    for i in 0..MAXT {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                crate::runner::install_altstack();
                warm();
                TID.with(|t| t.set(i));
                loop {
                    wait_word(&START[i]);
                    // first activation by the scheduler
                    wait_word(&WORD[i]);
                    disarm();
                    #[allow(static_mut_refs)]
                    let job = unsafe { JOBS[i].take() };
                    if let Some(j) = job {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                        if r.is_err() {
                            let m = ctx().panic_msg.take().unwrap_or_default();
                            violation("panic", format!("simulated thread {i} panicked: {m}"));
                        }
                    }
                    finish_thread(i);
                }
            })
            .unwrap();
    }
}

/// Run the jobs as simulated threads until all are done.
pub fn run_threads(jobs: Vec<Job>) {
    let n = jobs.len();
    assert!(n <= MAXT);
    let sc = s();
    sc.n = n;
    sc.st = [St::Idle; MAXT];
    sc.woken = [false; MAXT];
    sc.gap_max = [4, 1, 2, 8, 24, 80, 300][idx(7)];
    for (i, j) in jobs.into_iter().enumerate() {
        #[allow(static_mut_refs)]
        unsafe {
            JOBS[i] = Some(j)
        };
        sc.st[i] = St::Ready;
        signal(&START[i]);
    }
    let first = idx(n);
    sc.cur = first;
    new_gap();
    ACTIVE.store(true, SeqCst);
    signal(&WORD[first]);
    wait_word(&MAIN);
    ACTIVE.store(false, SeqCst);
}
/// give this run a budget of single-stepped instructions
pub fn enable_steps(budget: u64, all: bool) {
    s().step_budget = budget;
    s().step_all = all;
}
pub fn step_budget_left() -> u64 {
    s().step_budget
}
pub fn reset() {
    let sc = s();
    sc.points = 0;
    sc.switches = 0;
    sc.step_budget = 0;
}
pub fn stats() -> (u64, u64) {
    (s().points, s().switches)
}

fn new_gap() {
    let sc = s();
    let _sp = span();
    // 0: no further preemption of this thread
    let g = draw(sc.gap_max + 1);
    sc.gap = if g == 0 { u64::MAX } else { g };
    let _ = sc;
}

fn ready_others(me: usize) -> Vec<usize> {
    let sc = s();
    (0..sc.n).filter(|i| *i != me && sc.st[*i] == St::Ready).collect()
}

fn transfer(me: usize, to: usize) {
    let sc = s();
    if me == to {
        return;
    }
    sc.cur = to;
    sc.switches += 1;
    obs(0x5_0000 + to as u64);
    if ctx().trace_on {
        trace(|| format!("    -- switch to thread {to}"));
    }
    // what is armed belongs to the thread
    let c = ctx();
    let mine = (c.arm, c.arm_mask, c.arm_fired, c.lie, c.lie_count, c.cb_since_op, c.panic_msg.take());
    signal(&WORD[to]);
    wait_word(&WORD[me]);
    let c = ctx();
    (c.arm, c.arm_mask, c.arm_fired, c.lie, c.lie_count, c.cb_since_op, c.panic_msg) = mine;
}

fn finish_thread(me: usize) {
    let _o = arena::out_lib();
    let sc = s();
    sc.st[me] = St::Done;
    match choose_next(me) {
        Some(t) => {
            sc.cur = t;
            obs(0x6_0000 + t as u64);
            trace(|| format!("    -- thread {me} done, switch to thread {t}"));
            new_gap();
            signal(&WORD[t]);
        }
        None => signal(&MAIN),
    }
}

/// next thread to run when `me` cannot continue; None if all are done
fn choose_next(me: usize) -> Option<usize> {
    let r = ready_others(me);
    if !r.is_empty() {
        return Some(r[idx(r.len())]);
    }
    let sc = s();
    // let simulated time pass: expire a timed wait
    let timed: Vec<usize> = (0..sc.n).filter(|i| matches!(sc.st[*i], St::Blocked { timed: true, .. })).collect();
    if !timed.is_empty() {
        let t = timed[idx(timed.len())];
        sc.st[t] = St::Ready;
        sc.woken[t] = false;
        ctx().sim_time += 1_000_000;
        return Some(t);
    }
    if (0..sc.n).all(|i| sc.st[i] == St::Done) {
        return None;
    }
    let who: Vec<usize> = (0..sc.n).filter(|i| matches!(sc.st[*i], St::Blocked { .. })).collect();
    violation("deadlock", format!("threads {who:?} wait on locks that nobody will release"));
}

/// A point at which the scheduler may take the processor away.
pub fn point() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = tid();
    if me == usize::MAX || NOPREEMPT.with(|c| c.get()) > 0 {
        return;
    }
    let _o = arena::out_lib();
    let sc = s();
    sc.points += 1;
    ctx().sim_time += 100;
    if sc.points > 2_000_000 {
        violation("non-termination", "two million scheduling points in one run".into());
    }
    if sc.gap != u64::MAX {
        sc.gap -= 1;
        if sc.gap == 0 {
            preempt(me, F::preempt);
        }
    }
    maybe_step();
}
pub fn point_alloc() {
    point()
}
fn preempt(me: usize, f: F) {
    let r = ready_others(me);
    if !r.is_empty() {
        let t = {
            let _sp = span();
            r[idx(r.len())]
        };
        fired(f);
        new_gap();
        transfer(me, t);
    } else {
        new_gap();
    }
}
/// explicit scheduling point between operations of a simulated thread
pub fn pause() {
    point()
}
pub fn yield_sim() {
    let me = tid();
    let sc = s();
    sc.points += 1;
    if sc.points > 2_000_000 {
        violation("non-termination", "two million scheduling points in one run".into());
    }
    let r = ready_others(me);
    if !r.is_empty() {
        let t = r[idx(r.len())];
        new_gap();
        transfer(me, t);
    }
}
pub fn sleep_sim(ns: u64) {
    fired(F::sim_sleep);
    ctx().sim_time += ns;
    yield_sim();
}
pub fn futex_wait_sim(addr: usize, val: u32, timed: bool) -> i64 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    let me = tid();
    let sc = s();
    sc.points += 1;
    sc.st[me] = St::Blocked { addr, timed };
    sc.woken[me] = false;
    fired(F::thread_block);
    trace(|| format!("    -- thread {me} blocks on a lock"));
    let t = match choose_next(me) {
        Some(t) => t,
        None => violation("deadlock", "a thread waits on a lock after all others finished".into()),
    };
    if t != me {
        new_gap();
        transfer(me, t);
    }
    s().st[me] = St::Ready;
    if s().woken[me] {
        0
    } else {
        -(libc::ETIMEDOUT as i64)
    }
}
pub fn futex_wake_sim(addr: usize, n: i64) -> usize {
    let sc = s();
    let mut woken = 0;
    for i in 0..sc.n {
        if woken as i64 >= n {
            break;
        }
        if let St::Blocked { addr: a, .. } = sc.st[i] {
            if a == addr {
                sc.st[i] = St::Ready;
                sc.woken[i] = true;
                woken += 1;
            }
        }
    }
    point();
    woken
}

// ---------------------------------------------------------------------------------------------------------
// Step mode: with the trap flag set the processor raises SIGTRAP after every instruction, which makes every
// machine instruction of library code a scheduling point.

/// Run `f` with single-stepped stretches, as long as the run's step budget lasts. A stretch starts with the
/// operation or at a scheduling point inside it, and usually ends with a preemption.
pub fn stepped<T>(f: impl FnOnce() -> T) -> T {
    if !active() || s().step_budget == 0 {
        return f();
    }
    let (on, now) = {
        let _o = arena::out_lib();
        let _sp = span();
        (s().step_all || chance(1, 3), chance(1, 3))
    };
    if !on {
        return f();
    }
    let _d = StepGuard;
    STEPPED.with(|c| c.set(true));
    if now {
        STEP_GAP.with(|c| c.set(draw_step_gap()));
        set_tf(true);
    }
    f()
}
struct StepGuard;
impl Drop for StepGuard {
    fn drop(&mut self) {
        set_tf(false);
        STEPPED.with(|c| c.set(false));
        STEP_GAP.with(|c| c.set(0));
    }
}
/// at a scheduling point: maybe step the instructions that follow
fn maybe_step() {
    if s().step_budget > 0 && STEPPED.with(|c| c.get()) && STEP_GAP.with(|c| c.get()) == 0 && !std::thread::panicking() {
        let go = {
            let _sp = span();
            chance(1, 5)
        };
        if go {
            STEP_GAP.with(|c| c.set(draw_step_gap()));
            set_tf(true);
        }
    }
}
fn draw_step_gap() -> u64 {
    let _o = arena::out_lib();
    let _sp = span();
    let g = [64u64, 16, 200][idx(3)];
    1 + draw(g)
}
#[inline(never)]
fn set_tf(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}
pub unsafe extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    if !active() {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    // harness code runs at full speed between library instructions but is never preempted
    if !arena::is_in_lib() {
        return;
    }
    let sc = s();
    let gap = STEP_GAP.with(|c| c.get());
    if sc.step_budget == 0 || gap == 0 || std::thread::panicking() {
        STEP_GAP.with(|c| c.set(0));
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    sc.step_budget -= 1;
    STEP_GAP.with(|c| c.set(gap - 1));
    if gap == 1 {
        let _o = arena::out_lib();
        let e = *libc::__errno_location();
        preempt(tid(), F::step_preempt);
        let more = {
            let _sp = span();
            chance(1, 3)
        };
        if more {
            STEP_GAP.with(|c| c.set(draw_step_gap()));
        } else {
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
        *libc::__errno_location() = e;
    }
}
