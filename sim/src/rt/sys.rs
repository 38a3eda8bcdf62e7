//! Raw system calls, and the libc symbols the simulator takes over: futex waits and wakes, yields, sleeps and
//! clocks requested by library code on a simulated thread become operations of the simulator's scheduler.
use super::{arena, sched};
use std::arch::asm;

pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _, options(nostack));
    r
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { raw6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake(addr: *const u32, n: i64) {
    unsafe { raw6(libc::SYS_futex, addr as i64, 129, n, 0, 0, 0) };
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// Is this thread executing library code under the simulator's scheduler?
fn ours() -> bool {
    sched::active() && arena::is_in_lib()
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && ours() {
        let _o = arena::out_lib();
        let op = (b & 0x7f) as i32;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let timed = d != 0;
                return ret(sched::futex_wait_sim(a as usize, c as u32, timed));
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                return sched::futex_wake_sim(a as usize, c) as i64;
            }
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ours() {
        let _o = arena::out_lib();
        sched::yield_sim();
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if ours() {
        let _o = arena::out_lib();
        sched::sleep_sim((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if ours() {
        let _o = arena::out_lib();
        sched::sleep_sim((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if ours() {
        let t = super::ctx().sim_time;
        (*ts).tv_sec = (t / 1_000_000_000) as i64 + 1;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}
