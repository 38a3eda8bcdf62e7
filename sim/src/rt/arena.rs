//! Global allocator. Allocations made by library code during a simulated run come from an arena at a fixed
//! address, with deterministic addresses, poison, canaries and exact accounting; everything else is malloc.
use super::ctx::violation;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static IN_LIB: Cell<bool> = const { Cell::new(false) }; }

pub struct Mode(bool);
impl Drop for Mode {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
pub fn in_lib() -> Mode {
    IN_LIB.with(|c| Mode(c.replace(true)))
}
pub fn out_lib() -> Mode {
    IN_LIB.with(|c| Mode(c.replace(false)))
}
pub fn is_in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}

pub const BASE: usize = 0x5A00_0000_0000;
pub const CAP: usize = 512 << 20;
const HDR: usize = 48;
const MAGIC: u32 = 0xA11C_0DE5;
const CANARY: u64 = 0xC5C5_C5C5_C5C5_C5C5;
const LIVE: u32 = 1;
const FREE: u32 = 2;
const NCLASS: usize = 24;

#[repr(C)]
struct Hdr {
    magic: u32,
    state: u32,
    size: u64,
    align: u64,
    next: u64,     // address of the next block's header
    freelist: u64, // next free block of this class
    cap: u64,
}

pub struct Arena {
    pub ready: bool,
    pub enabled: bool,
    bump: usize,
    pub reuse: bool,
    free: [u64; NCLASS],
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub peak_bytes: usize,
    pub allocs: u64,
    pub max_request: usize,
    pub reused: u64,
    pub limit: usize,
    /// the heap is exhausted: any request fails
    pub deny: bool,
}
pub static mut A: Arena = Arena {
    ready: false,
    enabled: false,
    bump: BASE,
    reuse: false,
    free: [0; NCLASS],
    live_bytes: 0,
    live_blocks: 0,
    peak_bytes: 0,
    allocs: 0,
    max_request: 0,
    reused: 0,
    limit: usize::MAX,
    deny: false,
};
#[allow(clippy::mut_from_ref)]
pub fn a() -> &'static mut Arena {
    unsafe { &mut *std::ptr::addr_of_mut!(A) }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            CAP,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != BASE {
            eprintln!("harness error: cannot map the arena");
            std::process::exit(2);
        }
    }
    a().ready = true;
}
/// start a run
pub fn reset(reuse: bool) {
    let a = a();
    a.bump = BASE;
    a.reuse = reuse;
    a.free = [0; NCLASS];
    a.live_bytes = 0;
    a.live_blocks = 0;
    a.peak_bytes = 0;
    a.allocs = 0;
    a.max_request = 0;
    a.reused = 0;
    a.limit = usize::MAX;
    a.deny = false;
    a.enabled = true;
}
pub fn in_range(p: usize) -> bool {
    (BASE..BASE + CAP).contains(&p)
}
fn class(sz: usize) -> usize {
    // size classes are powers of two from 32
    let s = sz.max(32).next_power_of_two();
    (s.trailing_zeros() as usize - 5).min(NCLASS - 1)
}

pub struct SimAlloc;

#[cold]
fn bad(kind: &'static str, msg: String) -> ! {
    violation(kind, msg)
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let _o = out_lib();
    super::sched::point_alloc();
    let a = a();
    let size = l.size();
    a.max_request = a.max_request.max(size);
    if size > (CAP / 4) || size > a.limit {
        bad("huge-allocation", format!("the library asked for {size} bytes at once"));
    }
    if a.deny {
        bad("allocation", format!("the library asked for {size} bytes while the heap is exhausted (the process would abort)"));
    }
    a.allocs += 1;
    let align = l.align().max(16);
    let cap = if a.reuse { 1usize << (class(size) + 5) } else { (size + 15) & !15 };
    a.live_bytes += size;
    a.live_blocks += 1;
    a.peak_bytes = a.peak_bytes.max(a.live_bytes);
    if a.reuse && align == 16 {
        let c = class(size);
        if c < NCLASS - 1 && a.free[c] != 0 {
            let p = a.free[c] as usize;
            let h = &mut *((p - HDR) as *mut Hdr);
            a.free[c] = h.freelist;
            if std::slice::from_raw_parts(p as *const u8, h.size as usize).iter().any(|b| *b != 0xDD) {
                bad("write-after-free", format!("a freed block of {} bytes was written to", h.size));
            }
            h.state = LIVE;
            h.size = size as u64;
            h.align = l.align() as u64;
            a.reused += 1;
            std::ptr::write_bytes(p as *mut u8, 0xA5, size);
            ((p + size) as *mut u64).write_unaligned(CANARY);
            return p as *mut u8;
        }
    }
    let p = (a.bump + HDR + align - 1) & !(align - 1);
    let next = (p + cap + 16 + 15) & !15;
    if next > BASE + CAP - 4096 {
        bad("memory-exhausted", "more memory allocated than any correct run needs".into());
    }
    // blocks are found again by walking: store where this one's header is
    (a.bump as *mut u64).write((p - HDR) as u64);
    let h = (p - HDR) as *mut Hdr;
    // header may overlap the forwarding word only if it starts there; forwarding is then the magic itself
    h.write(Hdr {
        magic: MAGIC,
        state: LIVE,
        size: size as u64,
        align: l.align() as u64,
        next: next as u64,
        freelist: 0,
        cap: cap as u64,
    });
    a.bump = next;
    std::ptr::write_bytes(p as *mut u8, 0xA5, size);
    ((p + size) as *mut u64).write_unaligned(CANARY);
    p as *mut u8
}

unsafe fn arena_dealloc(p: *mut u8, l: Layout) {
    let _o = out_lib();
    super::sched::point_alloc();
    let a = a();
    let p = p as usize;
    let h = &mut *((p - HDR) as *mut Hdr);
    if h.magic != MAGIC {
        bad("bad-free", "memory freed that was never allocated at this address".into());
    }
    if h.state != LIVE {
        bad("double-free", format!("block of {} bytes freed twice", h.size));
    }
    if h.size != l.size() as u64 || h.align != l.align() as u64 {
        bad(
            "bad-layout",
            format!("block of {} bytes (align {}) freed as {} bytes (align {})", h.size, h.align, l.size(), l.align()),
        );
    }
    if ((p + l.size()) as *const u64).read_unaligned() != CANARY {
        bad("overflow", format!("write past the end of a block of {} bytes", h.size));
    }
    a.live_bytes -= l.size();
    a.live_blocks -= 1;
    h.state = FREE;
    std::ptr::write_bytes(p as *mut u8, 0xDD, l.size());
    if a.reuse && l.align() <= 16 {
        let c = class(l.size());
        if c < NCLASS - 1 && h.cap >= (1 << (c + 5)) {
            h.freelist = a.free[c];
            a.free[c] = p as u64;
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if is_in_lib() && a().enabled {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_range(p as usize) {
            arena_dealloc(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if is_in_lib() && a().enabled {
            let p = arena_alloc(l);
            std::ptr::write_bytes(p, 0, l.size());
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_range(p as usize) {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let n = arena_alloc(nl);
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            arena_dealloc(p, l);
            n
        } else {
            System.realloc(p, l, new)
        }
    }
}

/// end of run: everything freed, nothing written after it was freed, no overflow
pub fn finish(expect_empty: bool) {
    let a = a();
    a.enabled = false;
    let mut at = BASE;
    unsafe {
        while at < a.bump {
            let w = (at as *const u64).read();
            let hp = if in_range(w as usize) { w as usize } else { at };
            let h = &*(hp as *const Hdr);
            if h.magic != MAGIC {
                bad("overflow", "an allocation header was overwritten".into());
            }
            let p = hp + HDR;
            if h.state == LIVE {
                if ((p + h.size as usize) as *const u64).read_unaligned() != CANARY {
                    bad("overflow", format!("write past the end of a block of {} bytes", h.size));
                }
                if expect_empty {
                    bad(
                        "leak",
                        format!("{} block(s), {} bytes never freed, first of {} bytes", a.live_blocks, a.live_bytes, h.size),
                    );
                }
            } else {
                let s = std::slice::from_raw_parts(p as *const u8, h.size as usize);
                if s.iter().any(|b| *b != 0xDD) {
                    bad("write-after-free", format!("a freed block of {} bytes was written to", h.size));
                }
            }
            at = h.next as usize;
        }
    }
}
