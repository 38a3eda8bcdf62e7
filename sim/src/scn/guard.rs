//! Memory for archive buffers, at fixed addresses between unmapped pages.
pub const BASE: usize = 0x5C00_0000_0000;
pub const SLOT: usize = 2 << 20;
pub const N: usize = 8;
const GAP: usize = 1 << 20;
const FILL: u8 = 0xE7;

pub fn init() {
    unsafe {
        let total = N * (SLOT + GAP) + GAP;
        let p = libc::mmap(BASE as *mut _, total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != BASE {
            eprintln!("harness error: cannot map the archive area");
            std::process::exit(2);
        }
        for i in 0..N {
            libc::mprotect(slot(i) as *mut _, SLOT, libc::PROT_READ | libc::PROT_WRITE);
        }
    }
}
fn slot(i: usize) -> usize {
    BASE + GAP + i * (SLOT + GAP)
}
pub fn in_guard(a: usize) -> bool {
    (BASE..BASE + N * (SLOT + GAP) + GAP).contains(&a)
}
/// which slot an address lies in
pub fn slot_of(a: usize) -> Option<usize> {
    (0..N).find(|i| (slot(*i)..slot(*i) + SLOT).contains(&a))
}
/// Copy bytes into slot i so that they end (or start) at an unmapped page. 16-byte aligned.
pub fn place(i: usize, bytes: &[u8], at_end: bool) -> &'static mut [u8] {
    assert!(bytes.len() + 64 <= SLOT);
    let s = slot(i);
    unsafe {
        let at = if at_end { (s + SLOT - bytes.len()) & !15 } else { s };
        let end = at + bytes.len();
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), at as *mut u8, bytes.len());
        // the bytes around the buffer that have to stay accessible hold no valid data
        let tail = (s + SLOT - end).min(256);
        std::ptr::write_bytes(end as *mut u8, FILL, tail);
        let head = (at - s).min(256);
        std::ptr::write_bytes((at - head) as *mut u8, FILL, head);
        std::slice::from_raw_parts_mut(at as *mut u8, bytes.len())
    }
}
/// the fill bytes after the buffer are as `place` left them
pub fn untouched(i: usize, buf: &[u8]) -> bool {
    let s = slot(i);
    let end = buf.as_ptr() as usize + buf.len();
    let tail = (s + SLOT - end).min(256);
    unsafe { std::slice::from_raw_parts(end as *const u8, tail).iter().all(|b| *b == FILL) }
}

static mut BUMP: usize = 0;
/// slots 5..8 as one store of buffers that live as long as the run
pub fn bump_reset() {
    unsafe { BUMP = 0 }
}
pub fn bump(bytes: &[u8]) -> Option<&'static [u8]> {
    unsafe {
        let n = (bytes.len() + 15) & !15;
        let (i, at) = (5 + BUMP / SLOT, BUMP % SLOT);
        if at + n > SLOT {
            BUMP = (BUMP / SLOT + 1) * SLOT;
            return if BUMP < 3 * SLOT { bump(bytes) } else { None };
        }
        if i >= N {
            return None;
        }
        let p = (slot(i) + at) as *mut u8;
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
        BUMP += n;
        Some(std::slice::from_raw_parts(p, bytes.len()))
    }
}
