//! The simulator's allocator. Allocations made while the program under test runs (`TRACK`) come from a fixed
//! arena: red zones around every block, no reuse within a run, exact-once release; everything else is the
//! system allocator's. `check` validates an access against the arena.

use crate::{bit, count, violation, Cnt};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x10_0000_0000;
pub const SIZE: usize = 16 << 20;
/// race detection covers that many bytes of a memory-mapped file
pub const VM_CELLS: usize = if cfg!(feature = "vm") { 256 << 10 } else { 0 };
const RZ: usize = 128;
const MAXB: usize = 1 << 16;

pub static mut TRACK: bool = false;
static mut INIT: bool = false;
static mut TOP: usize = BASE;
/// per arena byte: 0 nothing/red zone, 1 live, 2 freed
static mut STATE: *mut u8 = core::ptr::null_mut();

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    /// created by the program under test (not by the driver for itself)
    pub tag: u32,
}

static mut BLK: [Block; MAXB] = [Block { start: 0, size: 0, align: 0, live: false, tag: 0 }; MAXB];
static mut NB: usize = 0;
static mut LIVE: usize = 0;

pub struct SimAlloc;

pub fn sys_mmap(addr: usize, len: usize, flags: i32) -> usize {
    unsafe {
        let r = libc::syscall(libc::SYS_mmap, addr, len, libc::PROT_READ | libc::PROT_WRITE, flags, -1i32, 0usize);
        if r < 0 && r > -4096 {
            libc::_exit(2);
        }
        r as usize
    }
}

pub fn init() {
    unsafe {
        if INIT {
            return;
        }
        let a = sys_mmap(BASE, SIZE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE);
        assert_eq!(a, BASE);
        STATE = sys_mmap(0, SIZE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as *mut u8;
        INIT = true;
    }
}

pub(crate) fn reset() {
    unsafe {
        init();
        TRACK = false;
        let used = TOP - BASE;
        core::ptr::write_bytes(STATE, 0, used);
        TOP = BASE;
        NB = 0;
        LIVE = 0;
    }
}

#[inline(always)]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

#[inline(always)]
pub fn used() -> usize {
    unsafe { TOP - BASE }
}

unsafe fn arena_alloc(size: usize, align: usize, zero: bool) -> *mut u8 {
    let a = align.max(16);
    let start = (TOP + RZ + a - 1) & !(a - 1);
    let end = start + size + RZ;
    if end > BASE + SIZE || NB == MAXB {
        // nothing wrong with that by itself: the run ends here
        crate::fiber::too_long();
    }
    TOP = end;
    BLK[NB] = Block { start, size, align, live: true, tag: 0 };
    NB += 1;
    LIVE += 1;
    core::ptr::write_bytes(STATE.add(start - BASE), 1, size);
    core::ptr::write_bytes(start as *mut u8, if zero { 0 } else { 0xA5 }, size);
    crate::tsan::on_alloc(start, size);
    count(Cnt::allocs, 1);
    start as *mut u8
}

unsafe fn arena_free(p: usize, l: Layout) {
    // (blocks lie in the order of their creation)
    if let Ok(i) = (&*core::ptr::addr_of!(BLK))[..NB].binary_search_by(|b| b.start.cmp(&p)) {
        if !BLK[i].live {
            violation(bit(7) | bit(17) | bit(8) | bit(9), "memory released twice (double free)");
        }
        if BLK[i].size != l.size() || BLK[i].align != l.align() {
            TRACK = false;
            violation(bit(7) | bit(17) | bit(8) | bit(18), &format!(
                "{} bytes (aligned to {}) are released of a block of {} bytes (aligned to {})", l.size(), l.align(), BLK[i].size, BLK[i].align));
        }
        crate::tsan::on_free(p, BLK[i].size);
        BLK[i].live = false;
        LIVE -= 1;
        core::ptr::write_bytes(STATE.add(p - BASE), 2, BLK[i].size);
        // a freed block is filled so that stale reads through uninstrumented code are visible
        core::ptr::write_bytes(p as *mut u8, 0xDD, BLK[i].size);
        count(Cnt::frees, 1);
        return;
    }
    violation(bit(7) | bit(17) | bit(6), "release of memory that was never allocated (not the start of a block)");
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TRACK { arena_alloc(l.size(), l.align(), false) } else { System.alloc(l) }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if TRACK { arena_alloc(l.size(), l.align(), true) } else { System.alloc_zeroed(l) }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) { arena_free(p as usize, l) } else { System.dealloc(p, l) }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) || TRACK {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// Validate an access by the program under test; out of line part.
#[inline(always)]
pub fn check(a: usize, n: usize, write: bool) {
    unsafe {
        let s = STATE.add(a - BASE);
        let mut i = 0;
        while i < n {
            if *s.add(i) != 1 {
                bad_access(a + i, a, n, write);
            }
            i += 1;
        }
    }
}

#[cold]
#[inline(never)]
unsafe fn bad_access(byte: usize, a: usize, n: usize, write: bool) -> ! {
    let st = *STATE.add(byte - BASE);
    let what = if write { "write" } else { "read" };
    crate::tsan::MODE = crate::tsan::Mode::Off;
    TRACK = false;
    let b = (0..NB).map(|i| BLK[i]).min_by_key(|b| {
        if byte < b.start { b.start - byte } else { byte.saturating_sub(b.start + b.size) }
    });
    let d = b.map(|b| format!("{} bytes into a block of {} bytes", byte as i64 - b.start as i64, b.size)).unwrap_or_default();
    if st == 2 {
        violation(bit(7) | bit(17) | bit(8), &format!("use after free: {} of {} bytes, {}", what, n, d));
    }
    let _ = a;
    violation(bit(6) | bit(3) | bit(17) | bit(4), &format!("access outside the buffer's memory: {} of {} bytes, {}", what, n, d));
}

// ---------------------------------------------------------------------------------------------- driver's view

#[inline(never)]
pub fn live_blocks() -> usize {
    unsafe { LIVE }
}

#[inline(never)]
pub fn total_blocks() -> usize {
    unsafe { NB }
}

#[inline(never)]
pub fn block(i: usize) -> Block {
    unsafe { BLK[i] }
}

/// The live block containing [a, a+n), if any.
#[inline(never)]
pub fn block_of(a: usize, n: usize) -> Option<Block> {
    unsafe { (0..NB).map(|i| BLK[i]).find(|b| b.live && a >= b.start && a + n <= b.start + b.size) }
}

/// Copy bytes out without being an access of the simulated program.
#[inline(never)]
pub unsafe fn peek(a: usize, out: *mut u8, n: usize) {
    core::ptr::copy_nonoverlapping(a as *const u8, out, n);
}

#[inline(never)]
pub unsafe fn same(a: usize, b: usize, n: usize) -> bool {
    core::slice::from_raw_parts(a as *const u8, n) == core::slice::from_raw_parts(b as *const u8, n)
}

/// Begin / end of code whose allocations belong to the program under test.
#[inline(never)]
pub fn track(on: bool) {
    unsafe { TRACK = on }
}
