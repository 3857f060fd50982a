//! Virtual-memory seam: mmap & co. as called by the program under test, at simulator-chosen addresses, with a page
//! table (which file page is visible where) and injected failures.

use crate::{bit, count, mem, violation, Cnt};
use libc::{c_char, c_int, c_void};

pub const BASE: usize = 0x20_0000_0000;
const SIZE: usize = 64 << 20;
const PG: usize = 4096;
const NP: usize = SIZE / PG;

#[derive(Clone, Copy)]
struct Page {
    st: u8,
    file: u16,
    off: u32,
}

static mut PT: [Page; NP] = [Page { st: 0, file: 0, off: 0 }; NP];
static mut TOP: usize = BASE;
static mut FILES: u16 = 0;
static mut FD_FILE: [u16; 1024] = [0; 1024];
static mut FD_OPEN: [bool; 1024] = [false; 1024];
static mut CALLS: u32 = 0;
static mut FAIL_AT: u32 = 0;
static mut RESERVED: bool = false;
static mut FIRED: bool = false;

fn err() -> *mut i32 {
    unsafe { libc::__errno_location() }
}

unsafe fn sysret(r: i64) -> i64 {
    r
}

unsafe fn raw_mmap(a: usize, n: usize, p: c_int, f: c_int, fd: c_int, off: i64) -> *mut c_void {
    sysret(libc::syscall(libc::SYS_mmap, a, n, p, f, fd, off)) as *mut c_void
}

pub(crate) fn reset() {
    unsafe {
        cleanup();
        CALLS = 0;
        FAIL_AT = 0;
        FIRED = false;
        FILES = 0;
    }
}

/// Remove every mapping and descriptor the run left behind.
pub(crate) fn cleanup() {
    unsafe {
        if TOP > BASE {
            libc::syscall(libc::SYS_munmap, BASE, TOP - BASE);
            for p in PT[..(TOP - BASE) / PG].iter_mut() {
                *p = Page { st: 0, file: 0, off: 0 };
            }
        }
        TOP = BASE;
        RESERVED = true;
        for fd in 0..1024 {
            if FD_OPEN[fd] {
                libc::syscall(libc::SYS_close, fd);
                FD_OPEN[fd] = false;
            }
        }
    }
}

/// Make the n-th (1-based) memory-mapping related system call of the run fail; 0 = none.
pub fn fail_at(n: u32) {
    unsafe {
        FAIL_AT = n;
        CALLS = 0;
        FIRED = false;
    }
}

pub fn fault_fired() -> bool {
    unsafe { FIRED }
}

pub fn mapped_pages() -> usize {
    unsafe { PT[..(TOP - BASE) / PG].iter().filter(|p| p.st == 1).count() }
}

unsafe fn inject() -> bool {
    CALLS += 1;
    count(Cnt::mmap_calls, 1);
    if CALLS == FAIL_AT {
        FIRED = true;
        count(Cnt::mmap_faults, 1);
        if crate::TRACE {
            crate::with_system(|| crate::trace_line(format!("FAULT: memory-mapping call #{} fails", CALLS)));
        }
        return true;
    }
    false
}

#[inline(always)]
pub fn covers(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

/// Validate an access; the result identifies the accessed file byte.
#[inline(always)]
pub(crate) fn check(a: usize, n: usize, write: bool) -> usize {
    unsafe {
        let p0 = (a - BASE) / PG;
        let p1 = (a + n - 1 - BASE) / PG;
        for p in p0..=p1 {
            if p >= NP || PT[p].st != 1 {
                bad(p, write);
            }
        }
        let p = PT[p0];
        ((p.file as usize) << 24) + (p.off as usize) * PG + (a & (PG - 1))
    }
}

#[cold]
#[inline(never)]
unsafe fn bad(p: usize, write: bool) -> ! {
    crate::tsan::MODE = crate::tsan::Mode::Off;
    mem::TRACK = false;
    let w = if write { "write" } else { "read" };
    if p < NP && PT[p].st == 2 {
        violation(bit(7) | bit(17) | bit(8), &format!("use after unmap: {} of page {}", w, p));
    }
    violation(bit(6) | bit(17) | bit(3), &format!("access outside the mapped views: {} of page {}", w, p));
}

/// Shadow cell of a file byte.
pub(crate) fn cell(x: usize) -> usize {
    x & 0xff_ffff
}

/// Are [a, a+n) and [b, b+n) views of the same file bytes?
pub fn mirrored(a: usize, b: usize, n: usize) -> bool {
    unsafe {
        let mut o = 0;
        while o < n {
            let (x, y) = (a + o, b + o);
            if !covers(x) || !covers(y) {
                return false;
            }
            let (p, q) = (PT[(x - BASE) / PG], PT[(y - BASE) / PG]);
            if p.st != 1 || q.st != 1 || p.file != q.file || p.off != q.off || (x & (PG - 1)) != (y & (PG - 1)) {
                return false;
            }
            o += PG;
        }
        true
    }
}

/// Are all pages of [a, a+n) mapped?
pub fn is_mapped(a: usize, n: usize) -> bool {
    unsafe {
        if n == 0 {
            return true;
        }
        covers(a) && covers(a + n - 1) && ((a - BASE) / PG..=(a + n - 1 - BASE) / PG).all(|p| PT[p].st == 1)
    }
}

unsafe fn active() -> bool {
    mem::TRACK
}

#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    if !active() {
        return raw_mmap(addr as usize, len, prot, flags, fd, off);
    }
    if inject() {
        *err() = libc::ENOMEM;
        return libc::MAP_FAILED;
    }
    let fixed = flags & libc::MAP_FIXED != 0;
    let plen = (len + PG - 1) / PG * PG;
    let a = if fixed {
        addr as usize
    } else {
        // one unmapped page between mappings
        TOP + PG
    };
    if len == 0 {
        *err() = libc::EINVAL;
        return libc::MAP_FAILED;
    }
    if fixed && !covers(a) {
        violation(bit(17), "MAP_FIXED mapping over memory the buffer does not own");
    }
    if fixed && (a + plen > TOP || (0..plen / PG).any(|k| PT[(a - BASE) / PG + k].st != 1)) {
        violation(bit(17), "MAP_FIXED mapping outside the buffer's own reservation");
    }
    if a + plen > BASE + SIZE {
        crate::fiber::too_long();
    }
    let r = raw_mmap(a, len, prot, flags | libc::MAP_FIXED, fd, off);
    if r == libc::MAP_FAILED {
        return r;
    }
    if !fixed {
        TOP = a + plen;
    }
    let anon = flags & libc::MAP_ANONYMOUS != 0;
    let private = flags & libc::MAP_PRIVATE != 0;
    let file = if anon || private || fd < 0 {
        FILES += 1;
        FILES
    } else {
        FD_FILE[fd as usize & 1023]
    };
    for k in 0..plen / PG {
        PT[(a - BASE) / PG + k] = Page {
            st: if prot == libc::PROT_NONE { 3 } else { 1 },
            file,
            off: ((off as usize) / PG + k) as u32,
        };
        if fixed || prot != libc::PROT_NONE {
            PT[(a - BASE) / PG + k].st = 1;
        } else {
            // a reservation: owned, but accesses fault; MAP_FIXED may replace it
            PT[(a - BASE) / PG + k].st = 1;
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    mmap(addr, len, prot, flags, fd, off)
}

#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> c_int {
    let a = addr as usize;
    if covers(a) {
        let plen = (len + PG - 1) / PG * PG;
        for k in 0..plen / PG {
            let p = (a - BASE) / PG + k;
            if p >= NP || PT[p].st != 1 {
                violation(bit(17) | bit(7), "munmap of a page that is not mapped (twice, or too much)");
            }
            PT[p].st = 2;
            // the page stays reserved (never reused within the run), but its contents are gone
        }
        return libc::syscall(libc::SYS_mmap, a, plen, libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE, -1i32, 0usize).min(0) as c_int;
    }
    if active() && len > 0 {
        violation(bit(17) | bit(7), "munmap of memory the buffer never mapped");
    }
    libc::syscall(libc::SYS_munmap, addr, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mremap(addr: *mut c_void, old: usize, new: usize, flags: c_int, dst: *mut c_void) -> *mut c_void {
    if !active() || !covers(addr as usize) {
        return libc::syscall(libc::SYS_mremap, addr, old, new, flags, dst) as *mut c_void;
    }
    if inject() {
        *err() = libc::ENOMEM;
        return libc::MAP_FAILED;
    }
    let a = addr as usize;
    let plen = (new + PG - 1) / PG * PG;
    let d = if flags & libc::MREMAP_FIXED != 0 { dst as usize } else { TOP + PG };
    let r = libc::syscall(libc::SYS_mremap, addr, old, new, flags | libc::MREMAP_FIXED | libc::MREMAP_MAYMOVE, d) as *mut c_void;
    if r == libc::MAP_FAILED {
        return r;
    }
    if flags & libc::MREMAP_FIXED == 0 {
        TOP = d + plen;
    }
    for k in 0..plen / PG {
        let src = PT[(a - BASE) / PG + k];
        PT[(d - BASE) / PG + k] = src;
        if old != 0 {
            PT[(a - BASE) / PG + k].st = 2;
        }
    }
    r
}

unsafe fn opened(fd: i64) -> c_int {
    if fd >= 0 && fd < 1024 {
        FILES += 1;
        FD_FILE[fd as usize] = FILES;
        FD_OPEN[fd as usize] = true;
    }
    fd as c_int
}

#[no_mangle]
pub unsafe extern "C" fn memfd_create(name: *const c_char, flags: u32) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_memfd_create, name, flags) as c_int;
    }
    if inject() {
        *err() = libc::EMFILE;
        return -1;
    }
    opened(libc::syscall(libc::SYS_memfd_create, name, flags))
}

/// shm_open is simulated with a memfd (the sandbox may have no /dev/shm).
#[no_mangle]
pub unsafe extern "C" fn shm_open(name: *const c_char, _oflag: c_int, _mode: u32) -> c_int {
    memfd_create(name, 0)
}

#[no_mangle]
pub unsafe extern "C" fn shm_unlink(_name: *const c_char) -> c_int {
    0
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    if active() && inject() {
        *err() = libc::ENOSPC;
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    ftruncate(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && fd < 1024 {
        FD_OPEN[fd as usize] = false;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
