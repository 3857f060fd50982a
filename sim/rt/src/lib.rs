//! Simulator runtime: never compiled with access callbacks, provides every seam.
//!
//! * `choice`  - the one stream of choices (seeded, recorded, replayable);
//! * `fiber`   - simulated threads: user-space contexts inside one OS thread, scheduled by choices;
//! * `mem`     - the global allocator (arena with red zones, no reuse), per-byte shadow (liveness, vector clocks);
//! * `tsan`    - the callbacks rustc inserts for every access/atomic/fence: weak-memory model, race detection,
//!               scheduling points, step counting;
//! * `vm`      - mmap/munmap/memfd interposition with injected failures.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod choice;
pub mod fiber;
pub mod mem;
pub mod tsan;
#[cfg(feature = "vm")]
pub mod vm;

use std::fmt::Write as _;

// ---------------------------------------------------------------------------------------------- shared block

pub const MAX_CHOICES: usize = 1 << 20;
pub const MSG: usize = 4096;
pub const NCNT: usize = 64;

/// Shared (MAP_SHARED) between the parent and one worker.
#[repr(C)]
pub struct Shared {
    pub run: u64,
    pub busy: u64,
    pub n: u64,
    pub choices: [u32; MAX_CHOICES],
    pub vprops: u64,
    pub vmsg_len: u64,
    pub vmsg: [u8; MSG],
    pub counters: [u64; NCNT],
    /// text of the panic hook, useful when a worker aborts
    pub panic_len: u64,
    pub panic: [u8; 512],
}

pub static mut SH: *mut Shared = core::ptr::null_mut();

pub fn shared_new() -> *mut Shared {
    unsafe {
        let p = mem::sys_mmap(0, core::mem::size_of::<Shared>(), libc::MAP_SHARED | libc::MAP_ANONYMOUS);
        p as *mut Shared
    }
}

pub fn shared_set(p: *mut Shared) {
    unsafe { SH = p }
}

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

// ---------------------------------------------------------------------------------------------- counters

macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(usize)]
        pub enum Cnt { $($name),* }
        pub const CNT_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}

counters! {
    runs, steps, accesses, atomics, fences, api_calls, api_refused, ops,
    switches, stale_reads, freezes, thaws, calmed, marathons, absurd_requests, spin_yields,
    clone_panics, stage_drops, stage_crashes, resplits, cancelled_futures, spurious_polls, delayed_wakes, wakes,
    mmap_faults, mmap_calls, weak_runs, sc_runs, conc_runs, hist_runs, async_runs, ctor_runs, lockstep_runs,
    items_made, items_dropped, items_cloned, races_checked, frees, allocs,
    items_consumed, items_pushed, edits, wraps, detached_moves, resets, zero_slots_seen, futures_polled, hb_syncs,
    foreign, nontrivial, empty_requests, seam_slices, waits, drop_races, stale_cache_requests, dead_seen, migrated,
    ctor_panics_expected, parked, too_long,
}

#[inline(never)]
pub fn count(c: Cnt, n: u64) {
    unsafe {
        if !SH.is_null() {
            (*SH).counters[c as usize] += n;
        }
    }
}

// ---------------------------------------------------------------------------------------------- trace

pub static mut TRACE: bool = false;
/// trace lines are written here at once (they survive a crash of the simulated program)
pub static mut TRACE_FD: i32 = -1;
static mut TRACE_BUF: Vec<String> = Vec::new();

#[inline(never)]
pub fn tracing() -> bool {
    unsafe { TRACE }
}

#[inline(never)]
pub fn trace_line(s: String) {
    unsafe {
        if TRACE && TRACE_BUF.len() < 4000 {
            let mut l = String::new();
            let _ = write!(l, "[{:>5}] t{} {}", tsan::total_steps(), fiber::cur(), s);
            if TRACE_FD >= 0 {
                l.push('\n');
                libc::write(TRACE_FD, l.as_ptr() as _, l.len());
                l.pop();
            }
            TRACE_BUF.push(l);
        }
    }
}

#[macro_export]
macro_rules! tr {
    ($($t:tt)*) => { if $crate::tracing() { $crate::with_system(|| $crate::trace_line(format!($($t)*))) } };
}

pub fn take_trace() -> Vec<String> {
    unsafe { core::mem::take(&mut TRACE_BUF) }
}

/// Run `f` with the simulator's allocator and callbacks switched off for the current fiber.
#[inline(never)]
pub fn with_system<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let t = mem::TRACK;
        let m = tsan::MODE;
        mem::TRACK = false;
        tsan::MODE = tsan::Mode::Off;
        let r = f();
        mem::TRACK = t;
        tsan::MODE = m;
        r
    }
}

// ---------------------------------------------------------------------------------------------- hash of the run

pub static mut HASH: u64 = 0;

#[inline(never)]
pub fn mix(x: u64) {
    unsafe {
        HASH = (HASH ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        HASH ^= HASH >> 29;
    }
}

// ---------------------------------------------------------------------------------------------- violations

pub fn bit(p: u32) -> u64 {
    1 << p
}

/// Report a violation of the properties in `props` (bit n = Cn) and abandon the run. Never returns.
#[inline(never)]
pub fn violation(props: u64, msg: &str) -> ! {
    unsafe {
        mem::TRACK = false;
        tsan::MODE = tsan::Mode::Off;
        let s = sh();
        if s.vprops == 0 {
            s.vprops = props | (CTX & CTX_RAW) | (1 << 63);
            let b = msg.as_bytes();
            let n = b.len().min(MSG);
            s.vmsg[..n].copy_from_slice(&b[..n]);
            s.vmsg_len = n as u64;
        }
        if TRACE {
            trace_line(format!("VIOLATION {}", msg));
        }
        fiber::abandon()
    }
}

/// Properties added to every violation of this run (context set by the driver).
pub static mut CTX: u64 = 0;

/// The part of the context that also applies to violations found below the driver (memory, ledger of items):
/// the async forms, the vmem configuration, a second split.
pub const CTX_RAW: u64 = 1 << 14 | 1 << 17 | 1 << 18;

pub fn ctx_add(p: u64) {
    unsafe { CTX |= p }
}

pub fn ctx() -> u64 {
    unsafe { CTX }
}

pub fn ctx_set(p: u64) {
    unsafe { CTX = p }
}

// ---------------------------------------------------------------------------------------------- one run

pub struct RunCfg {
    pub seed: u64,
    pub replay: Option<Vec<u32>>,
}

pub struct RunOut {
    pub violated: bool,
    pub hash: u64,
}

/// Execute one simulated run: `f` is the body of the root fiber.
pub fn run(cfg: RunCfg, f: Box<dyn FnOnce()>) -> RunOut {
    unsafe {
        let s = sh();
        s.vprops = 0;
        s.vmsg_len = 0;
        s.panic_len = 0;
        CTX = 0;
        HASH = 0x1234_5678_9abc_def1;
        choice::reset(cfg.seed, cfg.replay);
        mem::reset();
        tsan::reset();
        #[cfg(feature = "vm")]
        vm::reset();
        fiber::run_root(f);
        mem::TRACK = false;
        tsan::MODE = tsan::Mode::Off;
        #[cfg(feature = "vm")]
        vm::cleanup();
        count(Cnt::runs, 1);
        if fiber::was_too_long() {
            count(Cnt::too_long, 1);
        }
        count(Cnt::steps, tsan::total_steps());
        RunOut { violated: s.vprops != 0, hash: HASH }
    }
}

pub fn violation_text() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.vmsg[..s.vmsg_len as usize]).into_owned()
}

pub fn panic_text() -> String {
    let s = sh();
    String::from_utf8_lossy(&s.panic[..(s.panic_len as usize).min(512)]).into_owned()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        unsafe {
            let t = mem::TRACK;
            let m = tsan::MODE;
            mem::TRACK = false;
            tsan::MODE = tsan::Mode::Off;
            if !SH.is_null() {
                let txt = info.to_string();
                let b = txt.as_bytes();
                let n = b.len().min(512);
                (&mut (*SH).panic)[..n].copy_from_slice(&b[..n]);
                (*SH).panic_len = n as u64;
            }
            mem::TRACK = t;
            tsan::MODE = m;
        }
    }));
}
