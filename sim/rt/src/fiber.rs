//! Simulated threads: contexts switched in user space, so the choice of who runs is always the simulator's.

use crate::{choice, count, mem, mix, tsan, Cnt};
use core::arch::naked_asm;

pub const MAXF: usize = 6;
const STACK: usize = 512 * 1024;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Unused, Ready, Parked, Done }

struct Fiber {
    st: St,
    sp: usize,
    stack: usize,
    body: Option<Box<dyn FnOnce()>>,
    track: bool,
    wake: bool,
    frozen: bool,
    prio: u64,
    api_at_freeze: u64,
    thaw_after: u64,
}

const NEWF: Fiber = Fiber {
    st: St::Unused, sp: 0, stack: 0, body: None, track: false, wake: false, frozen: false, prio: 0,
    api_at_freeze: 0, thaw_after: 0,
};

static mut F: [Fiber; MAXF] = [NEWF; MAXF];
static mut CUR: usize = 0;
static mut ROOT_SP: usize = 0;
static mut TOO_LONG: bool = false;
static mut API_DONE: u64 = 0;

/// Scheduling policy of the run.
#[derive(Clone, Copy, Debug)]
pub struct Policy {
    /// 0 random walk, 1 priorities with change points (PCT), 2 bursts, 3 always switch
    pub kind: u8,
    /// switch probability (per 64) for kinds 0
    pub p: u32,
    /// freeze probability per 4096 scheduling points (0 = never)
    pub freeze: u32,
    /// completed API calls of the others before a frozen fiber is thawed
    pub thaw: u64,
}

static mut POL: Policy = Policy { kind: 0, p: 16, freeze: 0, thaw: 0 };
static mut BURST: u64 = 0;
static mut DEADLOCK: bool = false;

#[unsafe(naked)]
unsafe extern "C" fn switch_ctx(_save: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "C" fn tramp() {
    // entered by `ret`; the stack is 16-byte aligned + 8
    naked_asm!("xor ebp, ebp", "and rsp, -16", "call {e}", "ud2", e = sym entry)
}

extern "C" fn entry() -> ! {
    unsafe {
        let me = CUR;
        let b = F[me].body.take().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
        tsan::MODE = tsan::MODE; // keep
        if r.is_err() {
            mem::TRACK = false;
            crate::violation(u64::MAX >> 1, &format!("unexpected panic in the simulated program: {}", crate::panic_text()));
        }
        finish()
    }
}

unsafe fn finish() -> ! {
    F[CUR].st = St::Done;
    F[CUR].track = false;
    tsan::fiber_done(CUR);
    if CUR == 0 {
        to_root();
    }
    pick_blocked();
    unreachable!()
}

unsafe fn to_root() -> ! {
    let mut dummy = 0usize;
    switch_ctx(&mut dummy, ROOT_SP);
    unreachable!()
}

/// Leave the run for good (after a violation).
pub(crate) unsafe fn abandon() -> ! {
    if ROOT_SP == 0 {
        eprintln!("simrt: violation outside a run: {}", crate::violation_text());
        libc::_exit(2);
    }
    to_root()
}

/// The simulator's own limits are reached: the run ends without a verdict.
pub fn too_long() -> ! {
    unsafe {
        TOO_LONG = true;
        mem::TRACK = false;
        tsan::MODE = tsan::Mode::Off;
        abandon()
    }
}

pub fn was_too_long() -> bool {
    unsafe { TOO_LONG }
}

unsafe fn prepare(i: usize, body: Box<dyn FnOnce()>) {
    let f = &mut F[i];
    if f.stack == 0 {
        f.stack = mem::sys_mmap(0, STACK, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE);
        libc::mprotect(f.stack as _, 4096, libc::PROT_NONE);
    }
    let mut sp = f.stack + STACK - 64;
    sp &= !15;
    let p = sp as *mut usize;
    // [r15 r14 r13 r12 rbx rbp ret]
    for k in 0..6 {
        *p.add(k) = 0;
    }
    *p.add(6) = tramp as *const () as usize;
    f.sp = sp;
    f.body = Some(body);
    f.st = St::Ready;
    f.track = false;
    f.wake = false;
    f.frozen = false;
    f.prio = 0;
}

pub(crate) fn run_root(f: Box<dyn FnOnce()>) {
    unsafe {
        for i in 0..MAXF {
            F[i].st = St::Unused;
            if let Some(b) = F[i].body.take() {
                core::mem::forget(b);
            }
        }
        TOO_LONG = false;
        DEADLOCK = false;
        API_DONE = 0;
        BURST = 0;
        LOW = 500;
        POL = Policy { kind: 0, p: 16, freeze: 0, thaw: 0 };
        CUR = 0;
        prepare(0, f);
        let to = F[0].sp;
        switch_ctx(&raw mut ROOT_SP, to);
        ROOT_SP = 0;
    }
}

#[inline(never)]
pub fn cur() -> usize {
    unsafe { CUR }
}

pub fn set_policy(p: Policy) {
    unsafe {
        POL = p;
        BURST = 0;
    }
}

/// Start a simulated thread (inherits the happens-before view of its creator).
#[inline(never)]
pub fn spawn(body: Box<dyn FnOnce()>) -> usize {
    unsafe {
        let i = (1..MAXF).find(|i| F[*i].st == St::Unused).expect("fibers");
        prepare(i, body);
        tsan::fiber_spawn(CUR, i);
        if POL.kind == 1 {
            F[i].prio = 1000 + choice::choose(1000) as u64;
        }
        i
    }
}

/// Wait for every simulated thread; afterwards everything they did happened before the caller.
/// Returns false if some threads are parked for ever.
#[inline(never)]
pub fn join_all() -> bool {
    unsafe {
        loop {
            let mut any = false;
            for i in 1..MAXF {
                if F[i].st == St::Ready {
                    any = true;
                }
            }
            if !any {
                break;
            }
            // root is never scheduled while threads run
            F[0].st = St::Parked;
            F[0].wake = false;
            let next = next_blocked();
            switch_to(next);
        }
        F[0].st = St::Ready;
        let mut all = true;
        for i in 1..MAXF {
            if F[i].st == St::Done {
                tsan::fiber_join(0, i);
                F[i].st = St::Unused;
            } else if F[i].st == St::Parked {
                all = false;
            }
        }
        all
    }
}

unsafe fn switch_to(i: usize) {
    if i == CUR {
        return;
    }
    let me = CUR;
    F[me].track = mem::TRACK;
    tsan::leave(me);
    CUR = i;
    mem::TRACK = F[i].track;
    tsan::enter_fiber(i);
    count(Cnt::switches, 1);
    mix(0x51 + ((me as u64) << 8) + ((i as u64) << 16));
    if crate::TRACE {
        let t = mem::TRACK;
        mem::TRACK = false;
        crate::trace_line(format!("<- switched in (from t{})", me));
        mem::TRACK = t;
    }
    let to = F[i].sp;
    switch_ctx(&raw mut F[me].sp, to);
}

unsafe fn cands(buf: &mut [usize; MAXF]) -> usize {
    let mut n = 0;
    if F[CUR].st == St::Ready && !F[CUR].frozen && CUR != 0 {
        buf[0] = CUR;
        n = 1;
    }
    for i in 1..MAXF {
        if i == CUR || F[i].st != St::Ready {
            continue;
        }
        if F[i].frozen {
            if API_DONE.saturating_sub(F[i].api_at_freeze) >= F[i].thaw_after {
                F[i].frozen = false;
                count(Cnt::thaws, 1);
            } else {
                continue;
            }
        }
        buf[n] = i;
        n += 1;
    }
    n
}

unsafe fn next_blocked() -> usize {
    let mut b = [0; MAXF];
    let mut n = cands(&mut b);
    if n == 0 {
        // everybody else finished or is parked: faults stop
        for i in 1..MAXF {
            if F[i].st == St::Ready && F[i].frozen {
                F[i].frozen = false;
                count(Cnt::thaws, 1);
                b[n] = i;
                n += 1;
            }
        }
    }
    if n == 0 {
        return 0;
    }
    b[choose_next(&b, n, true) as usize]
}

unsafe fn pick_blocked() {
    let next = next_blocked();
    if next == 0 {
        F[0].st = St::Ready;
    }
    switch_to(next);
}

unsafe fn choose_next(b: &[usize; MAXF], n: usize, forced: bool) -> u32 {
    let first_is_cur = b[0] == CUR && !forced;
    choice::choose_by(n as u32, |r| match POL.kind {
        1 => {
            let mut best = 0;
            for k in 1..n {
                if F[b[k]].prio > F[b[best]].prio {
                    best = k;
                }
            }
            best as u32
        }
        2 => {
            if first_is_cur && BURST > 0 {
                BURST -= 1;
                0
            } else {
                BURST = r() % 40;
                (r() % n as u64) as u32
            }
        }
        3 => {
            if first_is_cur { 1 + (r() % (n as u64 - 1)) as u32 } else { (r() % n as u64) as u32 }
        }
        _ => {
            if first_is_cur && (r() % 64) as u32 >= POL.p { 0 } else { (r() % n as u64) as u32 }
        }
    })
}

/// A point at which the scheduler may preempt the running thread.
#[inline(never)]
pub fn sched_point() {
    unsafe {
        if CUR == 0 || tsan::MODE != tsan::Mode::Conc {
            return;
        }
        let mut b = [0; MAXF];
        let n = cands(&mut b);
        if n <= 1 {
            return;
        }
        let m = tsan::MODE;
        let t = mem::TRACK;
        mem::TRACK = false;
        if POL.kind == 1 && choice::choose_by(2, |r| (r() % 24 == 0) as u32) == 1 {
            F[CUR].prio = r_low();
        }
        let mut k = choose_next(&b, n, false) as usize;
        if POL.freeze > 0 && choice::choose_by(2, |r| ((r() % 4096) < POL.freeze as u64) as u32) == 1 {
            // stall fault: this thread does not run again until the others completed `thaw` calls
            F[CUR].frozen = true;
            F[CUR].api_at_freeze = API_DONE;
            F[CUR].thaw_after = POL.thaw;
            count(Cnt::freezes, 1);
            if crate::TRACE {
                crate::trace_line("FAULT: stalled here".into());
            }
            if k == 0 {
                k = 1;
            }
        }
        mem::TRACK = t;
        tsan::MODE = m;
        if b[k] != CUR {
            switch_to(b[k]);
        }
    }
}

static mut LOW: u64 = 500;
unsafe fn r_low() -> u64 {
    LOW = if LOW == 0 { 500 } else { LOW - 1 };
    LOW
}

/// The driver's retry loops give the others a chance: fair, also under priorities.
#[inline(never)]
pub fn yield_retry() {
    unsafe {
        if CUR == 0 {
            return;
        }
        count(Cnt::spin_yields, 1);
        F[CUR].prio = r_low();
        let mut b = [0; MAXF];
        let n = cands(&mut b);
        if n <= 1 {
            // maybe only stalled ones are left: they resume
            if n == 1 && b[0] == CUR {
                let mut any = false;
                for i in 1..MAXF {
                    if i != CUR && F[i].st == St::Ready && F[i].frozen {
                        any = true;
                        F[i].thaw_after = F[i].thaw_after.min(API_DONE - F[i].api_at_freeze + 40);
                    }
                }
                let _ = any;
            }
            return;
        }
        // the next one in turn unless the seed says otherwise (a minimised schedule stays fair)
        let first = (0..n).find(|k| b[*k] > CUR).or_else(|| (0..n).find(|k| b[*k] != CUR)).unwrap_or(0);
        let k = (first + choice::choose(n as u32) as usize) % n;
        if b[k] == CUR {
            switch_to(b[first]);
        } else {
            switch_to(b[k]);
        }
    }
}

#[inline(never)]
pub fn api_done() {
    unsafe { API_DONE += 1 }
}

/// Calls into the program under test completed so far.
pub fn api_count() -> u64 {
    unsafe { API_DONE }
}

/// Other simulated threads that could still run (not finished, not parked).
#[inline(never)]
pub fn others_running() -> bool {
    unsafe { (1..MAXF).any(|i| i != CUR && F[i].st == St::Ready) }
}

/// Park the current simulated task until `wake(me)`; a wake-up that already happened is consumed (returns false).
#[inline(never)]
pub fn park() -> bool {
    unsafe {
        let me = CUR;
        if F[me].wake {
            F[me].wake = false;
            return false;
        }
        count(Cnt::parked, 1);
        F[me].st = St::Parked;
        pick_blocked();
        F[me].wake = false;
        true
    }
}

/// The current task has a wake-up it did not use yet.
#[inline(never)]
pub fn woken() -> bool {
    unsafe { F[CUR].wake }
}

#[inline(never)]
pub fn wake(i: usize) {
    unsafe {
        F[i].wake = true;
        if F[i].st == St::Parked {
            F[i].st = St::Ready;
        }
    }
}

#[inline(never)]
pub fn clear_wake() {
    unsafe { F[CUR].wake = false }
}

/// Ends a simulated thread's frozen state for everybody: "faults stop".
pub fn thaw_all() {
    unsafe {
        for f in F.iter_mut() {
            f.frozen = false;
        }
        POL.freeze = 0;
    }
}
