//! The simulated executor: a task is polled again only when one of its wakers was woken (or, as a fault, spuriously).
//! Wakers are told apart by task and generation, so that waking an outdated one does not count.

use core::task::{Context, RawWaker, RawWakerVTable, Waker};
use simrt::choice::{chance, choose};
use simrt::{count, fiber, mix, tr, tsan, Cnt};

use crate::hist::{noop_waker, WHO};

pub struct Exec {
    /// every poll comes with a new waker; only the latest one leads to the future
    pub strict: bool,
    /// per 16: a wake-up is delivered later
    pub delay: u32,
    /// per 16: polls without a wake-up
    pub spurious: u32,
    /// per 16: futures dropped while pending
    pub cancel: u32,
    pub gen: [u32; 3],
    pub fib: [usize; 3],
    pub parked: [bool; 3],
    pub queue: Vec<usize>,
    pub msgs: [Vec<(tsan::Msg, [u64; 3])>; 3],
    pub know_of: fn() -> [u64; 3],
    /// everybody drops what it awaits
    pub stop: u32,
    pub wakes: u64,
}

pub static mut EX: Option<Exec> = None;

#[allow(static_mut_refs)]
pub fn ex() -> Option<&'static mut Exec> {
    unsafe { EX.as_mut() }
}

static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);

unsafe fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn vt_drop(_: *const ()) {}
unsafe fn vt_wake(p: *const ()) {
    simrt::with_system(|| woken(p as usize));
}

fn woken(d: usize) {
    let (who, gen) = ((d & 3) - 1, (d >> 2) as u32);
    let Some(e) = ex() else { return };
    count(Cnt::wakes, 1);
    e.wakes += 1;
    if e.strict && gen != e.gen[who] {
        tr!("    (a waker of the {} that leads nowhere any more is woken)", WHO[who]);
        return;
    }
    // whoever wakes synchronises with the task that wakes up
    let k = (e.know_of)();
    e.msgs[who].push((tsan::hb_send(), k));
    if e.delay > 0 && chance(e.delay, 16) {
        count(Cnt::delayed_wakes, 1);
        tr!("    the {} is woken, the executor delays it", WHO[who]);
        e.queue.push(who);
        return;
    }
    tr!("    the {} is woken", WHO[who]);
    fiber::wake(e.fib[who]);
}

/// Delivers delayed wake-ups: some, or all.
pub fn deliver(all: bool) -> bool {
    let Some(e) = ex() else { return false };
    let mut any = false;
    while !e.queue.is_empty() && (all || chance(1, 4)) {
        let who = e.queue.remove(choose(e.queue.len() as u32) as usize);
        tr!("(delayed wake-up of the {})", WHO[who]);
        fiber::wake(e.fib[who]);
        any = true;
    }
    any
}

/// Calls `f` with the waker of the running task, in an executor run; else with one that does nothing.
pub fn with_cx<R>(who: usize, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    match ex() {
        None => {
            let w = noop_waker();
            f(&mut Context::from_waker(&w))
        }
        Some(e) => {
            if e.strict {
                e.gen[who] = e.gen[who].wrapping_add(1) & 0xff_ffff;
            }
            let d = (who + 1) | (e.gen[who] as usize) << 2;
            let w = unsafe { Waker::from_raw(RawWaker::new(d as *const (), &VT)) };
            f(&mut Context::from_waker(&w))
        }
    }
}

/// After Pending: the task waits for its wake-up. Returns what it has learnt from those who woke it.
pub fn wait(who: usize) -> Vec<[u64; 3]> {
    let e = ex().unwrap();
    if e.spurious > 0 && chance(e.spurious, 16) {
        count(Cnt::spurious_polls, 1);
        tr!("{}: spurious poll", WHO[who]);
        fiber::yield_retry();
    } else if e.parked[who] {
        unreachable!()
    } else {
        e.parked[who] = true;
        mix(0x9A + who as u64);
        if !fiber::woken() {
            tr!("{}: parked", WHO[who]);
        }
        if fiber::park() {
            ex().unwrap().parked[who] = false;
        } else {
            // woken while it was being polled: to the end of the queue
            ex().unwrap().parked[who] = false;
            fiber::yield_retry();
        }
    }
    let mut v = Vec::new();
    for (m, k) in ex().unwrap().msgs[who].drain(..) {
        tsan::hb_recv(&m);
        v.push(k);
    }
    v
}
