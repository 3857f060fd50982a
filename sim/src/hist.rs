//! Single-threaded histories against a reference model. One model, any number of worlds executing the same history
//! in lock step (one world = plain checking, several = every variant and form at once).

use crate::builder;
use core::task::Context;
use simcore::items;
use simcore::stage::{Form, Get, Obs, Op, Res, Stage, Touch};
use simcore::world::*;
use simrt::choice::{chance, choose, weighted};
use simrt::{bit, count, ctx, ctx_add, mem, mix, tr, tsan, Cnt};

pub const P: usize = 0;
pub const W: usize = 1;
pub const C: usize = 2;
pub const WHO: [&str; 3] = ["producer", "worker", "consumer"];

pub const fn b(p: &[u32]) -> u64 {
    let mut r = 0;
    let mut i = 0;
    while i < p.len() {
        r |= 1 << p[i];
        i += 1;
    }
    r
}

pub fn fail(props: u64, msg: String) -> ! {
    simrt::violation(props | ctx(), &msg)
}

/// A failure of accounting (not of positions): the context of reset_index and of detached moves is not to blame.
pub fn fail_ledger(props: u64, msg: String) -> ! {
    simrt::violation(props, &msg)
}

/// Classes of operations; weights of a run are the focus' weights, some switched off (swarm).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Cl {
    Push, PushInit, PushS, PushSI, NextMut, NextInit, NextSlices, One, Exact, AvailS, Mul, Adv, Avail, Wait, Pop, PopMove,
    CopyItem, CloneItem, CopyS, CloneS, PeekOne, PeekN, PeekAvail, Reset, Detach, ToAsync, Drop, GoBack, SetIdx, DReset, Sync,
    Attach, FStart, FPoll, FDrop, ToSync,
}
pub const NCL: usize = 36;
use Cl::*;
const ALL: [Cl; NCL] = [
    Push, PushInit, PushS, PushSI, NextMut, NextInit, NextSlices, One, Exact, AvailS, Mul, Adv, Avail, Wait, Pop, PopMove, CopyItem,
    CloneItem, CopyS, CloneS, PeekOne, PeekN, PeekAvail, Reset, Detach, ToAsync, Drop, GoBack, SetIdx, DReset, Sync, Attach, FStart,
    FPoll, FDrop, ToSync,
];

pub type Weights = [u32; NCL];

pub fn base_weights() -> Weights {
    let mut w = [10; NCL];
    let mut set = |c: Cl, x: u32| w[c as usize] = x;
    set(Adv, 4);
    set(Avail, 3);
    set(Wait, 1);
    set(Reset, 1);
    set(Detach, 2);
    set(ToAsync, 1);
    set(Drop, 1);
    set(FStart, 12);
    set(FPoll, 16);
    set(FDrop, 3);
    set(ToSync, 2);
    set(Attach, 4);
    set(Sync, 4);
    set(DReset, 3);
    w
}

#[derive(Clone)]
pub struct Focus {
    pub w: Weights,
    pub items: &'static [ItemKind],
    pub variants: &'static [Variant],
    pub ctors: &'static [Ctor],
    pub max_len: u32,
    pub max_ops: u32,
    /// per 16
    pub worker: u32,
    pub clone_faults: u32,
    /// probability (per 16) that the history starts from the async split
    pub asplit: u32,
    pub lockstep: bool,
    /// lockstep of one variant with its own async forms
    pub twin: bool,
    pub resplit: u32,
    /// probability (per 1024) of a long buffer handled in large slices
    pub big: u32,
    pub mmap_faults: u32,
    /// probability (per 1024) of very many rounds of the same operations
    pub laps: u32,
}

pub const ALL_ITEMS: &[ItemKind] = &[ItemKind::U32, ItemKind::Trk, ItemKind::B3, ItemKind::P2, ItemKind::Pad, ItemKind::U8, ItemKind::Spa, ItemKind::Big];

impl Focus {
    pub fn new() -> Focus {
        Focus {
            w: base_weights(),
            items: ALL_ITEMS,
            variants: variants(),
            ctors: &[Ctor::From, Ctor::From, Ctor::Default, Ctor::Zeroed],
            max_len: 9,
            max_ops: 70,
            worker: 9,
            clone_faults: 1,
            asplit: 2,
            lockstep: false,
            twin: false,
            resplit: 8,
            big: 5,
            mmap_faults: 0,
            laps: 1,
        }
    }
    pub fn with(mut self, v: &[(Cl, u32)]) -> Focus {
        for (c, x) in v {
            self.w[*c as usize] = *x;
        }
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Slot {
    /// all-zero or vacated: may only be written by `*_init`
    Empty,
    Occ { val: u64, uid: u32 },
    /// after an injected panic inside a multi-slot write: old or new, to be found out
    Either { old: Option<(u64, u32)>, new: u64 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum FormMode {
    Plain,
    DetWrap,
    AsyncWrap,
    /// split into async iterators, which stay async
    AsyncSplit,
}

struct Inst {
    v: Variant,
    mode: FormMode,
    world: Box<dyn World>,
    st: [Option<Box<dyn Stage>>; 3],
    base: usize,
    blocks: usize,
    uids: Vec<u32>,
}

pub struct Hist {
    len: usize,
    item: ItemKind,
    size: usize,
    mask: u64,
    tracked: bool,
    vmem: bool,
    worker: bool,
    loc: [u64; 3],
    publ: [u64; 3],
    alive: [bool; 3],
    form: [Form; 3],
    fut: [Option<Op>; 3],
    slots: Vec<Slot>,
    seq: u64,
    insts: Vec<Inst>,
    heap: bool,
    w: Weights,
    faults: u32,
    next: Option<(usize, Op)>,
    consumed: u64,
    waker_kind: u32,
    /// work index is unspecified (two-stage session)
    nops: u32,
    resets: bool,
    was_zeroed: bool,
    /// nothing more can be said about the contents
    lost: bool,
    /// largest number of items handled by one operation
    cap: usize,
}

pub fn noop_waker() -> core::task::Waker {
    use core::task::{RawWaker, RawWakerVTable, Waker};
    fn c(p: *const ()) -> RawWaker {
        RawWaker::new(p, &VT)
    }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }
}

pub fn with_noop_cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = noop_waker();
    f(&mut Context::from_waker(&w))
}

/// Does the crate offer the split into async iterators for this buffer (in this configuration)?
fn has_async_split(v: Variant) -> bool {
    match v {
        #[cfg(not(feature = "cfg-noalloc"))]
        Variant::ConcHeap => true,
        #[cfg(feature = "cfg-noalloc")]
        Variant::ConcStack => true,
        _ => false,
    }
}

pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u32) as usize]
}

/// One simulated history.
pub fn run(f: &Focus) {
    tsan::set_mode(tsan::Mode::Single);
    count(if f.lockstep { Cnt::lockstep_runs } else { Cnt::hist_runs }, 1);
    items::ledger_reset();
    tsan::set_limit(u64::MAX);
    let vmem = cfg!(feature = "cfg-vmem");
    if vmem {
        ctx_add(bit(17));
    }

    // ---- the buffer
    let v0 = pick(f.variants);
    let item = loop {
        let i = pick(f.items);
        if items_of(v0).contains(&i) && (!f.lockstep || f.twin || matches!(i, ItemKind::U32 | ItemKind::Trk)) {
            break i;
        }
        if f.items.iter().all(|i| !items_of(v0).contains(i)) {
            break ItemKind::U32;
        }
    };
    let mut ctor = pick(f.ctors);
    let any_stack = !v0.heap() || (f.lockstep && !f.twin && f.variants.iter().any(|v| !v.heap()));
    if any_stack && ctor == Ctor::Default && !item.copy() {
        ctor = Ctor::From;
    }
    let big = !any_stack && !(f.lockstep && !f.twin) && choose(1024) >= 1024 - f.big;
    let want = if any_stack {
        STACK_N[choose(STACK_N.len() as u32) as usize]
    } else if vmem {
        1 + choose(2 * 4096) as usize
    } else if big {
        match weighted(&[7, 7, 2]) {
            0 => 65 + choose(1200) as usize,
            // (indices of more than 16 bits)
            2 if item.size() <= 8 => 65_534 + choose(2000) as usize,
            _ => [100, 128, 255, 256, 257, 512, 1000, 1024, 1025, 4096][choose(10) as usize],
        }
    } else {
        match weighted(&[12, 3, 1]) {
            0 => 1 + choose(f.max_len.min(6)) as usize,
            1 => 1 + choose(f.max_len) as usize,
            _ => 1 + choose(64) as usize,
        }
    };
    let want = if vmem && ctor == Ctor::From { want.div_ceil(4096) * 4096 } else { want };
    let slack = if ctor == Ctor::From { choose(4) as usize } else { 0 };
    let worker = chance(f.worker, 16);
    let mut split = Split { worker, asynk: chance(f.asplit, 16) };

    // ---- worlds
    let mut plan: Vec<(Variant, FormMode)> = vec![(v0, FormMode::Plain)];
    if f.lockstep {
        plan.clear();
        split.asynk = false;
        if f.twin {
            plan.push((v0, FormMode::Plain));
            plan.push((v0, FormMode::AsyncWrap));
            if has_async_split(v0) {
                plan.push((v0, FormMode::AsyncSplit));
            }
        } else {
            for v in f.variants {
                plan.push((*v, FormMode::Plain));
            }
            plan.push((pick(f.variants), FormMode::DetWrap));
            plan.push((pick(f.variants), FormMode::AsyncWrap));
            if let Some(v) = f.variants.iter().find(|v| has_async_split(**v)) {
                plan.push((*v, FormMode::AsyncSplit));
            }
        }
    }
    #[cfg(feature = "cfg-vmem")]
    let vfault = if f.mmap_faults > 0 && chance(f.mmap_faults, 16) { 1 + choose(8) } else { 0 };
    let mut insts: Vec<Inst> = Vec::new();
    let mut len = want;
    for (v, mode) in plan {
        tr!("build {:?} of {:?}, {:?}({}), spare capacity {}", v, item, ctor, want, slack);
        #[cfg(feature = "cfg-vmem")]
        simrt::vm::fail_at(vfault);
        let r = builder(v, item)(v, ctor, want, slack);
        #[cfg(feature = "cfg-vmem")]
        {
            let fired = simrt::vm::fault_fired();
            simrt::vm::fail_at(0);
            if fired {
                // a failed system call: an error must surface as a panic, nothing may be leaked or half-built
                match r {
                    Ok(mut w) => {
                        // (recovered: must be a working buffer, checked like any other)
                        let _ = &mut w;
                        insts.push(Inst { v, mode, world: w, st: [None, None, None], base: 0, blocks: 0, uids: vec![] });
                        break;
                    }
                    Err(_) => {
                        // (what a failed construction leaves behind is nothing the properties speak about)
                        tr!("construction failed: {} items, {} pages left", items::ledger_live(), simrt::vm::mapped_pages());
                        return;
                    }
                }
            }
        }
        match r {
            Ok(w) => insts.push(Inst { v, mode, world: w, st: [None, None, None], base: 0, blocks: 0, uids: vec![] }),
            Err(r) => fail(b(&[18]), format!("constructing {:?} {:?} of length {} failed: {:?} ({})", v, ctor, want, r, simrt::panic_text())),
        }
    }
    if vmem {
        len = want.div_ceil(4096) * 4096;
    }
    let nblocks = mem::live_blocks();
    let mut slots = Vec::with_capacity(len);
    for k in 0..len {
        slots.push(match ctor {
            Ctor::Zeroed => Slot::Empty,
            Ctor::Default => Slot::Occ { val: 0, uid: 0 },
            Ctor::From => Slot::Occ { val: init_val(Ctor::From, k) & item.mask(), uid: 0 },
        });
    }
    // swarm: some operation classes are switched off in this run
    let mut w = f.w;
    for x in w.iter_mut() {
        if chance(1, 5) {
            *x = 0;
        }
    }
    let heap = insts[0].v.heap();
    let mut h = Hist {
        len, item, size: item.size(), mask: item.mask(), tracked: !item.copy(), vmem, worker,
        loc: [0; 3], publ: [0; 3], alive: [false; 3], form: [Form::Gone; 3], fut: [None, None, None],
        slots, seq: 0, insts, heap, w, faults: f.clone_faults, next: None, consumed: 0, waker_kind: 0, nops: 0, resets: false,
        was_zeroed: ctor == Ctor::Zeroed,
        lost: false,
        cap: if big { 10_000 } else { 60 },
    };
    h.check_ledger("construction", b(&[18]));
    if chance(1, 24) {
        tr!("the buffer is released without ever being split");
        h.finish(nblocks);
        return;
    }

    // ---- sessions
    let sessions = if !h.insts.iter().any(|i| i.v.heap()) && chance(f.resplit, 16) { 2 + choose(2) } else { 1 };
    let mut left = if big { 8 + choose(60) } else { 8 + choose(f.max_ops) };
    for s in 0..sessions {
        if h.lost {
            break;
        }
        if s > 0 {
            split = Split { worker: chance(8, 16), asynk: !f.lockstep && chance(f.asplit, 16) };
            count(Cnt::resplits, 1);
            ctx_add(bit(18));
        }
        if !h.session(split, s > 0) {
            split.asynk = false;
            h.session(split, s > 0);
        }
        let n = if s + 1 == sessions { left } else { (left / 2).max(4) };
        if f.laps > 0 && h.insts.len() == 1 && h.len <= 64 && h.form[P] == Form::Sync && chance(f.laps, 1024) {
            let laps = if chance(1, 12) { 66_000 + choose(1000) } else { 240 + choose(500) };
            h.marathon(laps);
        }
        if big && (h.len > 60_000 || chance(1, 2)) {
            h.rush();
        }
        h.operate(n);
        left -= n.min(left - 4);
        if s + 1 < sessions || chance(1, 2) {
            h.drop_all();
        }
        if !h.insts[0].st.iter().all(|s| s.is_none()) {
            h.drop_all();
        }
    }
    h.finish(nblocks);
    if h.consumed > 0 || h.nops > 6 {
        count(Cnt::nontrivial, 1);
    }
}

impl Hist {
    fn ahead(&self, who: usize) -> u64 {
        match who {
            P => self.publ[C] + self.len as u64 - 1,
            W => self.publ[P],
            _ => if self.worker { self.publ[W] } else { self.publ[P] },
        }
    }
    fn avail(&self, who: usize) -> usize {
        (self.ahead(who) - self.loc[who]) as usize
    }
    fn ring(&self, pos: u64) -> usize {
        (pos % self.len as u64) as usize
    }
    fn occ_run(&self, who: usize, max: usize) -> usize {
        (0..max).take_while(|k| matches!(self.slots[self.ring(self.loc[who] + *k as u64)], Slot::Occ { .. })).count()
    }
    fn fresh(&mut self) -> u64 {
        self.seq += 1;
        self.seq & self.mask
    }

    // --------------------------------------------------------------------------------------------- sessions

    fn session(&mut self, s: Split, again: bool) -> bool {
        tr!("split: {}{}", if s.worker { "three stages" } else { "two stages" }, if s.asynk { ", async" } else { "" });
        let old_p = self.publ[P];
        let old_c = self.publ[C];
        for i in self.insts.iter_mut() {
            let s = Split { asynk: s.asynk || i.mode == FormMode::AsyncSplit, ..s };
            match i.world.split(s) {
                None => return false,
                Some(Err(r)) => fail(b(&[18]), format!("split failed: {:?} ({})", r, simrt::panic_text())),
                Some(Ok(st)) => i.st = [st.p, st.w, st.c],
            }
        }
        if s.asynk {
            ctx_add(bit(14));
        }
        self.worker = s.worker;
        self.next = None;
        // what the previous session's iterators did is not to blame any more
        simrt::ctx_set(ctx() & !b(&[11, 12]));
        self.alive = [true, s.worker, true];
        let fm = if s.asynk { Form::Async } else { Form::Sync };
        self.form = [fm, if s.worker { fm } else { Form::Gone }, fm];
        self.fut = [None, None, None];
        if again {
            // fresh (nothing in flight) or preserving some of what was pushed and not yet consumed
            let l = self.insts[0].st[P].as_mut().unwrap().look().unwrap();
            let n = self.len as u64;
            let pr = b(&[18, 4]);
            let work = if s.worker { l.w } else { l.c };
            let inw = (l.p as u64 + n - work as u64) % n;
            let inc = (work as u64 + n - l.c as u64) % n;
            let fl = if s.worker { inw + inc } else { (l.p as u64 + n - l.c as u64) % n };
            if l.p >= self.len || l.c >= self.len || fl > n - 1 {
                fail(pr, format!("after splitting again the published positions are {:?} for length {}", (l.p, l.w, l.c), n));
            }
            let d = (l.c as u64 + n - old_c % n) % n;
            if fl > 0 && d + fl > old_p - old_c {
                fail(pr, format!(
                    "after splitting again the buffer claims {} items in flight from ring position {}, but the previous session left {} unconsumed items from ring position {}",
                    fl, l.c, old_p - old_c, old_c % n));
            }
            let c0 = if fl > 0 { old_c + d } else { (old_c / n + 2) * n + l.c as u64 };
            self.publ[C] = c0;
            self.publ[W] = if s.worker { c0 + inc } else { c0 };
            self.publ[P] = c0 + fl;
            self.loc = self.publ;
        }
        self.looks("split", b(&[18]));
        // (these refresh what the iterators remember, so not in every run)
        if chance(1, 2) {
            let mut sum = 0;
            for who in [P, W, C] {
                if self.alive[who] {
                    let n = self.one_avail(who, b(&[18]));
                    sum += n;
                }
            }
            if sum != self.len - 1 {
                fail(b(&[18, 4]), format!("right after the split the availabilities sum to {}, not {}", sum, self.len - 1));
            }
        }
        if chance(1, 2) && self.form[P] == Form::Sync && self.avail(P) > 0 {
            // find the storage: the pointer to the slot at the producer's index
            self.step(P, Op::Get(Get::NextInit));
            self.next = None;
        }
        true
    }

    fn one_avail(&mut self, who: usize, props: u64) -> usize {
        let exp = self.avail(who);
        for k in 0..self.insts.len() {
            let o = with_noop_cx(|cx| self.insts[k].st[who].as_mut().unwrap().exec(&Op::Avail, cx));
            if o.res == Res::Ok && o.n != exp {
                fail(props | b(&[5, 4]), format!("{} sees {} available, {} expected", WHO[who], o.n, exp));
            }
        }
        exp
    }

    fn drop_all(&mut self) {
        let mut order: Vec<usize> = (0..3).filter(|w| self.insts[0].st[*w].is_some() && self.alive[*w]).collect();
        while !order.is_empty() {
            let k = choose(order.len() as u32) as usize;
            let who = order.remove(k);
            if self.fut[who].is_some() {
                self.step(who, Op::FDrop);
            }
            self.step(who, Op::Drop);
        }
        for i in self.insts.iter_mut() {
            i.st = [None, None, None];
        }
    }

    fn finish(&mut self, _nblocks: usize) {
        let never = !self.insts.iter().any(|i| i.st.iter().any(|s| s.is_some())) && self.alive == [false; 3];
        if !never {
            self.drop_all();
        }
        for k in 0..self.insts.len() {
            let r = self.insts[k].world.drop_buf();
            if r == Res::Panicked || r == Res::Faulted {
                fail(b(&[7, 8, 9]), format!("releasing the buffer panicked ({})", simrt::panic_text()));
            }
        }
        if self.tracked && items::ledger_live() != 0 {
            fail_ledger(b(&[8, 9]), format!("{} values were never destroyed although the buffer is gone", items::ledger_live()));
        }
        if mem::live_blocks() != 0 {
            let k = (0..mem::total_blocks()).find(|k| mem::block(*k).live).unwrap();
            fail(b(&[7, 8]), format!("{} memory blocks are never released (one of {} bytes)", mem::live_blocks(), mem::block(k).size));
        }
        #[cfg(feature = "cfg-vmem")]
        if simrt::vm::mapped_pages() != 0 {
            fail(b(&[17, 7]), format!("{} pages stay mapped after the buffer was released", simrt::vm::mapped_pages()));
        }
    }

    // --------------------------------------------------------------------------------------------- generator

    fn operate(&mut self, n: u32) {
        let pw = [4 + choose(12), 4 + choose(12), 4 + choose(12)];
        self.waker_kind = choose(2);
        if self.faults > 0 && self.tracked && self.form[P] == Form::Sync && self.alive[P] && self.insts[0].base == 0 && chance(3, 4) {
            // (so that it is known where the slots are when a clone panics)
            self.step(P, Op::Get(Get::NextInit));
            self.next = None;
        }
        for _ in 0..n {
            if let Some((who, op)) = self.next.take() {
                if self.alive[who] {
                    self.step(who, op);
                    continue;
                }
            }
            let w = [
                if self.alive[P] { pw[0] } else { 0 },
                if self.alive[W] { pw[1] } else { 0 },
                if self.alive[C] { pw[2] } else { 0 },
            ];
            if w == [0; 3] {
                return;
            }
            let who = weighted(&w) as usize;
            if let Some(op) = self.gen(who) {
                self.step(who, op);
            }
        }
    }

    /// Long buffers: everybody moves to somewhere near the end in a few steps.
    fn rush(&mut self) {
        if self.form.iter().any(|f| !matches!(f, Form::Sync | Form::Gone)) {
            return;
        }
        let short = choose(12) as usize;
        for who in [P, W, C] {
            if !self.alive[who] || self.lost {
                continue;
            }
            self.step(who, Op::Avail);
            let a = self.avail(who);
            let mut n = a - short.min(a);
            if who == P {
                n = n.min(self.occ_run(P, n));
            }
            self.step(who, Op::Adv(n));
        }
    }

    /// The same few operations over and over again: what only shows after very many of them.
    fn marathon(&mut self, laps: u32) {
        count(Cnt::marathons, 1);
        let k = 1 + choose((self.len as u32 - 1).clamp(1, 4)) as usize;
        let tiny = chance(1, 2);
        let init = self.was_zeroed || chance(1, 4);
        let cons = choose(5);
        let mv = cons == 0;
        tr!("{} rounds of the same operations", laps);
        // (a fault may have ended everything: nothing is left to go on with)
        macro_rules! go {
            ($w:expr, $o:expr) => {{
                if !self.alive[$w] || self.lost {
                    return;
                }
                let o = $o;
                self.step($w, o);
            }};
        }
        for lap in 0..laps {
            if self.avail(P) == 0 && self.avail(W.min(if self.worker { W } else { P })) == 0 && self.avail(C) == 0 {
                return;
            }
            let n = if tiny { 1 } else { k.min(self.avail(P)).max(1) };
            let init = init || mv || self.occ_run(P, n) < n.min(self.avail(P));
            if n == 1 {
                let v = self.fresh();
                go!(P, Op::Push(v, init));
            } else {
                let v = (0..n).map(|_| self.fresh()).collect();
                go!(P, Op::PushS(v, init, !self.item.copy()));
            }
            if lap % 64 == 0 {
                go!(P, Op::Avail);
            }
            if self.worker {
                let m = self.avail(W);
                go!(W, Op::Get(Get::Exact(m.max(1))));
                self.next = None;
                go!(W, Op::Adv(m));
            }
            let m = self.avail(C);
            match cons {
                0 => {
                    for _ in 0..m {
                        go!(C, Op::PopMove);
                    }
                }
                1 => {
                    for _ in 0..=m {
                        go!(C, Op::CloneItem);
                    }
                }
                2 => go!(C, Op::CloneS(m.max(1))),
                3 => {
                    go!(C, Op::Get(Get::PeekAvail));
                    self.next = None;
                    go!(C, Op::Adv(m));
                }
                _ => {
                    if lap % 3 == 0 {
                        go!(C, Op::Reset);
                    } else {
                        go!(C, Op::Get(Get::AvailS));
                        self.next = None;
                        go!(C, Op::Adv(m));
                    }
                }
            }
            if lap % 64 == 0 {
                go!(C, Op::Avail);
            }
        }
    }

    fn size_for(&self, who: usize) -> usize {
        let a = self.avail(who) as u32;
        match weighted(&[12, 8, 6, 6, 1]) {
            0 => 1 + choose(a.max(1)) as usize,
            1 => a.max(1) as usize,
            2 => a as usize + 1,
            4 => self.absurd(),
            _ => choose((self.len as u32 + 2).min(a + self.cap as u32 + 10)) as usize,
        }
    }

    /// Requests far beyond the capacity: a whole ring and more, sums that overflow, low bits that look harmless.
    fn absurd(&self) -> usize {
        count(Cnt::absurd_requests, 1);
        let l = self.len;
        match choose(7) {
            0 => l,
            1 => l + 1 + choose(l as u32) as usize,
            2 => 2 * l + choose(3) as usize,
            3 => (1 << 32) + choose(l as u32) as usize,
            4 => usize::MAX - choose(2 * l as u32) as usize,
            5 => (1 << 63) + choose(l as u32) as usize,
            _ => (usize::MAX / self.item.size()).saturating_add(choose(3) as usize),
        }
    }

    fn classes(&self, who: usize) -> &'static [Cl] {
        classes(self.form[who], who, self.fut[who].is_some())
    }

    fn gen(&mut self, who: usize) -> Option<Op> {
        let cl = self.classes(who);
        if cl.is_empty() {
            return None;
        }
        let mut w = [0u32; 24];
        for (k, c) in cl.iter().enumerate() {
            w[k] = self.w[*c as usize];
        }
        let n = cl.len();
        let c = cl[weighted(&w[..n]) as usize];
        debug_assert!(ALL[c as usize] == c);
        if c == FStart {
            let futs: &[Cl] = match who {
                P => &[Push, PushS, NextMut, NextInit, NextSlices, One, Exact, AvailS, Mul],
                W => &[One, Exact, AvailS, Mul],
                _ => &[Pop, PopMove, CopyItem, CloneItem, CopyS, CloneS, PeekOne, PeekN, PeekAvail, One, Exact, AvailS, Mul],
            };
            let c = pick(futs);
            return self.op_of(who, c).map(|o| Op::FStart(Box::new(o)));
        }
        self.op_of(who, c)
    }

    /// A contract-respecting operation of the class, if there is one in this state.
    fn op_of(&mut self, who: usize, c: Cl) -> Option<Op> {
        let a = self.avail(who);
        let occ = if who == P { self.occ_run(P, a.min(self.cap * 2)) } else { a };
        // plain writes by the producer need initialised slots
        let plain = |n: usize| who != P || n > a || n <= occ;
        Some(match c {
            Push => {
                if !plain(1) {
                    return Some(Op::Push(self.fresh(), true)).filter(|_| self.form[who] == Form::Sync);
                }
                Op::Push(self.fresh(), false)
            }
            PushInit => Op::Push(self.fresh(), true),
            PushS | PushSI => {
                let mut n = self.size_for(P).min(self.cap);
                let init = c == PushSI;
                if !init && !plain(n) {
                    if self.form[who] == Form::Sync {
                        let v = (0..n).map(|_| self.fresh()).collect();
                        return Some(Op::PushS(v, true, !self.item.copy() || chance(1, 2)));
                    }
                    n = occ;
                }
                let v = (0..n).map(|_| self.fresh()).collect();
                Op::PushS(v, init, !self.item.copy() || chance(1, 2))
            }
            NextMut if plain(1) => Op::Get(Get::NextMut),
            NextMut | NextInit => Op::Get(Get::NextInit),
            NextSlices | Exact => {
                let mut n = self.size_for(who);
                if !plain(n) {
                    n = occ;
                }
                Op::Get(if c == Exact { Get::Exact(n) } else { Get::NextSlices(n) })
            }
            One if plain(1) => Op::Get(Get::One),
            AvailS if plain(a) => Op::Get(Get::AvailS),
            Mul => {
                let r = if chance(1, 24) { self.absurd() } else { 1 + choose((self.len as u32 + 1).min(9)) as usize };
                if !plain(a - a % r) {
                    return None;
                }
                Op::Get(Get::Mul(r))
            }
            One | AvailS => return None,
            Adv => {
                let m = if who == P { occ } else { a };
                Op::Adv(match weighted(&[4, 2, 1]) {
                    0 => choose(m as u32 + 1) as usize,
                    1 => m,
                    _ => 0,
                })
            }
            Avail => Op::Avail,
            Wait => Op::WaitFor(choose(a as u32 + 1) as usize),
            Pop => Op::Pop,
            PopMove => Op::PopMove,
            CopyItem if self.item.copy() => Op::CopyItem,
            CopyItem | CloneItem => Op::CloneItem,
            CopyS if self.item.copy() => Op::CopyS(self.size_for(who).min(self.cap)),
            CopyS | CloneS => Op::CloneS(self.size_for(who).min(self.cap)),
            PeekOne => Op::Get(Get::PeekOne),
            PeekN => Op::Get(Get::PeekN(self.size_for(who))),
            PeekAvail => Op::Get(Get::PeekAvail),
            Reset => Op::Reset,
            Detach => Op::Detach,
            ToAsync => Op::ToAsync,
            Drop => Op::Drop,
            GoBack => {
                let m = (self.loc[who] - self.publ[who]) as u32;
                Op::GoBack(choose(m + 1) as usize)
            }
            SetIdx => {
                let mut m = self.ahead(who) - self.publ[who];
                if who == P {
                    // only over initialised slots
                    m = (0..m.min(self.cap as u64 * 2)).take_while(|k| matches!(self.slots[self.ring(self.publ[P] + *k)], Slot::Occ { .. })).count() as u64;
                }
                let t = self.publ[who] + choose(m as u32 + 1) as u64;
                Op::SetIdx(self.ring(t))
            }
            DReset => {
                if who == P && occ < a {
                    return None;
                }
                Op::DReset
            }
            Sync => Op::Sync,
            Attach => Op::Attach,
            FStart => return None,
            FPoll => Op::FPoll,
            FDrop => Op::FDrop,
            ToSync => Op::ToSync,
        })
    }

    // --------------------------------------------------------------------------------------------- one step

    fn run_on(&mut self, k: usize, who: usize, op: &Op) -> Obs {
        let mode = self.insts[k].mode;
        let plain = self.form[who] == Form::Sync;
        let s = self.insts[k].st[who].as_mut().unwrap();
        with_noop_cx(|cx| {
            if mode == FormMode::AsyncSplit {
                // (the iterator is async whenever the others are plain)
                let o = match op {
                    Op::ToAsync | Op::ToSync => {
                        let mut o = Obs::new();
                        o.res = Res::Ok;
                        return o;
                    }
                    Op::Detach if plain => {
                        s.exec(&Op::ToSync, cx);
                        return s.exec(op, cx);
                    }
                    Op::Adv(n) if plain && n % 2 == 1 => {
                        s.exec(&Op::Detach, cx);
                        let o = s.exec(op, cx);
                        s.exec(&Op::Attach, cx);
                        o
                    }
                    _ => s.exec(op, cx),
                };
                let o = if o.res == Res::Na && plain {
                    s.exec(&Op::ToSync, cx);
                    s.exec(op, cx)
                } else {
                    o
                };
                if s.form() == Form::Sync {
                    s.exec(&Op::ToAsync, cx);
                }
                return o;
            }
            if mode == FormMode::DetWrap && plain && matches!(op, Op::Avail | Op::Adv(_) | Op::Get(Get::One | Get::Exact(_) | Get::AvailS | Get::Mul(_))) {
                s.exec(&Op::Detach, cx);
                let o = s.exec(op, cx);
                s.exec(&Op::Attach, cx);
                return o;
            }
            if mode == FormMode::AsyncWrap && plain && !matches!(op, Op::Drop | Op::Detach | Op::ToAsync) {
                s.exec(&Op::ToAsync, cx);
                let o = s.exec(op, cx);
                s.exec(&Op::ToSync, cx);
                if o.res != Res::Na {
                    return o;
                }
            }
            s.exec(op, cx)
        })
    }

    fn step(&mut self, who: usize, op: Op) {
        self.nops += 1;
        count(Cnt::ops, 1);
        // the operation that takes effect (that of a held future when polled)
        let eff: Op = match &op {
            Op::FPoll => self.fut[who].clone().unwrap(),
            o => o.clone(),
        };
        // a held future may have become illegal to complete (slots vacated meanwhile): cancel it instead
        if op == Op::FPoll && !self.legal_now(who, &eff) {
            return self.step(who, Op::FDrop);
        }
        if matches!(self.form[who], Form::Async | Form::ADet) {
            ctx_add(bit(14));
        }
        if matches!(self.form[who], Form::Det | Form::ADet) {
            ctx_add(bit(12));
        }
        let faultable = matches!(&eff, Op::PushS(_, _, true) | Op::CloneItem | Op::CloneS(_)) && !matches!(op, Op::FStart(_));
        let mut armed = false;
        if self.faults > 0 && self.tracked && faultable && self.insts.len() == 1 && chance(self.faults, 12) {
            items::clone_fault(choose(4) as i64);
            armed = true;
        }
        tr!("{}: {:?}{}", WHO[who], op, if armed { " (a clone may panic)" } else { "" });
        let mut obs: Vec<Obs> = Vec::with_capacity(self.insts.len());
        for k in 0..self.insts.len() {
            let o = self.run_on(k, who, &op);
            obs.push(o);
        }
        items::clone_fault(-1);
        let o = &obs[0];
        tr!("    -> {:?} n={} values={:?} windows={:?}", o.res, o.n, o.vals, o.segs.iter().map(|s| s.1).collect::<Vec<_>>());
        // variants and forms against each other
        for k in 1..obs.len() {
            let (x, y) = (&obs[0], &obs[k]);
            let same = x.res == y.res && x.n == y.n && x.vals == y.vals
                && (x.ret == y.ret || matches!(self.insts[k].mode, FormMode::AsyncWrap | FormMode::AsyncSplit)) && x.dst_dirty == y.dst_dirty
                && x.seg_len() == y.seg_len();
            if !same {
                fail(self.differ(k), format!(
                    "the same operation {:?} by the {} differs: {:?} ({:?}) gives {:?} n={} values={:?} window={}, {:?} ({:?}) gives {:?} n={} values={:?} window={}",
                    op, WHO[who], self.insts[0].v, self.insts[0].mode, x.res, x.n, x.vals, x.seg_len(),
                    self.insts[k].v, self.insts[k].mode, y.res, y.n, y.vals, y.seg_len()));
            }
        }
        let o0 = obs[0].clone();
        if o0.res == Res::Na {
            tr!("    (no such operation)");
            return;
        }
        mix(who as u64 | (o0.res as u64) << 4 | (disc(&op) << 8) | ((o0.n + o0.seg_len() + o0.vals.len()) as u64) << 16);
        if o0.res == Res::Panicked {
            fail(u64::MAX >> 1, format!("{:?} by the {} panicked or resolved without a result: {}", op, WHO[who], simrt::panic_text()));
        }
        self.apply(who, &op, &eff, &obs);
        self.looks_after(who, &op, &o0);
        self.scan(who, &op, &o0);
        self.check_ledger("an operation", 0);
        self.check_blocks();
    }

    /// Instance k does not behave like instance 0.
    fn differ(&self, k: usize) -> u64 {
        match self.insts[k].mode {
            FormMode::AsyncWrap | FormMode::AsyncSplit => b(&[13, 14]),
            _ => b(&[13]),
        }
    }

    fn legal_now(&self, who: usize, op: &Op) -> bool {
        if who != P {
            return true;
        }
        let a = self.avail(P);
        let n = match op {
            Op::Push(_, false) | Op::Get(Get::One | Get::NextMut) => 1,
            Op::PushS(v, false, _) => v.len(),
            Op::Get(Get::Exact(n) | Get::NextSlices(n)) => *n,
            Op::Get(Get::AvailS) => a,
            Op::Get(Get::Mul(r)) => a - a % r,
            _ => return true,
        };
        n > a || self.occ_run(P, n) == n
    }

    /// Expected success of a request for `n` slots.
    fn verdict(&self, who: usize, op: &Op, n: usize, o: &Obs) -> bool {
        let a = self.avail(who);
        if o.res == Res::Faulted {
            if n > a {
                fail(b(&[5, 4]), format!("{:?} by the {} touched items although only {} slots are available", op, WHO[who], a));
            }
            return false;
        }
        let ok = o.res == Res::Ok;
        if n == 0 {
            count(Cnt::empty_requests, 1);
            return ok;
        }
        if ok && n > a {
            fail(b(&[5, 4, 3, 1]), format!("{:?} by the {} for {} slots succeeded although only {} are available", op, WHO[who], n, a));
        }
        if !ok && n <= a {
            fail(b(&[5, 10, 1]), format!("{:?} by the {} for {} slots was refused although {} are available", op, WHO[who], n, a));
        }
        if !ok {
            count(Cnt::api_refused, 1);
            if o.dst_dirty {
                fail(b(&[5]), format!("{:?} by the {} was refused but wrote into the caller's buffer", op, WHO[who]));
            }
        }
        ok
    }

    fn apply(&mut self, who: usize, op: &Op, eff: &Op, obs: &[Obs]) {
        let o = &obs[0];
        match op {
            Op::FStart(inner) => {
                self.fut[who] = Some((**inner).clone());
                ctx_add(bit(14));
                return;
            }
            Op::FDrop => {
                self.fut[who] = None;
                count(Cnt::cancelled_futures, 1);
                return;
            }
            Op::FPoll => {
                if o.res != Res::Refused {
                    self.fut[who] = None;
                }
            }
            _ => {}
        }
        let a = self.avail(who);
        match eff {
            Op::Avail => {
                for (k, o) in obs.iter().enumerate() {
                    if o.n != a {
                        let p = if o.n > a { b(&[5, 4]) } else { b(&[5, 10, 4]) };
                        fail(p, format!("available() of the {} is {} but {} slots are really available ({:?})", WHO[who], o.n, a, self.insts[k].v));
                    }
                }
            }
            Op::WaitFor(_) => {}
            Op::Adv(n) => {
                self.loc[who] += *n as u64;
                self.settle(who);
                if who == C {
                    self.consumed += *n as u64;
                }
            }
            Op::Push(v, _) => {
                if self.verdict(who, eff, 1, o) {
                    self.write_at(self.loc[P], *v);
                    self.loc[P] += 1;
                    self.settle(P);
                    count(Cnt::items_pushed, 1);
                } else if op == eff && self.form[who] == Form::Sync && o.ret != Some(*v) {
                    fail(b(&[5, 8]), format!("a refused push of {} hands back {:?}", v, o.ret));
                }
            }
            Op::PushS(v, _, _) => {
                if o.dst_dirty {
                    fail(b(&[5, 1]), "pushing a slice modified the caller's slice".into());
                }
                let a = self.avail(P);
                if self.verdict(who, eff, v.len(), o) {
                    for x in v {
                        self.write_at(self.loc[P], *x);
                        self.loc[P] += 1;
                    }
                    self.settle(P);
                    count(Cnt::items_pushed, v.len() as u64);
                } else if o.res == Res::Faulted && v.len() <= a {
                    for (k, x) in v.iter().enumerate() {
                        let r = self.ring(self.loc[P] + k as u64);
                        let old = match self.slots[r] {
                            Slot::Occ { val, uid } => Some((val, uid)),
                            _ => None,
                        };
                        self.slots[r] = Slot::Either { old, new: *x };
                    }
                    self.resolve();
                }
            }
            Op::Pop | Op::PopMove | Op::CopyItem | Op::CloneItem => {
                if self.verdict(who, eff, 1, o) {
                    self.take(eff, obs, 1);
                }
            }
            Op::CopyS(n) | Op::CloneS(n) => {
                if self.verdict(who, eff, *n, o) {
                    self.take(eff, obs, *n);
                }
            }
            Op::Get(g) => self.got(who, eff, *g, obs),
            Op::Reset => {
                if o.res == Res::Ok {
                    self.loc[who] = self.ahead(who);
                    self.settle(who);
                    self.resets = true;
                    ctx_add(bit(11));
                    count(Cnt::resets, 1);
                }
            }
            Op::Detach => {
                self.form[who] = if self.form[who] == Form::Sync { Form::Det } else { Form::ADet };
                ctx_add(bit(12));
            }
            Op::Attach => {
                self.form[who] = if self.form[who] == Form::Det { Form::Sync } else { Form::Async };
                self.publ[who] = self.loc[who];
            }
            Op::Sync => self.publ[who] = self.loc[who],
            Op::GoBack(n) => {
                self.loc[who] -= *n as u64;
                count(Cnt::detached_moves, 1);
            }
            Op::SetIdx(i) => {
                let base = self.publ[who];
                let d = (*i + self.len - self.ring(base)) % self.len;
                self.loc[who] = base + d as u64;
                count(Cnt::detached_moves, 1);
            }
            Op::DReset => {
                count(Cnt::detached_moves, 1);
                ctx_add(bit(11));
                if who != P {
                    self.loc[who] = self.ahead(who);
                } else {
                    // the producer's limit: somewhere in its own window
                    let l = self.insts[0].st[P].as_mut().unwrap().look().unwrap();
                    let d = (l.idx + self.len - self.ring(self.publ[P])) % self.len;
                    if l.idx >= self.len || self.publ[P] + d as u64 > self.ahead(P) {
                        fail(b(&[12, 4]), format!(
                            "reset_index of the detached producer moves it to index {} although only [{}, +{}] is its to move in",
                            l.idx, self.ring(self.publ[P]), self.ahead(P) - self.publ[P]));
                    }
                    self.loc[P] = self.publ[P] + d as u64;
                }
            }
            Op::ToAsync => {
                self.form[who] = Form::Async;
                ctx_add(bit(14));
            }
            Op::ToSync => self.form[who] = Form::Sync,
            Op::Drop => {
                self.alive[who] = false;
                self.form[who] = Form::Gone;
                self.fut[who] = None;
                self.loc[who] = self.publ[who];
                count(Cnt::stage_drops, 1);
            }
            Op::FStart(_) | Op::FPoll | Op::FDrop => {}
        }
    }

    /// A local move is published at once unless the iterator is detached.
    fn settle(&mut self, who: usize) {
        if !matches!(self.form[who], Form::Det | Form::ADet) {
            self.publ[who] = self.loc[who];
        } else {
            count(Cnt::detached_moves, 1);
        }
    }

    fn write_at(&mut self, pos: u64, v: u64) {
        let r = self.ring(pos);
        if r + 1 == self.len {
            count(Cnt::wraps, 1);
        }
        self.slots[r] = Slot::Occ { val: v & self.mask, uid: 0 };
        for i in self.insts.iter_mut() {
            if !i.uids.is_empty() {
                i.uids[r] = 0;
            }
        }
    }

    /// The consumer obtained `n` values.
    fn take(&mut self, op: &Op, obs: &[Obs], n: usize) {
        for k in 0..n {
            let pos = self.loc[C] + k as u64;
            let r = self.ring(pos);
            let (ev, eu) = match self.slots[r] {
                Slot::Occ { val, uid } => (val, uid),
                _ => fail(b(&[9, 1]), "the consumer reached an empty slot (driver)".into()),
            };
            for o in obs {
                if o.vals.get(k) != Some(&ev) {
                    fail(b(&[1, 6]), format!("{:?}: value {} obtained by the consumer is {:?}, {} expected (item {} of the stream)", op, k, o.vals.get(k), ev, pos));
                }
            }
            if matches!(op, Op::Pop | Op::PopMove) && self.tracked && self.insts.len() == 1 && eu != 0 && obs[0].uids[k] != eu {
                fail(b(&[1, 8]), format!("{:?} returned another value (#{}) than the one in the slot (#{})", op, obs[0].uids[k], eu));
            }
            if *op == Op::PopMove {
                self.slots[r] = Slot::Empty;
            }
        }
        count(Cnt::items_consumed, n as u64);
        self.consumed += n as u64;
        self.loc[C] += n as u64;
        self.settle(C);
    }

    /// A window was requested.
    fn got(&mut self, who: usize, op: &Op, g: Get, obs: &[Obs]) {
        let a = self.avail(who);
        let n = match g {
            Get::One | Get::NextMut | Get::NextInit | Get::PeekOne => 1,
            Get::Exact(n) | Get::NextSlices(n) | Get::PeekN(n) => n,
            Get::AvailS | Get::PeekAvail => a,
            Get::Mul(r) => a - a % r,
        };
        let ok = self.verdict(who, op, n, &obs[0]);
        if !ok {
            return;
        }
        for k in 0..obs.len() {
            let segs = obs[k].segs.clone();
            let single = matches!(g, Get::One | Get::NextMut | Get::NextInit | Get::PeekOne);
            self.window(k, who, op, &segs, n, single);
        }
        if n == 0 {
            return;
        }
        // use the window
        let m = if chance(3, 4) { n } else { 1 + choose(n as u32) as usize };
        let m = m.min(self.cap);
        let read_only = matches!(g, Get::PeekOne | Get::PeekN(_) | Get::PeekAvail);
        let act = if read_only { 0 } else { weighted(&[3, if who == P { 0 } else { 5 }, if who == C { 1 } else { 4 }]) };
        if g == Get::NextInit {
            let r = self.ring(self.loc[P]);
            if chance(1, 5) {
                return;
            }
            let empty = self.slots[r] == Slot::Empty;
            let v = self.fresh();
            for k in 0..obs.len() {
                self.insts[k].st[who].as_ref().unwrap().touch(&obs[k].segs, Touch::Init(&[v], &[empty]));
            }
            self.write_at(self.loc[P], v);
        } else if act == 0 {
            for k in 0..obs.len() {
                let segs = prefix(&obs[k].segs, m);
                let vals = self.insts[k].st[who].as_ref().unwrap().touch(&segs, Touch::Read);
                self.compare(who, op, &vals);
            }
        } else if act == 1 {
            let mask = self.mask;
            let f = move |v: u64| edit(v, mask);
            for k in 0..obs.len() {
                let segs = prefix(&obs[k].segs, m);
                let vals = self.insts[k].st[who].as_ref().unwrap().touch(&segs, Touch::Edit(&f));
                self.compare(who, op, &vals);
            }
            for k in 0..m {
                let r = self.ring(self.loc[who] + k as u64);
                if let Slot::Occ { val, uid } = self.slots[r] {
                    self.slots[r] = Slot::Occ { val: f(val), uid };
                }
            }
            count(Cnt::edits, m as u64);
        } else {
            let vals: Vec<u64> = (0..m).map(|_| self.fresh()).collect();
            for k in 0..obs.len() {
                let segs = prefix(&obs[k].segs, m);
                self.insts[k].st[who].as_ref().unwrap().touch(&segs, Touch::Assign(&vals));
            }
            for (k, v) in vals.iter().enumerate() {
                self.write_at(self.loc[who] + k as u64, *v);
            }
        }
        if chance(3, 4) {
            let mut k = if chance(3, 4) { n } else { choose(n as u32 + 1) as usize };
            if who == P {
                k = k.min(self.occ_run(P, k));
            }
            self.next = Some((who, Op::Adv(k)));
        }
    }

    fn compare(&self, who: usize, op: &Op, vals: &[u64]) {
        for (k, v) in vals.iter().enumerate() {
            let r = self.ring(self.loc[who] + k as u64);
            match self.slots[r] {
                Slot::Occ { val, .. } if val == *v => {}
                s => fail(b(&[1, 6, 8, 9]), format!("{:?} of the {}: element {} reads {}, but ring position {} holds {:?}", op, WHO[who], k, v, r, s)),
            }
        }
    }

    /// Shape and place of a window of `n` slots at the iterator's index.
    fn window(&mut self, k: usize, who: usize, op: &Op, segs: &[(usize, usize)], n: usize, single: bool) {
        let idx = self.ring(self.loc[who]);
        let bad = |m: String| fail(b(&[6]), format!("{:?} of the {} at index {} of {}: {}", op, WHO[who], idx, self.len, m));
        let total: usize = segs.iter().map(|s| s.1).sum();
        if total != n {
            bad(format!("the window has {} elements, {} requested", total, n));
        }
        if n == 0 {
            return;
        }
        if segs[0].1 == 0 {
            bad("the head is empty".into());
        }
        let base = segs[0].0.wrapping_sub(idx * self.size);
        let i = &mut self.insts[k];
        if i.base == 0 {
            // the first window tells where the storage is; the storage must be there in full
            if self.vmem {
                #[cfg(feature = "cfg-vmem")]
                {
                    let bytes = self.len * self.size;
                    if !simrt::vm::is_mapped(base, 2 * bytes) {
                        fail(b(&[17, 6]), format!("the two views are not both mapped (window of the {} at index {})", WHO[who], idx));
                    }
                    if !simrt::vm::mirrored(base, base + bytes, bytes) {
                        fail(b(&[17]), "the second view is not the same memory as the first".into());
                    }
                }
            } else {
                // (it may be part of a larger block)
                if mem::block_of(base, self.len * self.size).is_none() {
                    bad("the window does not belong to storage of the buffer's length".into());
                }
            }
            i.base = base;
            tr!("    (storage of {:?} found)", i.v);
        } else if i.base != base {
            fail(b(&[6, 17]), format!("{:?} of the {}: element 0 is at byte {} of the storage, index {} is at byte {}", op, WHO[who],
                segs[0].0 as i64 - i.base as i64, idx, idx * self.size));
        }
        if single {
            return;
        }
        if self.vmem {
            if segs.len() != 1 {
                bad("more than one slice".into());
            }
            if idx + n > self.len {
                count(Cnt::seam_slices, 1);
            }
            return;
        }
        let head = n.min(self.len - idx);
        if segs[0].1 != head {
            bad(format!("the head has {} elements, {} reach up to the physical end (of {})", segs[0].1, head, n));
        }
        if n > head {
            count(Cnt::seam_slices, 1);
            if segs.len() != 2 || segs[1].0 != i.base || segs[1].1 != n - head {
                bad(format!("the tail is {:?}, {} elements from the physical start expected", segs.get(1).map(|s| (s.0 as i64 - i.base as i64, s.1)), n - head));
            }
        }
    }

    // --------------------------------------------------------------------------------------------- observations

    fn looks_after(&mut self, who: usize, op: &Op, o: &Obs) {
        let p = if o.res == Res::Refused {
            b(&[5, 14]) & if matches!(self.form[who], Form::Async) { u64::MAX } else { !bit(14) }
        } else {
            match op {
                Op::Drop => b(&[7]),
                Op::Reset => b(&[11]),
                Op::GoBack(_) | Op::SetIdx(_) | Op::DReset | Op::Sync | Op::Attach | Op::Detach => b(&[12]),
                Op::Push(..) | Op::PushS(..) | Op::Pop | Op::PopMove | Op::CopyItem | Op::CloneItem | Op::CopyS(_) | Op::CloneS(_) => {
                    b(&[1, 10, 6])
                }
                Op::Adv(_) => b(&[1, 10]),
                _ => b(&[5]),
            }
        };
        self.looks(&format!("{:?} of the {}", op, WHO[who]), p | bit(4));
    }

    fn looks(&mut self, after: &str, props: u64) {
        let mut first: [Option<simcore::stage::Look>; 3] = [None; 3];
        for k in 0..self.insts.len() {
            for who in 0..3 {
                let Some(s) = self.insts[k].st[who].as_mut() else { continue };
                let Some(mut l) = s.look() else { continue };
                if !self.worker {
                    l.w = 0;
                }
                match first[who] {
                    None => first[who] = Some(l),
                    Some(f) if f != l => {
                        fail(self.differ(k), format!("after {} the {} sees {:?} with {:?} ({:?}) but {:?} with {:?} ({:?})", after, WHO[who],
                            f, self.insts[0].v, self.insts[0].mode, l, self.insts[k].v, self.insts[k].mode));
                    }
                    _ => {}
                }
            }
        }
        for who in 0..3 {
            let Some(l) = first[who] else { continue };
            if l.len != self.len {
                fail(b(&[18, 17]), format!("buf_len() is {}, {} expected", l.len, self.len));
            }
            if l.idx != self.ring(self.loc[who]) {
                fail(props, format!("after {} the {} is at index {}, {} expected", after, WHO[who], l.idx, self.ring(self.loc[who])));
            }
            let e = [self.ring(self.publ[P]), if self.worker { self.ring(self.publ[W]) } else { 0 }, self.ring(self.publ[C])];
            if [l.p, l.w, l.c] != e {
                fail(props, format!("after {} the published positions are {:?} (producer, worker, consumer), {:?} expected", after, [l.p, l.w, l.c], e));
            }
            if l.alive != self.alive {
                fail(b(&[7, 18]) | props & b(&[12, 14]), format!("after {} the liveness flags are {:?}, {:?} expected", after, l.alive, self.alive));
            }
        }
    }

    fn raw(&self, k: usize, r: usize, second: bool) -> items::RawSlot {
        let mut buf = [0u8; 160];
        let mut a = self.insts[k].base + r * self.size;
        if second {
            a += self.len * self.size;
        }
        unsafe { mem::peek(a, buf.as_mut_ptr(), self.size) };
        self.item.raw(&buf[..self.size])
    }

    fn released(&self) -> bool {
        self.heap && self.alive == [false; 3]
    }

    /// Compare the contents of every slot (for long buffers, those around the positions) with the model.
    fn scan(&mut self, who: usize, op: &Op, o: &Obs) {
        if self.released() || self.insts.iter().all(|i| i.base == 0) {
            return;
        }
        let refused = o.res == Res::Refused;
        let around: Vec<usize> = if self.len <= 80 || (self.cap > 1000 && (self.nops % 8 == 0 || o.vals.len() > 60)) {
            (0..self.len).collect()
        } else {
            let mut v: Vec<usize> = Vec::with_capacity(260);
            for p in [self.publ[P], self.loc[P], self.publ[C], self.loc[C]] {
                for d in 0..70u64 {
                    v.push(self.ring(p + self.len as u64 + d - 35));
                }
            }
            v
        };
        for k in 0..self.insts.len() {
            if self.insts[k].base == 0 {
                continue;
            }
            if self.insts[k].uids.is_empty() {
                self.insts[k].uids = vec![0; self.len];
            }
            for &r in &around {
                for second in [false, true] {
                    if second && !self.vmem {
                        continue;
                    }
                    let x = self.raw(k, r, second);
                    match self.slots[r] {
                        Slot::Empty => {
                            count(Cnt::zero_slots_seen, 1);
                            if self.tracked && !x.zero {
                                let p = if refused { b(&[5, 9, 8]) } else { b(&[9, 8, 3, 6]) };
                                fail(p, format!("after {:?} of the {} ring position {} should be empty but is not", op, WHO[who], r));
                            }
                        }
                        Slot::Occ { val, uid } => {
                            if self.tracked && !x.ok {
                                fail(b(&[8, 9, 1]), format!("after {:?} of the {} ring position {} should hold {} but holds no live value", op, WHO[who], r, val));
                            }
                            if x.val != val {
                                let mut p = if refused { b(&[5]) } else { b(&[1, 6, 3]) };
                                if second {
                                    p |= bit(17);
                                }
                                if self.nops < 2 {
                                    p |= bit(18);
                                }
                                fail(p, format!("after {:?} of the {} ring position {} holds {}, {} expected{}", op, WHO[who], r, x.val, val,
                                    if second { " (second view)" } else { "" }));
                            }
                            let known = self.insts[k].uids[r];
                            if self.tracked && known != 0 && known != x.uid {
                                fail(b(&[8, 9]), format!("after {:?} of the {} the value in ring position {} was silently replaced", op, WHO[who], r));
                            }
                            self.insts[k].uids[r] = x.uid;
                            if k == 0 && uid == 0 {
                                self.slots[r] = Slot::Occ { val, uid: x.uid };
                            }
                        }
                        Slot::Either { .. } => {}
                    }
                }
            }
        }
    }

    /// After an injected panic: find out which of the slots of the abandoned request were written.
    fn resolve(&mut self) {
        for r in 0..self.len {
            if let Slot::Either { old, new } = self.slots[r] {
                if self.insts[0].base == 0 {
                    // not known where the slots are: give up on this history
                    self.abandon();
                    return;
                }
                let x = self.raw(0, r, false);
                tr!("    ring position {}: {:?} or {} -> ok={} zero={} value={} #{}", r, old, new, x.ok, x.zero, x.val, x.uid);
                let as_old = match old {
                    None => x.zero,
                    Some((v, uid)) => x.ok && x.val == v && (uid == 0 || uid == x.uid),
                };
                if !self.insts[0].uids.is_empty() {
                    self.insts[0].uids[r] = 0;
                }
                if as_old {
                    self.slots[r] = match old {
                        None => Slot::Empty,
                        Some((val, uid)) => Slot::Occ { val, uid },
                    };
                } else if x.ok && x.val == new & self.mask {
                    self.slots[r] = Slot::Occ { val: new & self.mask, uid: 0 };
                } else {
                    fail(b(&[8, 9]), format!("after a clone panicked during a push, ring position {} holds neither its old value nor the new one", r));
                }
            }
        }
    }

    /// End the operations (not the checks of release): the model lost track legitimately.
    fn abandon(&mut self) {
        self.lost = true;
        let n = items::ledger_live() as usize;
        let held: usize = (0..3).map(|w| self.held_by(w)).sum();
        // keep the ledger comparison meaningful: treat the undecided slots by count
        let occ = n.saturating_sub(held);
        let mut have = self.slots.iter().filter(|s| matches!(s, Slot::Occ { .. } | Slot::Either { old: Some(_), .. })).count();
        for s in self.slots.iter_mut() {
            if let Slot::Either { old, new } = *s {
                let full = old.is_some() || have < occ;
                if full && old.is_none() {
                    have += 1;
                }
                *s = if full { Slot::Occ { val: old.map(|o| o.0).unwrap_or(new), uid: 0 } } else { Slot::Empty };
            }
        }
        for who in 0..3 {
            if self.alive[who] {
                self.alive[who] = false;
                self.form[who] = Form::Gone;
                self.fut[who] = None;
                for i in self.insts.iter_mut() {
                    if let Some(mut s) = i.st[who].take() {
                        with_noop_cx(|cx| {
                            s.exec(&Op::FDrop, cx);
                            s.exec(&Op::Drop, cx)
                        });
                    }
                }
            }
        }
    }

    /// Counted values held by a pending future.
    fn held_by(&self, who: usize) -> usize {
        match &self.fut[who] {
            Some(Op::Push(..) | Op::CloneItem) => 1,
            Some(Op::PushS(v, _, true)) => v.len(),
            Some(Op::CloneS(n)) => *n,
            _ => 0,
        }
    }

    fn check_ledger(&mut self, after: &str, props: u64) {
        if !self.tracked {
            return;
        }
        let occ = self.slots.iter().filter(|s| matches!(s, Slot::Occ { .. })).count();
        let held: usize = (0..3).map(|w| self.held_by(w)).sum();
        let gone = self.alive == [false; 3] && self.nops > 0;
        let exp: usize = self.insts.iter().map(|i| if gone && i.v.heap() { 0 } else { occ + held }).sum();
        let live = items::ledger_live();
        if live != exp as i64 {
            let p = if live < exp as i64 { "destroyed too early" } else { "never destroyed" };
            let mut pr = b(&[8]) | props;
            if self.was_zeroed || self.slots.contains(&Slot::Empty) {
                pr |= bit(9);
            }
            fail_ledger(pr, format!("after {} {} values exist, {} expected: {} {}", after, live, exp, (live - exp as i64).abs(), p));
        }
    }

    fn check_blocks(&mut self) {
        let gone = self.released();
        for i in self.insts.iter_mut() {
            if i.blocks == 0 {
                i.blocks = 1;
            }
        }
        if self.insts.len() == 1 && gone && mem::live_blocks() != 0 && self.nops > 0 {
            fail(b(&[7]), format!("{} memory blocks of the heap buffer are still there after its last iterator was dropped", mem::live_blocks()));
        }
        if self.insts.len() == 1 && !gone && mem::live_blocks() == 0 && !self.vmem {
            fail(b(&[7]), "the buffer's memory is gone although iterators exist".into());
        }
    }
}

fn prefix(segs: &[(usize, usize)], m: usize) -> Vec<(usize, usize)> {
    let mut left = m;
    let mut out = Vec::new();
    for s in segs {
        let n = s.1.min(left);
        if n > 0 {
            out.push((s.0, n));
        }
        left -= n;
    }
    out
}

pub fn disc(op: &Op) -> u64 {
    match op {
        Op::Avail => 1,
        Op::WaitFor(_) => 2,
        Op::Get(g) => 3 + match g {
            Get::One => 0,
            Get::Exact(_) => 1,
            Get::AvailS => 2,
            Get::Mul(_) => 3,
            Get::NextMut => 4,
            Get::NextInit => 5,
            Get::NextSlices(_) => 6,
            Get::PeekOne => 7,
            Get::PeekN(_) => 8,
            Get::PeekAvail => 9,
        },
        Op::Adv(n) => 20 + (*n as u64) * 64,
        Op::Push(_, i) => 21 + *i as u64,
        Op::PushS(_, i, c) => 23 + *i as u64 + 2 * (*c as u64),
        Op::Pop => 27,
        Op::PopMove => 28,
        Op::CopyItem => 29,
        Op::CloneItem => 30,
        Op::CopyS(_) => 31,
        Op::CloneS(_) => 32,
        Op::Reset => 33,
        Op::Detach => 34,
        Op::Attach => 35,
        Op::Sync => 36,
        Op::GoBack(_) => 37,
        Op::SetIdx(_) => 38,
        Op::DReset => 39,
        Op::ToAsync => 40,
        Op::ToSync => 41,
        Op::FStart(_) => 42,
        Op::FPoll => 43,
        Op::FDrop => 44,
        Op::Drop => 45,
    }
}

/// Operations that exist in this form, simplest first.
pub fn classes(form: Form, who: usize, held: bool) -> &'static [Cl] {
    match (form, who) {
        (Form::Gone, _) => &[],
        (Form::ADet, _) => &[Adv, GoBack, Sync, Attach, Drop],
        (Form::Det, _) => &[One, Exact, AvailS, Mul, Adv, Avail, Wait, GoBack, SetIdx, DReset, Sync, Attach, Drop],
        (Form::Sync, P) => &[
            Push, PushInit, PushS, PushSI, NextMut, NextInit, NextSlices, One, Exact, AvailS, Mul, Adv, Avail, Wait, Detach, ToAsync, Drop,
        ],
        (Form::Sync, W) => &[One, Exact, AvailS, Mul, Adv, Avail, Wait, Reset, Detach, ToAsync, Drop],
        (Form::Sync, _) => &[
            Pop, PopMove, CopyItem, CloneItem, CopyS, CloneS, PeekOne, PeekN, PeekAvail, One, Exact, AvailS, Mul, Adv, Avail, Wait,
            Reset, Detach, ToAsync, Drop,
        ],
        (Form::Async, _) if held => &[FPoll, FDrop],
        (Form::Async, P) => {
            &[Push, PushS, NextMut, NextInit, NextSlices, One, Exact, AvailS, Mul, Adv, Avail, Detach, ToSync, FStart, Drop]
        }
        (Form::Async, W) => &[One, Exact, AvailS, Mul, Adv, Avail, Reset, Detach, ToSync, FStart, Drop],
        (Form::Async, _) => &[
            Pop, PopMove, CopyItem, CloneItem, CopyS, CloneS, PeekOne, PeekN, PeekAvail, One, Exact, AvailS, Mul, Adv, Avail, Reset,
            Detach, ToSync, FStart, Drop,
        ],
    }
}

/// What the worker does to a value.
pub fn edit(v: u64, mask: u64) -> u64 {
    v.wrapping_add(0x100_0465) & mask
}
