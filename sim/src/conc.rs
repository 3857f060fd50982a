//! Concurrent runs: each stage is a simulated thread, the scheduler decides every interleaving, loads may return any
//! store the memory model allows. A ghost of the pipeline (absolute positions, contents, what each thread must already
//! have observed) judges every result while the run proceeds; afterwards everything is joined, drained and released.

use crate::builder;
use crate::exec::{self, with_cx};
use crate::hist::{b, classes, disc, edit, fail, fail_ledger, pick, with_noop_cx, Cl, Weights, C, P, W, WHO};
use simcore::items;
use simcore::stage::{Form, Get, Obs, Op, Res, Stage, Touch};
use simcore::world::*;
use simrt::choice::{chance, choose, weighted};
use simrt::fiber::{self, Policy};
use simrt::{bit, count, ctx_add, mem, mix, tr, tsan, Cnt};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// random operations, stages may be dropped on the way
    Free,
    /// a fixed number of items goes through the whole pipeline, every stage retries
    Drain,
    /// few operations, then every stage is dropped
    DropRace,
    /// as Drain, but the stages are tasks of an executor that polls them when they are woken
    Exec,
}

#[derive(Clone)]
pub struct CFocus {
    pub w: Weights,
    pub items: &'static [ItemKind],
    pub variants: &'static [Variant],
    pub ctors: &'static [Ctor],
    pub kinds: &'static [Kind],
    pub max_len: u32,
    pub max_ops: u32,
    pub worker: u32,
    pub asplit: u32,
    pub clone_faults: u32,
    /// per 16: runs in which threads are stalled at arbitrary points
    pub stalls: u32,
    /// per 16: runs with a weak memory (others are sequentially consistent)
    pub weak: u32,
    pub swarm: bool,
}

impl CFocus {
    pub fn new() -> CFocus {
        let mut w = crate::hist::base_weights();
        w[Cl::Wait as usize] = 0;
        w[Cl::Reset as usize] = 1;
        CFocus {
            w,
            items: &[ItemKind::U32, ItemKind::U32, ItemKind::P2, ItemKind::Trk],
            variants: conc_variants(),
            ctors: &[Ctor::From, Ctor::Default, Ctor::Zeroed],
            kinds: &[Kind::Free, Kind::Drain],
            max_len: 6,
            max_ops: 24,
            worker: 9,
            asplit: 2,
            clone_faults: 1,
            stalls: 4,
            weak: 10,
            swarm: true,
        }
    }
    pub fn with(mut self, v: &[(Cl, u32)]) -> CFocus {
        for (c, x) in v {
            self.w[*c as usize] = *x;
        }
        self
    }
    pub fn only(mut self, v: &[(Cl, u32)]) -> CFocus {
        self.w = [0; crate::hist::NCL];
        self.with(v)
    }
}

pub fn conc_variants() -> &'static [Variant] {
    if cfg!(feature = "cfg-vmem") {
        &[Variant::ConcHeap]
    } else if cfg!(feature = "cfg-noalloc") {
        &[Variant::ConcStack]
    } else {
        &[Variant::ConcHeap, Variant::ConcHeap, Variant::ConcStack]
    }
}

struct G {
    len: usize,
    worker: bool,
    mask: u64,
    tracked: bool,
    copy: bool,
    size: usize,
    vmem: bool,
    heap: bool,
    sc: bool,
    /// the producer writes only by *_init (slots may be empty)
    init_only: bool,
    start: u64,
    /// own position (absolute), position published by completed calls, by the call in progress at most
    loc: [u64; 3],
    plo: [u64; 3],
    phi: [u64; 3],
    resetting: [bool; 3],
    /// what the slot at an absolute position holds
    cur: Vec<u64>,
    /// the producer has written every position before this
    wend: u64,
    /// positions before this were granted to the iterator
    seen: [u64; 3],
    /// position of Y that X must see at any load
    know: [[u64; 3]; 3],
    form: [Form; 3],
    alive: [bool; 3],
    drop_started: [bool; 3],
    drop_done: [bool; 3],
    fut: [Option<Op>; 3],
    pending: [Option<Op>; 3],
    msg: [Option<(tsan::Msg, [u64; 3])>; 3],
    st: [Option<Box<dyn Stage>>; 3],
    base: usize,
    seq: u64,
    w: Weights,
    faults: u32,
    target: Option<u64>,
    stuck: [u32; 3],
    /// faults have stopped: from now on every stage only makes plain progress
    calm: bool,
    calm_at: (u64, u64),
    /// largest request
    cap: usize,
    consumed: u64,
    refused: u64,
    waits: Option<usize>,
}

static mut GP: *mut G = core::ptr::null_mut();

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut G {
    unsafe { &mut *GP }
}

fn policy(stalls: u32) -> Policy {
    let kind = weighted(&[5, 3, 2, 1]) as u8;
    let p = pick(&[8, 2, 16, 32]);
    let freeze = if stalls > 0 && chance(stalls, 16) { pick(&[16, 64, 200]) } else { 0 };
    Policy { kind, p, freeze, thaw: pick(&[10, 40, 150]) }
}

pub fn run(f: &CFocus) {
    unsafe { exec::EX = None };
    count(Cnt::conc_runs, 1);
    items::ledger_reset();
    tsan::set_mode(tsan::Mode::Single);
    let vmem = cfg!(feature = "cfg-vmem");
    if vmem {
        ctx_add(bit(17));
    }
    let kind = pick(f.kinds);
    let v = pick(f.variants);
    let ok = |i: &ItemKind| items_of(v).contains(i);
    let item = *f.items.iter().cycle().skip(choose(f.items.len() as u32) as usize).take(f.items.len()).find(|i| ok(i)).unwrap_or(&ItemKind::U32);
    let mut ctor = pick(f.ctors);
    if (!v.heap() || vmem) && ctor == Ctor::Default && !item.copy() {
        ctor = Ctor::From;
    }
    let want = if vmem {
        4096
    } else if !v.heap() {
        STACK_N[choose(STACK_N.len() as u32) as usize].max(2)
    } else {
        let n = 1 + choose(f.max_len) as usize;
        if n == 1 { 3 } else { n }
    };
    let worker = chance(f.worker, 16);
    let asynk = chance(f.asplit, 16);
    let weak = chance(f.weak, 16);
    tr!("build {:?} of {:?}, {:?}({}), {} stages, {:?}, {}", v, item, ctor, want, 2 + worker as u32, kind,
        if weak { "weak memory" } else { "sequentially consistent" });
    let mut world = match builder(v, item)(v, ctor, want, 0) {
        Ok(w) => w,
        Err(r) => fail(b(&[18]), format!("constructing {:?} failed: {:?} ({})", v, r, simrt::panic_text())),
    };
    let len = if vmem { want.div_ceil(4096) * 4096 } else { want };
    if weak {
        tsan::set_memory(pick(&[4, 8, 2, 12]), pick(&[2, 1, 4, 8]));
        count(Cnt::weak_runs, 1);
    } else {
        tsan::set_memory(0, 1);
        count(Cnt::sc_runs, 1);
    }
    let pre = pick(&[0, 0, 3, 10, 30]);
    tsan::set_access_preemption(if kind == Kind::DropRace { pick(&[0, 2]) } else { pre });
    tsan::set_mode(tsan::Mode::Conc);
    tsan::set_limit(4_000_000);

    let mut wts = f.w;
    if f.swarm {
        for x in wts.iter_mut() {
            if chance(1, 5) {
                *x = 0;
            }
        }
    }
    let st = match world.split(Split { worker, asynk }) {
        Some(Ok(s)) => s,
        Some(Err(r)) => fail(b(&[18]), format!("split failed: {:?} ({})", r, simrt::panic_text())),
        None => match world.split(Split { worker, asynk: false }) {
            Some(Ok(s)) => s,
            _ => fail(b(&[18]), "split failed".into()),
        },
    };
    let init_only = ctor == Ctor::Zeroed || (item == ItemKind::Trk && chance(1, 2));
    let fm = st.p.as_ref().unwrap().form();
    if fm == Form::Async {
        ctx_add(bit(14));
    }
    let gone = if worker { fm } else { Form::Gone };
    let mut gg = Box::new(G {
        len, worker, mask: item.mask(), tracked: !item.copy(), copy: item.copy(), size: item.size(), vmem, heap: v.heap(), sc: !weak, init_only,
        start: 0, loc: [0; 3], plo: [0; 3], phi: [0; 3], resetting: [false; 3], cur: vec![], wend: 0, seen: [0; 3],
        know: [[0; 3]; 3], form: [fm, gone, fm], alive: [true, worker, true], drop_started: [false, !worker, false],
        drop_done: [false; 3], fut: [None, None, None], pending: [None, None, None], msg: [None, None, None],
        st: [st.p, st.w, st.c], base: 0, seq: 0, w: wts, faults: f.clone_faults, target: None, stuck: [0; 3], calm: false, calm_at: (0, 0), cap: usize::MAX, consumed: 0, refused: 0,
        waits: None,
    });
    unsafe { GP = &mut *gg };
    let who_all: &[usize] = if worker { &[P, W, C] } else { &[P, C] };

    // ---- rotate: the interesting places of the ring are not only its start
    let rot = if kind == Kind::DropRace || ctor == Ctor::Zeroed {
        0
    } else if vmem {
        len - 1 - choose(8) as usize
    } else {
        choose(len as u32) as usize
    };
    if rot > 0 && fm == Form::Sync && item.copy() {
        rotate(ctor, rot);
    }

    // ---- phases
    if kind == Kind::Exec {
        exec_setup(who_all);
    }
    let phases = if kind == Kind::DropRace { 1 } else { 1 + chance(1, 3) as u32 };
    let mut dropped = kind == Kind::DropRace;
    for ph in 0..phases {
        let drain = kind == Kind::Drain || kind == Kind::Exec;
        let mut pol = policy(f.stalls);
        if kind == Kind::Exec && chance(1, 3) {
            // a single-threaded executor: nobody is preempted
            pol = Policy { kind: 0, p: 0, freeze: 0, thaw: 0 };
        }
        let gg = g();
        gg.stuck = [0; 3];
        gg.calm = false;
        gg.calm_at = (fiber::api_count() + 3_000, tsan::total_steps() + 1_500_000);
        tsan::set_limit(tsan::total_steps() + 4_000_000);
        gg.waits = None;
        if drain {
            gg.target = Some(gg.plo[P].max(gg.loc[P]) + 1 + choose(if vmem { 12 } else { 3 * len as u32 + 4 }) as u64);
            if kind == Kind::Drain && pol.freeze == 0 && chance(1, 6) && f.w[Cl::Wait as usize] == 0 {
                gg.waits = Some(pick(who_all));
            }
        } else {
            gg.target = None;
        }
        fiber::set_policy(pol);
        tr!("-- threads start: {:?}{}", pol, if ph > 0 { " (stages moved to other threads)" } else { "" });
        if ph > 0 {
            count(Cnt::migrated, 1);
        }
        let mut order: Vec<usize> = who_all.iter().copied().filter(|w| g().alive[*w]).collect();
        let max = if kind == Kind::DropRace { choose(3) } else { 4 + choose(f.max_ops) };
        let drops = !drain && ph + 1 == phases && (kind == Kind::DropRace || chance(1, 3));
        dropped |= drops;
        while !order.is_empty() {
            let who = order.remove(choose(order.len() as u32) as usize);
            let id = fiber::spawn(Box::new(move || {
                if kind == Kind::Exec {
                    exec_loop(who)
                } else if drain {
                    drain_loop(who)
                } else {
                    free_loop(who, max, drops)
                }
            }));
            if let Some(e) = exec::ex() {
                e.fib[who] = id;
            }
        }
        while !fiber::join_all() {
            if kind != Kind::Exec {
                fail(b(&[10]), "threads remain suspended".into());
            }
            exec_stuck();
        }
        joined();
    }

    // ---- everybody joined
    unsafe { exec::EX = None };
    let gg = g();
    quiescent(!dropped);
    if gg.alive[C] && (!worker || gg.alive[W]) && (chance(7, 8) || kind == Kind::Drain || kind == Kind::Exec) {
        empty_out();
    }
    // ---- release, in any order, on this thread or racing
    let mut order: Vec<usize> = (0..3).filter(|w| gg.alive[*w]).collect();
    if order.len() > 1 && chance(1, 2) {
        fiber::set_policy(Policy { kind: 3, p: 32, freeze: 0, thaw: 0 });
        while !order.is_empty() {
            let who = order.remove(choose(order.len() as u32) as usize);
            fiber::spawn(Box::new(move || drop_stage(who)));
        }
        fiber::join_all();
        count(Cnt::drop_races, 1);
    }
    while !order.is_empty() {
        let who = order.remove(choose(order.len() as u32) as usize);
        drop_stage(who);
    }
    for s in gg.st.iter_mut() {
        *s = None;
    }
    let heap = gg.heap;
    if heap && mem::live_blocks() != 0 {
        fail(b(&[7, 8]), format!("{} memory blocks of the heap buffer are still there after its last iterator was dropped", mem::live_blocks()));
    }
    if !heap && mem::live_blocks() == 0 {
        fail(b(&[7]), "the iterators released the stack buffer".into());
    }
    let r = world.drop_buf();
    if r == Res::Panicked || r == Res::Faulted {
        fail(b(&[7, 8, 9]), format!("releasing the buffer panicked ({})", simrt::panic_text()));
    }
    if gg.tracked && items::ledger_live() != 0 {
        fail_ledger(b(&[8, 9]), format!("{} values were never destroyed although the buffer is gone", items::ledger_live()));
    }
    if mem::live_blocks() != 0 {
        fail(b(&[7, 8]), format!("{} memory blocks are never released", mem::live_blocks()));
    }
    #[cfg(feature = "cfg-vmem")]
    if simrt::vm::mapped_pages() != 0 {
        fail(b(&[17, 7]), format!("{} pages stay mapped after the buffer was released", simrt::vm::mapped_pages()));
    }
    if gg.consumed > 0 || kind == Kind::DropRace {
        count(Cnt::nontrivial, 1);
    }
    drop(gg.st.iter_mut().map(|s| s.take()).collect::<Vec<_>>());
    drop(unsafe { core::mem::take(&mut (*GP).cur) });
    unsafe { GP = core::ptr::null_mut() };
}

fn rotate(ctor: Ctor, r: usize) {
    let gg = g();
    for who in [P, W, C] {
        let Some(s) = gg.st[who].as_mut() else { continue };
        with_noop_cx(|cx| {
            let o = s.exec(&Op::Avail, cx);
            let e = if who == P { gg.len - 1 } else { r };
            if o.n != e {
                fail(b(&[4, 5, 18]), format!("{} sees {} available, {} expected", WHO[who], o.n, e));
            }
            s.exec(&Op::Adv(r), cx);
        });
    }
    let n = r as u64;
    for k in 0..r {
        gg.cur.push(init_val(ctor, k) & gg.mask);
    }
    gg.start = n;
    gg.loc = [n; 3];
    gg.plo = [n; 3];
    gg.phi = [n; 3];
    gg.seen = [n; 3];
    gg.wend = n;
    for k in gg.know.iter_mut() {
        *k = [n; 3];
    }
}

/// All threads were joined: this thread has seen everything.
fn joined() {
    let gg = g();
    for x in 0..3 {
        if gg.resetting[x] {
            gg.resetting[x] = false;
        }
        gg.phi[x] = gg.plo[x];
    }
    for x in 0..3 {
        gg.know[x] = gg.plo;
        gg.msg[x] = None;
    }
    if gg.target.is_some() {
        // every stage retried until its share was through
        let gg = g();
        for who in 0..3 {
            if gg.alive[who] && gg.plo[who] < gg.target.unwrap() {
                fail(b(&[10, 2]), format!("the {} stopped short of its target (driver)", WHO[who]));
            }
        }
    }
}

fn drop_stage(who: usize) {
    if g().fut[who].is_some() {
        step(who, Op::FDrop);
    }
    step(who, Op::Drop);
}

/// With nothing running, availabilities are exact.
fn quiescent(sum: bool) {
    let gg = g();
    let mut tot = 0;
    let mut all = sum;
    for who in 0..3 {
        if !gg.alive[who] {
            all &= who == W && !gg.worker;
            continue;
        }
        if gg.fut[who].is_some() {
            step(who, Op::FDrop);
        }
        if gg.form[who] == Form::Det || gg.form[who] == Form::ADet {
            step(who, Op::Attach);
        }
    }
    for x in 0..3 {
        gg.know[x] = gg.plo;
    }
    for who in 0..3 {
        if !gg.alive[who] {
            continue;
        }
        let exp = (gg.lo_ahead(who) - gg.loc[who]) as usize;
        let o = with_noop_cx(|cx| gg.st[who].as_mut().unwrap().exec(&Op::Avail, cx));
        if o.n != exp {
            fail(b(&[5, 4, 10, 2]), format!("after every thread was joined available() of the {} is {}, {} expected", WHO[who], o.n, exp));
        }
        gg.seen[who] = gg.loc[who] + exp as u64;
        tot += exp;
    }
    if all && tot != gg.len - 1 {
        fail(b(&[4, 5]), format!("after every thread was joined the availabilities sum to {}, not {}", tot, gg.len - 1));
    }
}

/// Everything still in the buffer goes through: consumed items + these = accepted pushes.
fn empty_out() {
    let gg = g();
    gg.target = None;
    if gg.worker && gg.alive[W] {
        let n = (gg.lo_ahead(W) - gg.loc[W]) as usize;
        if n > 0 {
            if chance(1, 2) {
                step(W, Op::Get(Get::Exact(n)));
                gg.pending[W] = None;
            }
            step(W, Op::Adv(n));
        }
        // as the consumer will see it from this thread
        gg.know[C] = gg.plo;
    }
    let mut left = (gg.lo_ahead(C) - gg.loc[C]) as usize;
    while left > 0 {
        let op = match weighted(&[4, if gg.init_only { 2 } else { 0 }, 2]) {
            0 => Op::Pop,
            1 => Op::PopMove,
            _ => Op::CloneS(left.min(30)),
        };
        let before = gg.loc[C];
        let o = step(C, op.clone());
        if o.res == Res::Faulted {
            continue;
        }
        if gg.loc[C] == before {
            fail(b(&[2, 10]), format!("after every thread was joined {:?} finds nothing although {} accepted items were not consumed", op, left));
        }
        left = (gg.lo_ahead(C) - gg.loc[C]) as usize;
    }
    if gg.loc[C] != gg.plo[P] {
        fail(b(&[2]), "consumed items and accepted pushes differ in number (driver)".into());
    }
}

// ------------------------------------------------------------------------------------------------- loops

fn between(who: usize) {
    // messages between the threads: whatever happened before them must be visible afterwards
    if chance(1, 10) {
        let gg = g();
        let mut k = gg.know[who];
        k[who] = gg.plo[who];
        gg.msg[who] = Some((tsan::hb_send(), k));
        tr!("{} sends a message", WHO[who]);
    }
    if chance(1, 6) {
        let y = choose(3) as usize;
        let gg = g();
        if y != who {
            if let Some((m, k)) = &gg.msg[y] {
                tsan::hb_recv(m);
                for z in 0..3 {
                    gg.know[who][z] = gg.know[who][z].max(k[z]);
                }
                count(Cnt::hb_syncs, 1);
                tr!("{} receives the message of the {}", WHO[who], WHO[y]);
            }
        }
    }
    if chance(1, 5) {
        look(who);
    }
}

fn free_loop(who: usize, max: u32, drops: bool) {
    let n = choose(max + 1);
    for _ in 0..n {
        let op = match g().pending[who].take() {
            Some(op) => op,
            None => match gen(who) {
                Some(op) => op,
                None => continue,
            },
        };
        if op == Op::Drop {
            continue;
        }
        step(who, op);
        between(who);
    }
    g().pending[who] = None;
    if drops && chance(3, 4) {
        drop_stage(who);
    }
}

/// Liveness is progress once the faults stop: after enough calls they do.
fn calm_down() {
    let gg = g();
    if !gg.calm && (fiber::api_count() > gg.calm_at.0 || tsan::total_steps() > gg.calm_at.1) {
        tr!("faults stop");
        count(Cnt::calmed, 1);
        gg.calm = true;
        gg.stuck = [0; 3];
        fiber::thaw_all();
        if let Some(e) = exec::ex() {
            e.cancel = 0;
        }
        tsan::set_limit(tsan::total_steps() + 4_000_000);
    }
}

fn drain_loop(who: usize) {
    let gg = g();
    let t = gg.target.unwrap();
    while gg.plo[who] < t {
        calm_down();
        let before = gg.loc[who];
        let op = match gg.pending[who].take() {
            Some(op) => op,
            None if detached(gg.form[who]) && (gg.loc[who] >= t || (gg.calm || gg.stuck[who] > 60)) => Op::Attach,
            // nothing moved for long: only plain operations from now on
            None if (gg.calm || gg.stuck[who] > 60) && gg.fut[who].is_some() => Op::FDrop,
            None if (gg.calm || gg.stuck[who] > 60) => match who {
                P if gg.init_only && gg.form[P] == Form::Async => Op::Get(Get::NextInit),
                P => Op::Push(gg.fresh(), gg.init_only),
                W => Op::Get(Get::One),
                _ => Op::Pop,
            },
            None if gg.form[who] == Form::ADet => {
                if gg.seen[who] > gg.loc[who] && (who != P || gg.wend > gg.loc[who]) && chance(1, 2) {
                    let m = gg.seen[who].min(if who == P { gg.wend } else { u64::MAX }) - gg.loc[who];
                    Op::Adv(m as usize)
                } else {
                    Op::Attach
                }
            }
            None => match gen(who) {
                Some(op) => op,
                None => Op::Avail,
            },
        };
        let form = gg.form[who];
        let o = step(who, op);
        if gg.loc[who] > before {
            gg.stuck = [0; 3];
        }
        between(who);
        if o.res == Res::Refused || o.res == Res::Na || (o.res == Res::Ok && gg.loc[who] == before) {
            gg.stuck[who] += 1;
            if gg.plo[who] < t && (0..3).all(|x| !gg.alive[x] || gg.plo[x] >= t || gg.stuck[x] > 400) {
                fail(b(&[10, 2]), format!(
                    "every stage keeps retrying but nothing moves any more: producer at {}, worker at {}, consumer at {} of {} items",
                    gg.loc[P], gg.loc[W], gg.loc[C], t));
            }
            if o.res == Res::Refused {
                if matches!(form, Form::Det | Form::ADet) {
                    // let the others see what was done so far
                    step(who, Op::Sync);
                }
                if gg.fut[who].is_some() && chance(1, 3) {
                    step(who, Op::FDrop);
                }
                fiber::yield_retry();
            } else if gg.loc[who] == before && gg.pending[who].is_none() && chance(1, 4) {
                fiber::yield_retry();
            }
        }
    }
    let gg = g();
    gg.pending[who] = None;
    if gg.fut[who].is_some() {
        step(who, Op::FDrop);
    }
}

// ------------------------------------------------------------------------------------------------- executor

fn exec_setup(who_all: &[usize]) {
    let gg = g();
    // some stages may stay synchronous: they enable what the others await
    for who in who_all {
        if gg.form[*who] == Form::Sync && chance(7, 8) {
            step(*who, Op::ToAsync);
        }
    }
    for c in [Cl::ToAsync, Cl::ToSync, Cl::Wait] {
        gg.w[c as usize] = 0;
    }
    if chance(1, 2) {
        gg.cap = ((gg.len + 1) / (2 + gg.worker as usize)).max(1);
    }
    let fresh = chance(1, 2);
    unsafe {
        exec::EX = Some(exec::Exec {
            strict: fresh, delay: pick(&[0, 0, 4, 12]), spurious: pick(&[0, 0, 1, 4]), cancel: pick(&[0, 0, 1, 2]),
            gen: [0; 3], fib: [0; 3], parked: [false; 3], queue: vec![], msgs: [vec![], vec![], vec![]],
            know_of: || {
                let gg = g();
                match (0..3).find(|w| exec::ex().is_some_and(|e| e.fib[*w] == fiber::cur())) {
                    Some(w) => {
                        let mut k = gg.know[w];
                        k[w] = gg.plo[w];
                        k
                    }
                    None => [0; 3],
                }
            },
            stop: 0, wakes: 0,
        });
    }
    count(Cnt::async_runs, 1);
}

/// What the held future asks for is there (positions of completed calls).
fn possible(who: usize) -> bool {
    let gg = g();
    let n = match gg.fut[who].as_ref() {
        None => return false,
        Some(Op::PushS(v, ..)) => v.len(),
        Some(Op::CopyS(n) | Op::CloneS(n) | Op::Get(Get::Exact(n) | Get::NextSlices(n) | Get::PeekN(n) | Get::Mul(n))) => *n,
        _ => 1,
    };
    gg.est(who) >= n
}

/// Nobody runs (or those who do get nowhere).
fn exec_stuck() {
    if exec::deliver(true) {
        return;
    }
    let e = exec::ex().unwrap();
    let gg = g();
    for who in 0..3 {
        if e.parked[who] && possible(who) {
            fail(b(&[15]), format!(
                "the task of the {} awaits {:?} for ever: it was never woken although the operation became possible (positions: producer {}, worker {}, consumer {})",
                WHO[who], gg.fut[who].as_ref().unwrap(), gg.plo[P], gg.plo[W], gg.plo[C]));
        }
    }
    if gg.cap == 1 {
        fail(b(&[10, 2]), format!("nothing moves any more: producer at {}, worker at {}, consumer at {} of {:?}", gg.plo[P], gg.plo[W], gg.plo[C], gg.target));
    }
    // nobody can get what it asked for (too much): all give up and ask for less
    tr!("-- every task gives up");
    gg.cap = 1;
    e.stop += 1;
    gg.stuck = [0; 3];
    for who in 0..3 {
        if e.parked[who] {
            fiber::wake(e.fib[who]);
        }
    }
}

fn exec_progress(who: usize, before: u64) {
    let gg = g();
    if gg.loc[who] > before {
        gg.stuck = [0; 3];
        return;
    }
    gg.stuck[who] += 1;
    let t = gg.target.unwrap();
    let e = exec::ex().unwrap();
    if (0..3).all(|x| !gg.alive[x] || gg.plo[x] >= t || e.parked[x] || gg.stuck[x] > 300) && gg.plo[who] < t {
        exec_stuck();
    }
}

fn exec_loop(who: usize) {
    let gg = g();
    let t = gg.target.unwrap();
    while gg.plo[who] < t {
        calm_down();
        exec::deliver(false);
        let before = gg.loc[who];
        let form = gg.form[who];
        let op = match gg.pending[who].take() {
            Some(op) => op,
            None if detached(form) => {
                let m = gg.seen[who].min(t).min(if who == P { gg.wend } else { u64::MAX }).saturating_sub(gg.loc[who]);
                if m > 0 && chance(1, 2) { Op::Adv(1 + choose(m as u32) as usize) } else if chance(1, 3) { Op::Sync } else { Op::Attach }
            }
            None if (gg.calm || gg.stuck[who] > 60) && form == Form::Sync => match who {
                P => Op::Push(gg.fresh(), gg.init_only),
                W => Op::Get(Get::One),
                _ => Op::Pop,
            },
            None if form == Form::Async && ((gg.calm || gg.stuck[who] > 60) || chance(7, 8)) => match fut_op(who) {
                Some(op) => op,
                None => {
                    exec_progress(who, before);
                    continue;
                }
            },
            None => match gen(who) {
                Some(Op::Reset | Op::Detach) if chance(1, 2) => Op::Avail,
                Some(op) => op,
                None => Op::Avail,
            },
        };
        let o = step(who, op.clone());
        if matches!(op, Op::FStart(_)) {
            if o.res == Res::Ok {
                await_it(who, before);
            }
            continue;
        }
        if o.res == Res::Refused {
            fiber::yield_retry();
        }
        exec_progress(who, before);
        if gg.fut[who].is_none() {
            between(who);
        }
    }
    let gg = g();
    gg.pending[who] = None;
}

/// `.await`: polled now and whenever it was woken.
fn await_it(who: usize, before: u64) {
    let gg = g();
    let stop = exec::ex().unwrap().stop;
    loop {
        let o = step(who, Op::FPoll);
        if o.res != Res::Refused {
            exec_progress(who, before);
            return;
        }
        let e = exec::ex().unwrap();
        if e.cancel > 0 && chance(e.cancel, 16) {
            // the task gives up (a timeout, a lost race against another future)
            step(who, Op::FDrop);
            fiber::clear_wake();
            fiber::yield_retry();
            exec_progress(who, before);
            return;
        }
        exec_progress(who, before);
        for k in exec::wait(who) {
            for z in 0..3 {
                gg.know[who][z] = gg.know[who][z].max(k[z]);
            }
        }
        exec::deliver(false);
        if exec::ex().unwrap().stop != stop {
            step(who, Op::FDrop);
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------------- generator

impl G {
    fn ahead(&self, who: usize) -> usize {
        match who {
            P => C,
            W => P,
            _ => if self.worker { W } else { P },
        }
    }
    fn off(&self, who: usize) -> u64 {
        if who == P { self.len as u64 - 1 } else { 0 }
    }
    /// Furthest position the iterator ahead may have published by now.
    fn hi_pub(&self, y: usize) -> u64 {
        if self.resetting[y] {
            let a = self.ahead(y);
            let h = if self.resetting[a] { self.phi[P] } else { self.phi[a] };
            h.max(self.phi[y])
        } else {
            self.phi[y]
        }
    }
    fn hi_ahead(&self, who: usize) -> u64 {
        self.hi_pub(self.ahead(who)) + self.off(who)
    }
    /// Position of the iterator ahead that `who` must see by now.
    fn lo_ahead(&self, who: usize) -> u64 {
        let y = self.ahead(who);
        (if self.sc { self.plo[y] } else { self.know[who][y] }) + self.off(who)
    }
    fn ring(&self, pos: u64) -> usize {
        (pos % self.len as u64) as usize
    }
    fn fresh(&mut self) -> u64 {
        self.seq += 1;
        (self.seq + 1) & self.mask
    }
    fn est(&self, who: usize) -> usize {
        let y = self.ahead(who);
        (self.plo[y] + self.off(who)).saturating_sub(self.loc[who]) as usize
    }
    fn set(&mut self, pos: u64, v: u64) {
        while self.cur.len() <= pos as usize {
            self.cur.push(u64::MAX);
        }
        self.cur[pos as usize] = v & self.mask;
    }
}

fn size_for(who: usize) -> usize {
    let gg = g();
    let a = gg.est(who) as u32;
    let n = match weighted(&[6, 4, 3, 2]) {
        0 => 1 + choose(a.clamp(1, 6)) as usize,
        1 => a.max(1) as usize,
        2 => a as usize + 1,
        _ => choose((gg.len as u32 + 2).min(12)) as usize,
    };
    let n = n.min(if gg.vmem { 24 } else { 64 }).min(gg.cap);
    match gg.target {
        // requests that can be met before the end of the run
        Some(t) => n.min(t.saturating_sub(gg.loc[who]) as usize).max(1),
        None => n,
    }
}

fn gen(who: usize) -> Option<Op> {
    let gg = g();
    if gg.waits == Some(who) && gg.form[who] == Form::Sync && chance(1, 4) {
        let t = gg.target.unwrap();
        let n = (t - gg.loc[who]).min(gg.len as u64 - 1);
        return Some(Op::WaitFor(choose(n as u32 + 1) as usize));
    }
    if gg.form[who] == Form::Async && gg.fut[who].is_some() {
        return Some(if chance(1, 6) { Op::FDrop } else { Op::FPoll });
    }
    let cl = classes(gg.form[who], who, gg.fut[who].is_some());
    if cl.is_empty() {
        return None;
    }
    let mut w = [0u32; 24];
    let mut any = false;
    for (k, c) in cl.iter().enumerate() {
        w[k] = gg.w[*c as usize];
        if *c == Cl::Drop {
            w[k] = 0;
        }
        any |= w[k] > 0;
    }
    if !any {
        w[0] = 1;
    }
    let c = cl[weighted(&w[..cl.len()]) as usize];
    if c == Cl::FStart {
        return fut_op(who);
    }
    op_of(who, c)
}

fn fut_op(who: usize) -> Option<Op> {
    let futs: &[Cl] = match who {
            P => &[Cl::Push, Cl::PushS, Cl::NextMut, Cl::NextInit, Cl::NextSlices, Cl::One, Cl::Exact, Cl::AvailS, Cl::Mul],
            W => &[Cl::One, Cl::Exact, Cl::AvailS, Cl::Mul],
            _ => &[Cl::Pop, Cl::CopyItem, Cl::CloneItem, Cl::CopyS, Cl::CloneS, Cl::PeekOne, Cl::PeekN, Cl::One, Cl::Exact, Cl::AvailS, Cl::Mul],
        };
    match op_of(who, pick(futs)) {
        Some(Op::Push(_, true)) | Some(Op::PushS(_, true, _)) | None => None,
        Some(o) => Some(Op::FStart(Box::new(o))),
    }
}

fn op_of(who: usize, c: Cl) -> Option<Op> {
    use Cl::*;
    let gg = g();
    let init = who == P && gg.init_only;
    let adv = || {
        let lim = gg.seen[who].min(if who == P { gg.wend } else { u64::MAX });
        let mut m = lim.saturating_sub(gg.loc[who]);
        if let Some(t) = gg.target {
            m = m.min(t.saturating_sub(gg.loc[who]));
        }
        m as u32
    };
    let vals = |n: usize| (0..n).map(|_| g().fresh()).collect::<Vec<_>>();
    let sync = gg.form[who] == Form::Sync;
    Some(match c {
        Push | PushInit => {
            let i = init || c == PushInit;
            if i && !sync {
                return Some(Op::Get(Get::NextInit));
            }
            Op::Push(gg.fresh(), i)
        }
        PushS | PushSI => {
            let i = init || c == PushSI;
            if i && !sync {
                return Some(Op::Get(Get::NextInit));
            }
            let n = size_for(P).min(12);
            Op::PushS(vals(n), i, !gg.copy || chance(1, 2))
        }
        NextMut if !init => Op::Get(Get::NextMut),
        NextInit | NextMut => Op::Get(Get::NextInit),
        One if !init => Op::Get(Get::One),
        Exact if !init => Op::Get(Get::Exact(size_for(who))),
        NextSlices if !init => Op::Get(Get::NextSlices(size_for(who))),
        AvailS if !init => Op::Get(Get::AvailS),
        Mul if !init => Op::Get(Get::Mul((1 + choose((gg.len as u32).min(5)) as usize).min(gg.cap))),
        One | Exact | NextSlices | AvailS | Mul => return None,
        Adv => {
            let m = adv();
            Op::Adv(if chance(1, 2) { choose(m + 1) as usize } else { m as usize })
        }
        Avail => Op::Avail,
        Wait => return None,
        Pop => Op::Pop,
        PopMove => if gg.init_only { Op::PopMove } else { Op::Pop },
        CopyItem if gg.copy => Op::CopyItem,
        CopyItem | CloneItem => Op::CloneItem,
        CopyS if gg.copy => Op::CopyS(size_for(C).min(24)),
        CopyS | CloneS => Op::CloneS(size_for(C).min(24)),
        PeekOne => Op::Get(Get::PeekOne),
        PeekN => Op::Get(Get::PeekN(size_for(who))),
        PeekAvail => Op::Get(Get::PeekAvail),
        // (a reset may overtake the end of a drain run; that is fine: it only moves up to the iterator ahead)
        Reset => Op::Reset,
        Detach => Op::Detach,
        ToAsync => Op::ToAsync,
        ToSync => Op::ToSync,
        Drop => return None,
        GoBack => {
            let m = gg.loc[who] - gg.plo[who];
            Op::GoBack(choose(m as u32 + 1) as usize)
        }
        SetIdx => {
            // (what it was granted or has learnt: nothing it does here loads the others' positions)
            let lim = gg.seen[who].max(gg.know[who][gg.ahead(who)] + gg.off(who)).min(if who == P { gg.wend } else { u64::MAX });
            let m = lim.saturating_sub(gg.plo[who]);
            Op::SetIdx(gg.ring(gg.plo[who] + choose(m as u32 + 1) as u64))
        }
        DReset => {
            if who == P {
                return None;
            }
            Op::DReset
        }
        Sync => Op::Sync,
        Attach => Op::Attach,
        FStart | FPoll | FDrop => return None,
    })
}

// ------------------------------------------------------------------------------------------------- one operation

fn detached(f: Form) -> bool {
    matches!(f, Form::Det | Form::ADet)
}

fn look(who: usize) {
    let gg = g();
    if !gg.alive[who] {
        return;
    }
    let lo: [u64; 3] = if gg.sc { gg.plo } else { gg.know[who] };
    let done = gg.drop_done;
    let fin = gg.plo;
    let l = {
        let Some(s) = gg.st[who].as_mut() else { return };
        match s.look() {
            Some(l) => l,
            None => return,
        }
    };
    let gg = g();
    tr!("{} looks: {:?}", WHO[who], l);
    if l.len != gg.len {
        fail(b(&[18]), format!("buf_len() is {}, {} expected", l.len, gg.len));
    }
    if l.idx != gg.ring(gg.loc[who]) {
        fail(b(&[4, 12, 1]), format!("the {} is at index {}, {} expected", WHO[who], l.idx, gg.ring(gg.loc[who])));
    }
    let idx = [l.p, l.w, l.c];
    for y in 0..3 {
        if y == W && !gg.worker {
            continue;
        }
        let (a, z) = if y == who { (gg.plo[y], gg.plo[y]) } else { (lo[y], gg.hi_pub(y)) };
        if z < a || z - a >= gg.len as u64 {
            continue;
        }
        let d = (idx[y] + gg.len - gg.ring(a)) % gg.len;
        if idx[y] >= gg.len || a + d as u64 > z {
            fail(b(&[10, 4, 2]), format!(
                "the {} sees the {} at index {} although its position went from {} to at most {} (ring {} to {})",
                WHO[who], WHO[y], idx[y], a, z, gg.ring(a), gg.ring(z)));
        }
        let k = &mut gg.know[who][y];
        *k = (*k).max(a + d as u64);
    }
    for y in 0..3 {
        if y == W && !gg.worker {
            continue;
        }
        if !l.alive[y] {
            if !gg.drop_started[y] {
                fail(b(&[7]), format!("the {} sees the {} as gone although it was not dropped", WHO[who], WHO[y]));
            }
            // what it published before must be visible from now on
            count(Cnt::dead_seen, 1);
            gg.know[who][y] = gg.know[who][y].max(gg.plo[y]);
            mix(0xDEAD + y as u64);
        }
    }
    let _ = (done, fin);
}

fn step(who: usize, op: Op) -> Obs {
    let gg = g();
    count(Cnt::ops, 1);
    let eff: Op = match &op {
        Op::FPoll => gg.fut[who].clone().unwrap(),
        o => o.clone(),
    };
    let fstart = matches!(op, Op::FStart(_));
    let form = gg.form[who];
    if matches!(form, Form::Async | Form::ADet) {
        ctx_add(bit(14));
    }
    if detached(form) {
        ctx_add(bit(12));
    }
    let my = gg.loc[who];
    let lo0 = gg.lo_ahead(who);
    // what the operation asks for and whether it moves
    let (want, moves): (Option<usize>, bool) = match &eff {
        _ if fstart => (None, false),
        Op::Push(..) | Op::Pop | Op::PopMove | Op::CopyItem | Op::CloneItem => (Some(1), true),
        Op::PushS(v, ..) => (Some(v.len()), true),
        Op::CopyS(n) | Op::CloneS(n) => (Some(*n), true),
        Op::Get(Get::One | Get::NextMut | Get::NextInit | Get::PeekOne) => (Some(1), false),
        Op::Get(Get::Exact(n) | Get::NextSlices(n) | Get::PeekN(n)) => (Some(*n), false),
        _ => (None, false),
    };
    let mut saved: Vec<u64> = Vec::new();
    if !fstart {
        match &eff {
            Op::Push(v, _) => {
                saved.push(gg.cur.get(my as usize).copied().unwrap_or(u64::MAX));
                gg.set(my, *v);
            }
            Op::PushS(v, ..) => {
                for (k, x) in v.iter().enumerate() {
                    let p = my + k as u64;
                    saved.push(gg.cur.get(p as usize).copied().unwrap_or(u64::MAX));
                    gg.set(p, *x);
                }
            }
            _ => {}
        }
    }
    let up = match &eff {
        Op::Adv(n) => my + *n as u64,
        _ if moves => my + want.unwrap() as u64,
        _ => my,
    };
    let plo0 = gg.plo[who];
    if !detached(form) {
        gg.phi[who] = gg.phi[who].max(up);
    }
    match &op {
        Op::Sync | Op::Attach => gg.phi[who] = gg.phi[who].max(my),
        Op::Reset => {
            gg.resetting[who] = true;
            ctx_add(bit(11));
        }
        Op::DReset => ctx_add(bit(11)),
        Op::Drop => gg.drop_started[who] = true,
        _ => {}
    }
    let faultable = !fstart && matches!(&eff, Op::PushS(_, _, true) | Op::CloneItem | Op::CloneS(_));
    if gg.faults > 0 && gg.tracked && faultable && chance(gg.faults, 16) {
        items::clone_fault(choose(4) as i64);
    }
    tr!("{}: {:?}", WHO[who], op);
    let st = gg.st[who].as_mut().unwrap();
    let mut o = with_cx(who, |cx| st.exec(&op, cx));
    let gg = g();
    if faultable && gg.faults > 0 {
        items::clone_fault(-1);
    }
    tr!("    {} -> {:?} n={} values={:?} windows={:?}", WHO[who], o.res, o.n, o.vals, o.segs.iter().map(|s| s.1).collect::<Vec<_>>());
    if o.res == Res::Panicked {
        fail(u64::MAX >> 1, format!("{:?} by the {} panicked or resolved without a result: {}", op, WHO[who], simrt::panic_text()));
    }
    mix(who as u64 | (o.res as u64) << 4 | (disc(&op) << 8) | ((o.n + o.seg_len() + o.vals.len()) as u64) << 16);
    // (its own call in progress does not raise its own limit)
    gg.phi[who] = plo0;
    if !matches!(op, Op::Reset) {
        gg.resetting[who] = false;
    }
    let hi = {
        let y = gg.ahead(who);
        if gg.resetting[y] && gg.ahead(y) == who { plo0.max(gg.phi[y]) + gg.off(who) } else { gg.hi_ahead(who) }
    };
    let over = |n: usize| -> bool { my + n as u64 > hi };
    let lack = |n: usize| -> bool { my + n as u64 <= lo0 };
    let knowing = if gg.sc { "published before the call began" } else { "published before the threads synchronised" };

    if fstart {
        if o.res == Res::Ok {
            if let Op::FStart(i) = &op {
                gg.fut[who] = Some((**i).clone());
            }
            ctx_add(bit(14));
        }
        return o;
    }
    match &op {
        Op::FDrop => {
            gg.fut[who] = None;
            count(Cnt::cancelled_futures, 1);
            return o;
        }
        Op::FPoll if o.res != Res::Refused => gg.fut[who] = None,
        _ => {}
    }
    if o.res == Res::Na {
        restore(&eff, my, &saved);
        return o;
    }
    if o.res == Res::Faulted {
        restore(&eff, my, &saved);
        if let Op::PushS(..) = eff {
            if over(want.unwrap()) {
                fail(b(&[5, 4]), format!("{:?} by the {} touched slots beyond the limit", eff, WHO[who]));
            }
            gg.wend = gg.wend.min(my);
        }
        return o;
    }
    let ok = o.res == Res::Ok;
    // ---- requests
    let n = match &eff {
        Op::Get(Get::AvailS | Get::Mul(_) | Get::PeekAvail) => {
            if ok { o.seg_len() } else { 0 }
        }
        _ => want.unwrap_or(0),
    };
    if matches!(eff, Op::Get(_)) || moves {
        if ok && n > 0 && over(n) {
            fail(b(&[1, 2, 3, 4, 5]), format!("{:?} by the {} at position {} was granted {} slots although the limit is position {}", eff, WHO[who], my, n, hi));
        }
        if let Some(n) = want {
            if !ok && n > 0 && lack(n) {
                let mut p = b(&[10, 2]);
                if gg.drop_started[gg.ahead(who)] {
                    p |= bit(7);
                }
                fail(p, format!("{:?} by the {} at position {} was refused although position {} was {}", eff, WHO[who], my, lo0, knowing));
            }
        }
        let r = match &eff {
            Op::Get(Get::AvailS | Get::PeekAvail) => Some(1),
            Op::Get(Get::Mul(r)) => Some(*r),
            _ => None,
        };
        if let Some(r) = r {
            if n % r != 0 {
                fail(b(&[6]), format!("{:?} by the {} gives {} slots", eff, WHO[who], n));
            }
            if lack(n + r) {
                fail(b(&[10, 5]), format!("{:?} by the {} at position {} gives {} slots although position {} was {}", eff, WHO[who], my, n, lo0, knowing));
            }
        }
        if ok {
            gg.seen[who] = gg.seen[who].max(my + n as u64);
            learn(who, my + n as u64);
        } else {
            gg.refused += 1;
            count(Cnt::api_refused, 1);
            if o.dst_dirty {
                fail(b(&[5]), format!("{:?} by the {} was refused but wrote into the caller's buffer", eff, WHO[who]));
            }
        }
    }
    match &eff {
        Op::Avail => {
            if over(o.n) {
                fail(b(&[5, 4]), format!("available() of the {} at position {} is {} although the limit is position {}", WHO[who], my, o.n, hi));
            }
            if lack(o.n + 1) {
                fail(b(&[10, 5]), format!("available() of the {} at position {} is {} although position {} was {}", WHO[who], my, o.n, lo0, knowing));
            }
            gg.seen[who] = gg.seen[who].max(my + o.n as u64);
            learn(who, my + o.n as u64);
        }
        Op::WaitFor(n) => {
            if over(*n) {
                fail(b(&[5, 4]), format!("wait_for({}) of the {} returned although the limit is position {}", n, WHO[who], hi));
            }
            gg.seen[who] = gg.seen[who].max(my + *n as u64);
            learn(who, my + *n as u64);
        }
        Op::Adv(n) => moved(who, *n as u64),
        Op::Push(v, _) => {
            if ok {
                gg.wend = gg.wend.max(my + 1);
                moved(who, 1);
                count(Cnt::items_pushed, 1);
            } else {
                restore(&eff, my, &saved);
                if op == eff && gg.form[who] == Form::Sync && o.ret != Some(*v) {
                    fail(b(&[5, 8]), format!("a refused push of {} hands back {:?}", v, o.ret));
                }
            }
        }
        Op::PushS(v, ..) => {
            if o.dst_dirty {
                fail(b(&[5, 1]), "pushing a slice modified the caller's slice".into());
            }
            if ok {
                gg.wend = gg.wend.max(my + v.len() as u64);
                moved(who, v.len() as u64);
                count(Cnt::items_pushed, v.len() as u64);
            } else {
                restore(&eff, my, &saved);
            }
        }
        Op::Pop | Op::PopMove | Op::CopyItem | Op::CloneItem | Op::CopyS(_) | Op::CloneS(_) if ok => {
            for k in 0..n {
                let e = gg.cur.get(my as usize + k).copied().unwrap_or(u64::MAX);
                if o.vals.get(k) != Some(&e) {
                    fail(b(&[1, 2]), format!("{:?}: the consumer obtains {:?} as item {} of the stream, {} was accepted there", eff, o.vals.get(k), my + k as u64, e));
                }
            }
            gg.consumed += n as u64;
            count(Cnt::items_consumed, n as u64);
            moved(who, n as u64);
        }
        Op::Get(gt) if ok => window(who, *gt, &eff, &o, n, form),
        Op::Detach => gg.form[who] = if form == Form::Sync { Form::Det } else { Form::ADet },
        Op::Attach => {
            gg.form[who] = if form == Form::Det { Form::Sync } else { Form::Async };
            publish(who);
        }
        Op::Sync => publish(who),
        Op::GoBack(k) => {
            gg.loc[who] -= *k as u64;
            count(Cnt::detached_moves, 1);
        }
        Op::SetIdx(i) => {
            let d = (*i + gg.len - gg.ring(gg.plo[who])) % gg.len;
            gg.loc[who] = gg.plo[who] + d as u64;
            count(Cnt::detached_moves, 1);
        }
        Op::Reset | Op::DReset => {
            // where did it go? somewhere between its old position and that of the iterator ahead
            let l = gg.st[who].as_mut().unwrap().look();
            let gg = g();
            let Some(l) = l else { fail(b(&[11]), "reset_index on an iterator that is gone (driver)".into()) };
            let y = gg.ahead(who);
            let base = my;
            let hi = gg.hi_pub(y);
            let top = hi.min(gg.plo[who] + gg.len as u64 - 1).max(base);
            let d = (l.idx + gg.len - gg.ring(base)) % gg.len;
            let to = base + d as u64;
            if l.idx >= gg.len || to > top {
                fail(b(&[11, 4, 3, 2]), format!("reset_index moves the {} from position {} to index {}: past the {} (at most at position {})", WHO[who], base, l.idx, WHO[y], top));
            }
            if to < lo0 {
                fail(b(&[11, 10]), format!("reset_index leaves the {} at position {} although position {} was {}", WHO[who], to, lo0, knowing));
            }
            if op == Op::Reset {
                let own = [l.p, l.w, l.c][who];
                if own != l.idx {
                    fail(b(&[11]), format!("reset_index does not publish what was skipped: the {} is at index {}, {} is published", WHO[who], l.idx, own));
                }
            }
            gg.loc[who] = to;
            gg.seen[who] = to;
            gg.know[who][y] = gg.know[who][y].max(to);
            count(Cnt::resets, 1);
            gg.resetting[who] = false;
            if op == Op::Reset {
                publish(who);
            } else {
                count(Cnt::detached_moves, 1);
            }
        }
        Op::ToAsync => {
            gg.form[who] = Form::Async;
            ctx_add(bit(14));
        }
        Op::ToSync => gg.form[who] = Form::Sync,
        Op::Drop => {
            gg.alive[who] = false;
            gg.form[who] = Form::Gone;
            gg.fut[who] = None;
            gg.loc[who] = gg.plo[who];
            gg.drop_done[who] = true;
            count(Cnt::stage_drops, 1);
        }
        _ => {}
    }
    gg.phi[who] = gg.plo[who];
    o.segs.clear();
    o
}

fn restore(eff: &Op, my: u64, saved: &[u64]) {
    if matches!(eff, Op::Push(..) | Op::PushS(..)) {
        for (k, v) in saved.iter().enumerate() {
            g().cur[my as usize + k] = *v;
        }
    }
}

/// The iterator ahead must have been seen at least there.
fn learn(who: usize, pos: u64) {
    let gg = g();
    let y = gg.ahead(who);
    let p = pos.saturating_sub(gg.off(who));
    gg.know[who][y] = gg.know[who][y].max(p);
}

fn publish(who: usize) {
    let gg = g();
    gg.plo[who] = gg.loc[who];
    gg.phi[who] = gg.loc[who];
}

fn moved(who: usize, n: u64) {
    let gg = g();
    let r = gg.ring(gg.loc[who]) as u64;
    if r + n >= gg.len as u64 && n > 0 {
        count(Cnt::wraps, 1);
    }
    gg.loc[who] += n;
    gg.seen[who] = gg.seen[who].max(gg.loc[who]);
    if detached(gg.form[who]) {
        count(Cnt::detached_moves, 1);
    } else {
        publish(who);
    }
}

fn window(who: usize, gt: Get, op: &Op, o: &Obs, n: usize, form: Form) {
    let gg = g();
    let my = gg.loc[who];
    let bad = |m: String| fail(b(&[6]), format!("{:?} of the {} at position {}: {}", op, WHO[who], my, m));
    if o.seg_len() != n {
        bad(format!("the window has {} elements, {} requested", o.seg_len(), n));
    }
    if n == 0 {
        return;
    }
    let idx = gg.ring(my);
    let base = o.segs[0].0.wrapping_sub(idx * gg.size);
    if gg.base == 0 {
        gg.base = base;
    } else if gg.base != base {
        fail(b(&[6, 17]), format!("{:?} of the {}: element 0 is at byte {} of the storage, index {} is at byte {}", op, WHO[who],
            o.segs[0].0 as i64 - gg.base as i64, idx, idx * gg.size));
    }
    if !gg.vmem {
        if mem::block_of(base, gg.len * gg.size).is_none() {
            bad("the window does not belong to storage of the buffer's length".into());
        }
        let head = n.min(gg.len - idx);
        if o.segs[0].1 != head || (n > head && (o.segs.len() != 2 || o.segs[1].0 != gg.base || o.segs[1].1 != n - head)) {
            bad(format!("head and tail have {:?} elements, {} reach up to the physical end", o.segs.iter().map(|s| s.1).collect::<Vec<_>>(), head));
        }
    }
    if n > gg.len - idx {
        count(Cnt::seam_slices, 1);
    }
    let read_only = matches!(gt, Get::PeekOne | Get::PeekN(_) | Get::PeekAvail);
    let m = n.min(24);
    let mut left = m;
    let mut segs: Vec<(usize, usize)> = Vec::with_capacity(2);
    for s in &o.segs {
        let k = s.1.min(left);
        if k > 0 {
            segs.push((s.0, k));
        }
        left -= k;
    }
    let s = gg.st[who].as_ref().unwrap();
    let mut adv = m;
    if who == P {
        let vals: Vec<u64> = (0..m).map(|_| g().fresh()).collect();
        if gt == Get::NextInit {
            let mut buf = [0u8; 160];
            unsafe { mem::peek(segs[0].0, buf.as_mut_ptr(), gg.size) };
            let empty = buf[..gg.size].iter().all(|x| *x == 0);
            s.touch(&segs, Touch::Init(&vals[..1], &[empty]));
        } else {
            s.touch(&segs, Touch::Assign(&vals));
        }
        let gg = g();
        for (k, v) in vals.iter().enumerate() {
            gg.set(my + k as u64, *v);
        }
        gg.wend = gg.wend.max(my + m as u64);
        count(Cnt::items_pushed, m as u64);
    } else {
        let what = if read_only { 0 } else { weighted(&[3, 5, 2]) };
        let mask = gg.mask;
        let f = move |v: u64| edit(v, mask);
        if what == 2 {
            // replace whole values: those seen before are read first
            let seen = s.touch(&segs, Touch::Read);
            compare(who, op, my, &seen);
            let vals: Vec<u64> = seen.iter().map(|v| f(*v)).collect();
            g().st[who].as_ref().unwrap().touch(&segs, Touch::Assign(&vals));
            for (k, v) in vals.iter().enumerate() {
                g().set(my + k as u64, *v);
            }
            count(Cnt::edits, m as u64);
        } else if what == 1 {
            let seen = s.touch(&segs, Touch::Edit(&f));
            compare(who, op, my, &seen);
            for (k, v) in seen.iter().enumerate() {
                g().set(my + k as u64, f(*v));
            }
            count(Cnt::edits, m as u64);
        } else {
            let seen = s.touch(&segs, Touch::Read);
            compare(who, op, my, &seen);
        }
        if who == C {
            g().consumed += m as u64;
        }
    }
    let gg = g();
    if let Some(t) = gg.target {
        adv = adv.min(t.saturating_sub(my) as usize);
    }
    // (in a drain run usually move on)
    if form == Form::Gone || chance(1, if gg.target.is_some() { 8 } else { 4 }) {
        return;
    }
    if chance(1, 4) {
        adv = choose(adv as u32 + 1) as usize;
    }
    gg.pending[who] = Some(Op::Adv(adv));
}

fn compare(who: usize, op: &Op, my: u64, vals: &[u64]) {
    let gg = g();
    for (k, v) in vals.iter().enumerate() {
        let e = gg.cur.get(my as usize + k).copied().unwrap_or(u64::MAX);
        if *v != e {
            fail(b(&[1, 2, 3]), format!("{:?}: the {} reads {} at position {}, {} was released to it", op, WHO[who], v, my + k as u64, e));
        }
    }
}
