//! The callbacks rustc inserts (`-Zsanitizer=thread`), implemented by the simulator:
//! memory model (views over per-location modification orders), happens-before race detection per byte,
//! access validation, scheduling points, step bounds.

use crate::{bit, choice, count, fiber, mem, mix, violation, Cnt};
use core::sync::atomic::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    Single,
    Conc,
}

pub static mut MODE: Mode = Mode::Off;

const NT: usize = fiber::MAXF;
const NL: usize = 24;
/// shadow cells: the arena's first bytes, then those of memory-mapped files
const ARENA_CELLS: usize = 256 << 10;
const SHADOW: usize = ARENA_CELLS + crate::mem::VM_CELLS;
const CPAGE: usize = 10;
static mut DIRTY: [bool; SHADOW >> CPAGE] = [false; SHADOW >> CPAGE];

#[inline(always)]
unsafe fn dirty(i0: usize, end: usize) {
    if end > i0 {
        DIRTY[i0 >> CPAGE] = true;
        DIRTY[(end - 1) >> CPAGE] = true;
        let mut p = (i0 >> CPAGE) + 1;
        while p < (end - 1) >> CPAGE {
            DIRTY[p] = true;
            p += 1;
        }
    }
}

// ------------------------------------------------------------------------------------------------- step counting

static mut STEPS: u64 = 0;
static mut CALL_ATOMICS: [u64; NT] = [0; NT];
static mut CALL_ACCESS: [u64; NT] = [0; NT];
static mut IN_CALL: [bool; NT] = [false; NT];
static mut WAITING: [bool; NT] = [false; NT];
static mut LIM_ACCESS: [u64; NT] = [0; NT];
static mut PRE: i64 = -1;
static mut PRE_RANGE: u32 = 0;
static mut GLOBAL_LIMIT: u64 = u64::MAX;
static mut LIM_ATOMICS: [u64; NT] = [0; NT];

#[inline(never)]
pub fn total_steps() -> u64 {
    unsafe { STEPS }
}

pub fn set_limit(n: u64) {
    unsafe { GLOBAL_LIMIT = n }
}

/// A call into the program under test begins; `n` is the number of slots it is about.
#[inline(never)]
pub fn call_begin(n: usize, waiting: bool) {
    unsafe {
        let c = fiber::cur();
        CALL_ATOMICS[c] = 0;
        CALL_ACCESS[c] = 0;
        IN_CALL[c] = true;
        WAITING[c] = waiting;
        LIM_ACCESS[c] = 400_000 + 4_000 * n.min(1 << 20) as u64;
        LIM_ATOMICS[c] = 3_000 + 4 * n.min(1 << 12) as u64;
        mem::TRACK = true;
        count(Cnt::api_calls, 1);
    }
}

#[inline(never)]
pub fn call_end() {
    unsafe {
        mem::TRACK = false;
        IN_CALL[fiber::cur()] = false;
        fiber::api_done();
    }
}

#[inline(always)]
unsafe fn step_access() {
    STEPS += 1;
    let c = CUR_T;
    if IN_CALL[c] {
        CALL_ACCESS[c] += 1;
        if CALL_ACCESS[c] > LIM_ACCESS[c] && !WAITING[c] {
            unbounded();
        }
    }
    if STEPS > GLOBAL_LIMIT {
        global_limit();
    }
}

#[cold]
#[inline(never)]
unsafe fn unbounded() -> ! {
    violation(bit(10), "an operation does not return within a bounded number of its own steps (it waits for another thread or loops)")
}

#[cold]
#[inline(never)]
unsafe fn global_limit() -> ! {
    violation(bit(10) | bit(2) | bit(15), "the pipeline makes no progress although every stage keeps retrying (step budget exhausted)")
}

// ------------------------------------------------------------------------------------------------- memory model

#[derive(Clone, Copy)]
struct View {
    vc: [u32; NT],
    ts: [u32; NL],
}

const V0: View = View { vc: [0; NT], ts: [0; NL] };

impl View {
    #[inline]
    fn join(&mut self, o: &View) {
        for i in 0..NT {
            if o.vc[i] > self.vc[i] { self.vc[i] = o.vc[i] }
        }
        for i in 0..NL {
            if o.ts[i] > self.ts[i] { self.ts[i] = o.ts[i] }
        }
    }
}

#[derive(Clone, Copy)]
struct Rec {
    val: u64,
    view: View,
}

struct Loc {
    addr: usize,
    size: usize,
    hist: Vec<Rec>,
}

#[derive(Clone, Copy)]
struct Th {
    cur: View,
    acq: View,
    rel: View,
    has_rel: bool,
}

const T0: Th = Th { cur: V0, acq: V0, rel: V0, has_rel: false };

static mut TH: [Th; NT] = [T0; NT];
static mut CUR_T: usize = 0;
static mut LOCS: Vec<Loc> = Vec::new();
static mut SCV: [u32; NL] = [0; NL];
static mut STALE_RUN: [[u32; NL]; NT] = [[0; NL]; NT];

/// probability (per 16) that a load reads an older legal store; 0 = sequentially consistent run
static mut P_STALE: u32 = 0;
static mut MAX_STALE: u32 = 4;

#[derive(Clone, Copy)]
struct Cell {
    wt: u8,
    wc: u32,
    /// last access clocks: plain reads, atomic reads, atomic writes
    r: [u32; NT],
    ar: [u32; NT],
    aw: [u32; NT],
}

const C0: Cell = Cell { wt: 0, wc: 0, r: [0; NT], ar: [0; NT], aw: [0; NT] };
static mut CELLS: Vec<Cell> = Vec::new();

pub fn set_memory(p_stale: u32, max_stale: u32) {
    unsafe {
        P_STALE = p_stale;
        MAX_STALE = max_stale.max(1);
    }
}

pub fn is_sc() -> bool {
    unsafe { P_STALE == 0 }
}

/// preempt also between plain accesses, every 1..=range of them (0 = never)
pub fn set_access_preemption(range: u32) {
    unsafe {
        PRE_RANGE = range;
        PRE = -1;
    }
}

pub fn set_mode(m: Mode) {
    unsafe {
        if m == Mode::Conc && CELLS.is_empty() {
            CELLS = vec![C0; SHADOW];
        }
        MODE = m;
    }
}


pub(crate) fn reset() {
    unsafe {
        MODE = Mode::Off;
        STEPS = 0;
        CALL_ATOMICS = [0; NT];
        CALL_ACCESS = [0; NT];
        IN_CALL = [false; NT];
        WAITING = [false; NT];
        PRE = -1;
        PRE_RANGE = 0;
        GLOBAL_LIMIT = u64::MAX;
        TH = [T0; NT];
        for t in 0..NT {
            TH[t].cur.vc[t] = 1;
        }
        CUR_T = 0;
        LOCS.clear();
        SCV = [0; NL];
        STALE_RUN = [[0; NL]; NT];
        P_STALE = 0;
        for p in 0..DIRTY.len() {
            if DIRTY[p] {
                DIRTY[p] = false;
                CELLS[p << CPAGE..(p + 1) << CPAGE].fill(C0);
            }
        }
    }
}

pub(crate) fn fiber_spawn(p: usize, c: usize) {
    unsafe {
        let v = TH[p].cur;
        let own = TH[c].cur.vc[c].max(1);
        TH[c] = T0;
        TH[c].cur = v;
        TH[c].cur.vc[c] = own.max(v.vc[c]) + 1;
        TH[p].cur.vc[p] += 1;
    }
}

pub(crate) fn fiber_done(_c: usize) {}

pub(crate) fn fiber_join(p: usize, c: usize) {
    unsafe {
        let v = TH[c].cur;
        TH[p].cur.join(&v);
        TH[c].cur.vc[c] += 1;
    }
}

pub(crate) fn leave(_i: usize) {}

pub(crate) fn enter_fiber(i: usize) {
    unsafe { CUR_T = i }
}

// synchronisation the driver itself provides (messages between simulated threads)

#[derive(Clone)]
pub struct Msg(View);

/// Release everything the current thread did into a message.
#[inline(never)]
pub fn hb_send() -> Msg {
    unsafe {
        let v = TH[CUR_T].cur;
        TH[CUR_T].cur.vc[CUR_T] += 1;
        Msg(v)
    }
}

/// Acquire a message.
#[inline(never)]
pub fn hb_recv(m: &Msg) {
    unsafe { TH[CUR_T].cur.join(&m.0) }
}

// ------------------------------------------------------------------------------------------------- shadow

#[inline(always)]
unsafe fn cell_index(a: usize) -> Option<usize> {
    if mem::in_arena(a) {
        let i = a - mem::BASE;
        if i < ARENA_CELLS { Some(i) } else { None }
    } else {
        None
    }
}

#[cold]
#[inline(never)]
unsafe fn race(kind: &str, a: usize, other: usize) -> ! {
    MODE = Mode::Off;
    mem::TRACK = false;
    let d = mem::block_of(a, 1).map(|b| format!("byte {} of a block of {}", a - b.start, b.size)).unwrap_or_default();
    let props = if kind.contains("free") { bit(7) | bit(3) } else { bit(3) | bit(2) | bit(7) };
    violation(props, &format!("data race: {} by thread {} and thread {} without happens-before ({})", kind, CUR_T, other, d));
}

unsafe fn shadow(a: usize, n: usize, write: bool, kind: &'static str) {
    let t = CUR_T;
    let vc = &TH[t].cur.vc;
    let clk = vc[t];
    let Some(i0) = cell_index(a) else { return };
    let end = (i0 + n).min(ARENA_CELLS);
    dirty(i0, end);
    for i in i0..end {
        let c = &mut CELLS[i];
        if c.wc > vc[c.wt as usize] {
            race(if kind.is_empty() { if write { "write/write" } else { "write/read" } } else { kind }, mem::BASE + i, c.wt as usize);
        }
        for o in 0..NT {
            if c.aw[o] > vc[o] || (write && c.ar[o] > vc[o]) {
                race(if kind.is_empty() { "atomic/plain access" } else { kind }, mem::BASE + i, o);
            }
        }
        if write {
            for o in 0..NT {
                if c.r[o] > vc[o] {
                    race(if kind.is_empty() { "read/write" } else { kind }, mem::BASE + i, o);
                }
            }
            c.wt = t as u8;
            c.wc = clk;
        } else {
            c.r[t] = clk;
        }
    }
    count(Cnt::races_checked, (end - i0) as u64);
}

unsafe fn shadow_atomic(a: usize, n: usize, write: bool) {
    let t = CUR_T;
    let vc = &TH[t].cur.vc;
    let Some(i0) = cell_index(a) else { return };
    let end = (i0 + n).min(ARENA_CELLS);
    dirty(i0, end);
    for i in i0..end {
        let c = &mut CELLS[i];
        if c.wc > vc[c.wt as usize] {
            race("plain write/atomic access", mem::BASE + i, c.wt as usize);
        }
        for o in 0..NT {
            if write && c.r[o] > vc[o] {
                race("plain read/atomic access", mem::BASE + i, o);
            }
        }
        if write { c.aw[t] = vc[t] } else { c.ar[t] = vc[t] }
    }
}

pub(crate) fn on_alloc(_a: usize, _n: usize) {}

pub(crate) fn on_free(a: usize, n: usize) {
    unsafe {
        if MODE == Mode::Conc {
            shadow(a, n, true, "free/access");
        }
    }
}

#[inline(always)]
unsafe fn plain(a: usize, n: usize, write: bool) {
    if MODE == Mode::Off || n == 0 {
        return;
    }
    if !mem::in_arena(a) {
        #[cfg(feature = "vm")]
        if crate::vm::covers(a) {
            step_access();
            let b = crate::vm::check(a, n, write);
            if MODE == Mode::Conc {
                conc_plain_vm(b, n, write);
            }
            return;
        }
        step_access();
        return;
    }
    step_access();
    mem::check(a, n, write);
    if MODE == Mode::Conc {
        conc_plain(a, n, write);
    }
}

#[inline]
unsafe fn preempt() {
    if PRE_RANGE > 0 {
        if PRE < 0 {
            PRE = choice::choose(PRE_RANGE) as i64;
        }
        if PRE == 0 {
            PRE = -1;
            fiber::sched_point();
        } else {
            PRE -= 1;
        }
    }
}

#[inline(never)]
unsafe fn conc_plain(a: usize, n: usize, write: bool) {
    count(Cnt::accesses, 1);
    if PRE_RANGE > 0 {
        preempt();
        // the world may have changed meanwhile
        mem::check(a, n, write);
    }
    shadow(a, n, write, "");
    if write && !LOCS.is_empty() {
        kill_locs(a, n);
    }
}

#[cfg(feature = "vm")]
unsafe fn conc_plain_vm(off: usize, n: usize, write: bool) {
    // shadow cells of the mirrored region live above the arena part
    count(Cnt::accesses, 1);
    preempt();
    let t = CUR_T;
    let vc = &TH[t].cur.vc;
    let clk = vc[t];
    for k in 0..n {
        let i = crate::vm::cell(off + k);
        if i >= crate::mem::VM_CELLS {
            continue;
        }
        let i = ARENA_CELLS + i;
        dirty(i, i + 1);
        let c = &mut CELLS[i];
        if c.wc > vc[c.wt as usize] {
            let w = c.wt as usize;
            race("write/access", 0, w);
        }
        if write {
            for o in 0..NT {
                if c.r[o] > vc[o] {
                    race("read/write", 0, o);
                }
            }
            c.wt = t as u8;
            c.wc = clk;
        } else {
            c.r[t] = clk;
        }
    }
    count(Cnt::races_checked, n as u64);
}

unsafe fn kill_locs(a: usize, n: usize) {
    for l in LOCS.iter_mut() {
        if l.addr < a + n && a < l.addr + l.size {
            l.hist.clear();
        }
    }
}

// ------------------------------------------------------------------------------------------------- atomics

const RLX: i32 = 0;
const CON: i32 = 1;
const ACQ: i32 = 2;
const REL: i32 = 3;
const AR: i32 = 4;
const SC: i32 = 5;

#[inline]
fn is_acq(o: i32) -> bool {
    matches!(o, CON | ACQ | AR | SC)
}
#[inline]
fn is_rel(o: i32) -> bool {
    matches!(o, REL | AR | SC)
}

unsafe fn mem_load(a: usize, size: usize) -> u64 {
    match size {
        1 => *(a as *const u8) as u64,
        2 => *(a as *const u16) as u64,
        4 => *(a as *const u32) as u64,
        _ => *(a as *const u64),
    }
}

unsafe fn mem_store(a: usize, size: usize, v: u64) {
    match size {
        1 => *(a as *mut u8) = v as u8,
        2 => *(a as *mut u16) = v as u16,
        4 => *(a as *mut u32) = v as u32,
        _ => *(a as *mut u64) = v,
    }
}

unsafe fn loc(a: usize, size: usize) -> usize {
    let v = mem_load(a, size);
    for (i, l) in LOCS.iter_mut().enumerate() {
        if l.addr == a {
            if l.hist.is_empty() {
                // (re)initialised by a plain write; readers are ordered after it by the race check
                l.hist.push(Rec { val: v, view: V0 });
                for t in 0..NT {
                    TH[t].cur.ts[i] = 0;
                    TH[t].acq.ts[i] = 0;
                    TH[t].rel.ts[i] = 0;
                }
                SCV[i] = 0;
            }
            return i;
        }
    }
    if LOCS.len() == NL {
        crate::fiber::too_long();
    }
    let t = mem::TRACK;
    mem::TRACK = false;
    let mut h = Vec::with_capacity(64);
    h.push(Rec { val: v, view: V0 });
    LOCS.push(Loc { addr: a, size, hist: h });
    mem::TRACK = t;
    LOCS.len() - 1
}

unsafe fn sc_fence() {
    let t = CUR_T;
    for i in 0..NL {
        let m = TH[t].cur.ts[i].max(SCV[i]);
        TH[t].cur.ts[i] = m;
        SCV[i] = m;
    }
}

unsafe fn step_atomic(a: usize, size: usize, write: bool) {
    STEPS += 1;
    count(Cnt::atomics, 1);
    let c = CUR_T;
    if IN_CALL[c] {
        CALL_ATOMICS[c] += 1;
        if CALL_ATOMICS[c] > LIM_ATOMICS[c] && !WAITING[c] {
            unbounded();
        }
    }
    if STEPS > GLOBAL_LIMIT {
        global_limit();
    }
    mem::check(a, size, write);
}

unsafe fn sim_load(a: usize, size: usize, o: i32) -> u64 {
    step_atomic(a, size, false);
    if MODE == Mode::Single {
        return mem_load(a, size);
    }
    if WAITING[CUR_T] && CALL_ATOMICS[CUR_T] > 8 {
        fiber::yield_retry();
    } else {
        fiber::sched_point();
    }
    mem::check(a, size, false);
    shadow_atomic(a, size, false);
    let t = CUR_T;
    let i = loc(a, size);
    if o == SC {
        sc_fence();
    }
    let last = LOCS[i].hist.len() as u32 - 1;
    let floor = TH[t].cur.ts[i].min(last);
    let mut k = last;
    if P_STALE > 0 && floor < last && STALE_RUN[t][i] < MAX_STALE {
        let span = (last - floor).min(7) + 1;
        let back = choice::choose_by(span, |r| {
            if (r() % 16) as u32 >= P_STALE { 0 } else { (r() % span as u64) as u32 }
        });
        if back > 0 {
            STALE_RUN[t][i] += 1;
            k = last - back;
            count(Cnt::stale_reads, 1);
            if crate::TRACE {
                let tr = mem::TRACK;
                mem::TRACK = false;
                crate::trace_line(format!("atomic #{} reads a store {} behind the newest", i, back));
                mem::TRACK = tr;
            }
        } else {
            STALE_RUN[t][i] = 0;
        }
    } else {
        STALE_RUN[t][i] = 0;
    }
    let rec = LOCS[i].hist[k as usize];
    let th = &mut TH[t];
    if k > th.cur.ts[i] {
        th.cur.ts[i] = k;
    }
    if is_acq(o) {
        th.cur.join(&rec.view);
    } else {
        th.acq.join(&rec.view);
    }
    if o == SC {
        sc_fence();
    }
    mix(0xA0 + i as u64 + ((t as u64) << 8) + ((last - k) as u64) * 65536 + (rec.val << 24));
    rec.val
}

unsafe fn push_store(i: usize, a: usize, size: usize, v: u64, o: i32, prev: Option<View>) {
    let t = CUR_T;
    let idx = LOCS[i].hist.len() as u32;
    let th = &mut TH[t];
    th.cur.ts[i] = idx;
    let mut view = if is_rel(o) {
        th.cur
    } else if th.has_rel {
        let mut x = th.rel;
        x.ts[i] = idx;
        x
    } else {
        let mut x = V0;
        x.ts[i] = idx;
        x
    };
    if let Some(p) = prev {
        view.join(&p);
    }
    let tr = mem::TRACK;
    mem::TRACK = false;
    LOCS[i].hist.push(Rec { val: v, view });
    mem::TRACK = tr;
    mem_store(a, size, v);
    if is_rel(o) {
        TH[t].cur.vc[t] += 1;
    }
}

unsafe fn sim_store(a: usize, size: usize, v: u64, o: i32) {
    step_atomic(a, size, true);
    if MODE == Mode::Single {
        mem_store(a, size, v);
        return;
    }
    fiber::sched_point();
    mem::check(a, size, true);
    shadow_atomic(a, size, true);
    let i = loc(a, size);
    if o == SC {
        sc_fence();
    }
    push_store(i, a, size, v, o, None);
    if o == SC {
        sc_fence();
    }
    mix(0xB0 + i as u64 + ((CUR_T as u64) << 8) + (v << 24));
}

unsafe fn sim_rmw(a: usize, size: usize, o: i32, fail_o: i32, f: &mut dyn FnMut(u64) -> Option<u64>) -> u64 {
    step_atomic(a, size, true);
    if MODE == Mode::Single {
        let old = mem_load(a, size);
        if let Some(n) = f(old) {
            mem_store(a, size, n);
        }
        return old;
    }
    fiber::sched_point();
    mem::check(a, size, true);
    shadow_atomic(a, size, true);
    let t = CUR_T;
    let i = loc(a, size);
    let last = LOCS[i].hist.len() - 1;
    let rec = LOCS[i].hist[last];
    let new = f(rec.val);
    let eff = if new.is_some() { o } else { fail_o };
    if eff == SC {
        sc_fence();
    }
    TH[t].cur.ts[i] = last as u32;
    if is_acq(eff) {
        TH[t].cur.join(&rec.view);
    } else {
        TH[t].acq.join(&rec.view);
    }
    if let Some(n) = new {
        push_store(i, a, size, n, o, Some(rec.view));
    }
    if eff == SC {
        sc_fence();
    }
    mix(0xC0 + i as u64 + ((t as u64) << 8) + (rec.val << 24));
    rec.val
}

unsafe fn sim_fence(o: i32) {
    STEPS += 1;
    count(Cnt::fences, 1);
    if MODE == Mode::Single {
        return;
    }
    fiber::sched_point();
    let t = CUR_T;
    if is_acq(o) {
        let a = TH[t].acq;
        TH[t].cur.join(&a);
    }
    if o == SC {
        sc_fence();
    }
    if is_rel(o) {
        TH[t].rel = TH[t].cur;
        TH[t].has_rel = true;
        TH[t].cur.vc[t] += 1;
    }
}

#[inline(always)]
unsafe fn simulated(a: usize) -> bool {
    MODE != Mode::Off && mem::in_arena(a)
}

macro_rules! atomics {
    ($n:literal, $t:ty, $at:ty, $ld:ident, $st:ident, $xc:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cv:ident, $cs:ident, $cw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $ld(a: *const $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_load(a as usize, $n, o) as $t; }
            (*(a as *const $at)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $st(a: *mut $t, v: $t, o: i32) {
            if simulated(a as usize) { return sim_store(a as usize, $n, v as u64, o); }
            (*(a as *const $at)).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xc(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |_| Some(v as u64)) as $t; }
            (*(a as *const $at)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some((x as $t).wrapping_add(v) as u64)) as $t; }
            (*(a as *const $at)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some((x as $t).wrapping_sub(v) as u64)) as $t; }
            (*(a as *const $at)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some(((x as $t) & v) as u64)) as $t; }
            (*(a as *const $at)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some(((x as $t) | v) as u64)) as $t; }
            (*(a as *const $at)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some(((x as $t) ^ v) as u64)) as $t; }
            (*(a as *const $at)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, o: i32) -> $t {
            if simulated(a as usize) { return sim_rmw(a as usize, $n, o, o, &mut |x| Some((!((x as $t) & v)) as u64)) as $t; }
            (*(a as *const $at)).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cv(a: *mut $t, e: $t, d: $t, o: i32, fo: i32) -> $t {
            if simulated(a as usize) {
                return sim_rmw(a as usize, $n, o, fo, &mut |x| if x as $t == e { Some(d as u64) } else { None }) as $t;
            }
            match (*(a as *const $at)).compare_exchange(e, d, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) | Err(x) => x }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cs(a: *mut $t, e: *mut $t, d: $t, o: i32, fo: i32) -> i32 {
            let old = $cv(a, *e, d, o, fo);
            if old == *e { 1 } else { *e = old; 0 }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cw(a: *mut $t, e: *mut $t, d: $t, o: i32, fo: i32) -> i32 {
            $cs(a, e, d, o, fo)
        }
    };
}

atomics!(1, u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(2, u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(4, u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(8, u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    if MODE != Mode::Off {
        return sim_fence(o);
    }
    fence(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

// ------------------------------------------------------------------------------------------------- plain accesses

macro_rules! rw {
    ($($n:literal $r:ident $w:ident $ur:ident $uw:ident $rw:ident $urw:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $ur(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $uw(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $rw(a: usize) { plain(a, $n, false); plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $urw(a: usize) { plain(a, $n, false); plain(a, $n, true) }
    )* };
}
rw! {
    1 __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_read_write1 __tsan_unaligned_read_write1;
    2 __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_read_write2 __tsan_unaligned_read_write2;
    4 __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_read_write4 __tsan_unaligned_read_write4;
    8 __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_read_write8 __tsan_unaligned_read_write8;
    16 __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_read_write16 __tsan_unaligned_read_write16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) { plain(a, n, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) { plain(a, n, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_a: usize, _b: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(_a: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    libc::memcpy(d as _, s as _, n) as _
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    libc::memmove(d as _, s as _, n) as _
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    plain(d as usize, n, true);
    libc::memset(d as _, v, n) as _
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: usize) {
    if MODE != Mode::Off {
        step_access();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
