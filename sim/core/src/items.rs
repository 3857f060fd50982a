//! Item types stored in the simulated buffers, and the ledger of counted items.

use mutringbuf::iterators::{ConsIter, ProdIter};
use mutringbuf::MutRB;
use simrt::{bit, count, violation, Cnt};

pub struct RawSlot {
    pub zero: bool,
    pub ok: bool,
    pub val: u64,
    pub uid: u32,
}

pub trait Item: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const COPY: bool;
    const TRACKED: bool;
    const MASK: u64;

    fn make(v: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, v: u64);
    fn uid(&self) -> u32 {
        0
    }
    /// Interpret the raw bytes of a slot (no access of the simulated program).
    fn raw(b: &[u8]) -> RawSlot;

    fn push_slice<B: MutRB<Item = Self> + 'static>(_p: &mut ProdIter<'static, B>, _s: &[Self], _init: bool) -> Option<Option<()>> {
        None
    }
    fn copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(_c: &mut ConsIter<'static, B, W>, _d: &mut Self) -> Option<Option<()>> {
        None
    }
    fn copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(_c: &mut ConsIter<'static, B, W>, _d: &mut [Self]) -> Option<Option<()>> {
        None
    }
    #[cfg(any(feature = "cfg-async", feature = "cfg-vmem", feature = "cfg-noalloc"))]
    fn a_push_slice<B: MutRB<Item = Self> + 'static>(
        _p: *mut mutringbuf::iterators::AsyncProdIter<'static, B>, _s: &'static [Self],
    ) -> Option<PollFn> {
        None
    }
    fn a_copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(
        _c: *mut mutringbuf::iterators::AsyncConsIter<'static, B, W>, _d: &'static mut Self,
    ) -> Option<PollFn> {
        None
    }
    fn a_copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(
        _c: *mut mutringbuf::iterators::AsyncConsIter<'static, B, W>, _d: &'static mut [Self],
    ) -> Option<PollFn> {
        None
    }
    #[cfg(not(feature = "cfg-vmem"))]
    fn conc_stack_default<const N: usize>() -> Option<mutringbuf::ConcurrentStackRB<Self, N>> {
        None
    }
    #[cfg(not(feature = "cfg-vmem"))]
    fn local_stack_default<const N: usize>() -> Option<mutringbuf::LocalStackRB<Self, N>> {
        None
    }
}

/// A future of unit output, polled by the driver.
pub type PollFn = Box<dyn FnMut(&mut core::task::Context<'_>) -> core::task::Poll<Option<()>>>;

fn poll_fn<F: core::future::Future<Output = Option<()>> + Unpin + 'static>(mut f: F) -> PollFn {
    Box::new(move |cx| core::pin::Pin::new(&mut f).poll(cx))
}

macro_rules! copy_item {
    ($t:ty, $name:literal, $mask:expr, |$v:ident| $mk:expr, |$s:ident| $gt:expr, |$b:ident| $rd:expr) => {
        impl Item for $t {
            const NAME: &'static str = $name;
            const COPY: bool = true;
            const TRACKED: bool = false;
            const MASK: u64 = $mask;
            fn make($v: u64) -> Self { $mk }
            fn get(&self) -> u64 { let $s = self; $gt }
            fn set(&mut self, v: u64) { *self = Self::make(v); }
            fn raw($b: &[u8]) -> RawSlot {
                RawSlot { zero: $b.iter().all(|x| *x == 0), ok: true, val: $rd, uid: 0 }
            }
            fn push_slice<B: MutRB<Item = Self> + 'static>(p: &mut ProdIter<'static, B>, s: &[Self], init: bool) -> Option<Option<()>> {
                Some(if init { p.push_slice_init(s) } else { p.push_slice(s) })
            }
            fn copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut Self) -> Option<Option<()>> {
                Some(c.copy_item(d))
            }
            fn copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut [Self]) -> Option<Option<()>> {
                Some(c.copy_slice(d))
            }
            fn a_push_slice<B: MutRB<Item = Self> + 'static>(
                p: *mut mutringbuf::iterators::AsyncProdIter<'static, B>, s: &'static [Self],
            ) -> Option<PollFn> {
                Some(poll_fn(unsafe { &mut *p }.push_slice(s)))
            }
            fn a_copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(
                c: *mut mutringbuf::iterators::AsyncConsIter<'static, B, W>, d: &'static mut Self,
            ) -> Option<PollFn> {
                Some(poll_fn(unsafe { &mut *c }.copy_item(d)))
            }
            fn a_copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(
                c: *mut mutringbuf::iterators::AsyncConsIter<'static, B, W>, d: &'static mut [Self],
            ) -> Option<PollFn> {
                Some(poll_fn(unsafe { &mut *c }.copy_slice(d)))
            }
            #[cfg(not(feature = "cfg-vmem"))]
            fn conc_stack_default<const N: usize>() -> Option<mutringbuf::ConcurrentStackRB<Self, N>> {
                Some(Default::default())
            }
            #[cfg(not(feature = "cfg-vmem"))]
            fn local_stack_default<const N: usize>() -> Option<mutringbuf::LocalStackRB<Self, N>> {
                Some(Default::default())
            }
        }
    };
}

copy_item!(u8, "u8", 0xff, |v| v as u8, |s| *s as u64, |b| b[0] as u64);
copy_item!(u32, "u32", 0xffff_ffff, |v| v as u32, |s| *s as u64, |b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64);

/// Three bytes, alignment 1: element addresses that are no power of two apart.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
#[repr(C)]
pub struct B3([u8; 3]);
copy_item!(B3, "[u8;3]", 0xff_ffff, |v| B3([v as u8, (v >> 8) as u8, (v >> 16) as u8]),
    |s| s.0[0] as u64 | (s.0[1] as u64) << 8 | (s.0[2] as u64) << 16,
    |b| b[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 16);

/// Two words: a torn item is recognisable.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
#[repr(C)]
pub struct P2(u64, u64);
const TEAR: u64 = 0x5bd1_e995_1234_0001;
copy_item!(P2, "[u64;2]", u64::MAX >> 1, |v| P2(v, if v == 0 { 0 } else { v.wrapping_mul(TEAR) }),
    |s| { if s.1 != (if s.0 == 0 { 0 } else { s.0.wrapping_mul(TEAR) }) { u64::MAX } else { s.0 } },
    |b| {
        let a = u64::from_le_bytes(b[0..8].try_into().unwrap());
        let c = u64::from_le_bytes(b[8..16].try_into().unwrap());
        if c != (if a == 0 { 0 } else { a.wrapping_mul(TEAR) }) { u64::MAX } else { a }
    });

// ------------------------------------------------------------------------------------------------- counted items

const MAXU: usize = 1 << 23;
static mut LIVE: [u8; MAXU] = [0; MAXU];
static mut NEXT: u32 = 1;
static mut NLIVE: i64 = 0;
static mut CLONE_FAULT: i64 = -1;
static mut NONFATAL: bool = false;

pub fn ledger_reset() {
    unsafe {
        LIVE[..(NEXT as usize).min(MAXU)].fill(0);
        NEXT = 1;
        NLIVE = 0;
        CLONE_FAULT = -1;
        NONFATAL = false;
    }
}

pub fn ledger_live() -> i64 {
    unsafe { NLIVE }
}

pub fn is_live(uid: u32) -> bool {
    unsafe { (uid as usize) < MAXU && LIVE[uid as usize] == 1 }
}

/// The k-th clone from now panics (0 = the next one); -1 = never.
pub fn clone_fault(k: i64) {
    unsafe { CLONE_FAULT = k }
}

fn born() -> u32 {
    unsafe {
        let u = NEXT;
        if u as usize >= MAXU {
            simrt::fiber::too_long();
        }
        NEXT += 1;
        LIVE[u as usize] = 1;
        NLIVE += 1;
        count(Cnt::items_made, 1);
        u
    }
}

fn died(uid: u32, good: bool, zero: bool) {
    unsafe {
        if zero {
            violation(bit(9) | bit(8) | bit(17), "destructor run on an empty (all-zero) slot");
        }
        if !good {
            violation(bit(8) | bit(9) | bit(17), "destructor run on bytes that are no live value");
        }
        if !is_live(uid) {
            violation(bit(8) | bit(9) | bit(17), "a value's destructor is run twice");
        }
        LIVE[uid as usize] = 2;
        NLIVE -= 1;
        count(Cnt::items_dropped, 1);
    }
}

fn observed(uid: u32, good: bool, zero: bool) {
    if zero {
        violation(bit(9) | bit(1) | bit(17), "an empty (all-zero) slot is read as a value");
    }
    if !good || !is_live(uid) {
        violation(bit(9) | bit(8) | bit(1) | bit(17), "a slot that holds no live value is read as a value");
    }
}

/// Payload of an injected Clone panic.
pub struct ClonePanic;

fn maybe_panic() {
    unsafe {
        if CLONE_FAULT >= 0 {
            if CLONE_FAULT == 0 {
                CLONE_FAULT = -1;
                count(Cnt::clone_panics, 1);
                simrt::tr!("FAULT: Clone panics");
                std::panic::resume_unwind(Box::new(ClonePanic));
            }
            CLONE_FAULT -= 1;
        }
    }
}

/// Counted item without padding.
#[repr(C)]
pub struct Trk {
    magic: u32,
    uid: u32,
    val: u64,
}
const MAGIC: u32 = 0x5EED_C0DE;

impl Trk {
    fn zero(&self) -> bool {
        self.magic == 0 && self.uid == 0 && self.val == 0
    }
}

impl Drop for Trk {
    fn drop(&mut self) {
        died(self.uid, self.magic == MAGIC, self.zero());
        self.magic = 0xDEAD_DEAD;
    }
}
impl Clone for Trk {
    fn clone(&self) -> Self {
        observed(self.uid, self.magic == MAGIC, self.zero());
        maybe_panic();
        count(Cnt::items_cloned, 1);
        Trk { magic: MAGIC, uid: born(), val: self.val }
    }
}
impl Default for Trk {
    fn default() -> Self {
        Trk::make(0)
    }
}
impl Item for Trk {
    const NAME: &'static str = "counted";
    const COPY: bool = false;
    const TRACKED: bool = true;
    const MASK: u64 = u64::MAX >> 1;
    fn make(v: u64) -> Self {
        Trk { magic: MAGIC, uid: born(), val: v }
    }
    fn get(&self) -> u64 {
        observed(self.uid, self.magic == MAGIC, self.zero());
        self.val
    }
    fn set(&mut self, v: u64) {
        observed(self.uid, self.magic == MAGIC, self.zero());
        self.val = v;
    }
    fn uid(&self) -> u32 {
        self.uid
    }
    fn raw(b: &[u8]) -> RawSlot {
        let m = u32::from_le_bytes(b[0..4].try_into().unwrap());
        let uid = u32::from_le_bytes(b[4..8].try_into().unwrap());
        let val = u64::from_le_bytes(b[8..16].try_into().unwrap());
        RawSlot { zero: b.iter().all(|x| *x == 0), ok: m == MAGIC && is_live(uid), val, uid }
    }
}

/// Counted item with padding bytes (a niche-less tag, then a hole).
#[repr(C)]
pub struct Pad {
    tag: u8,
    uid: u32,
    val: u64,
}
const TAG: u8 = 0xC7;

impl Drop for Pad {
    fn drop(&mut self) {
        died(self.uid, self.tag == TAG, self.tag == 0 && self.uid == 0 && self.val == 0);
        self.tag = 0xDD;
    }
}
impl Clone for Pad {
    fn clone(&self) -> Self {
        observed(self.uid, self.tag == TAG, self.tag == 0 && self.uid == 0);
        maybe_panic();
        count(Cnt::items_cloned, 1);
        Pad { tag: TAG, uid: born(), val: self.val }
    }
}
impl Default for Pad {
    fn default() -> Self {
        Pad::make(0)
    }
}
impl Item for Pad {
    const NAME: &'static str = "counted+padding";
    const COPY: bool = false;
    const TRACKED: bool = true;
    const MASK: u64 = u64::MAX >> 1;
    fn make(v: u64) -> Self {
        Pad { tag: TAG, uid: born(), val: v }
    }
    fn get(&self) -> u64 {
        observed(self.uid, self.tag == TAG, self.tag == 0 && self.uid == 0);
        self.val
    }
    fn set(&mut self, v: u64) {
        observed(self.uid, self.tag == TAG, self.tag == 0 && self.uid == 0);
        self.val = v;
    }
    fn uid(&self) -> u32 {
        self.uid
    }
    fn raw(b: &[u8]) -> RawSlot {
        let uid = u32::from_le_bytes(b[4..8].try_into().unwrap());
        let val = u64::from_le_bytes(b[8..16].try_into().unwrap());
        // padding (bytes 1..4) has no defined contents
        let zero = b[0] == 0 && b[4..].iter().all(|x| *x == 0);
        RawSlot { zero, ok: b[0] == TAG && is_live(uid), val, uid }
    }
}

/// Counted item that is zero everywhere but in a byte or two (at most three), whose place differs from value to value; its
/// size is a multiple of no larger word. The number it stands for is kept beside.
#[repr(C, align(4))]
pub struct Spa {
    w: [u8; 20],
}
static mut SPA_VAL: [u64; MAXU] = [0; MAXU];

impl Spa {
    fn with(uid: u32, v: u64) -> Self {
        let mut w = [0; 20];
        let at = (uid % 18) as usize;
        w[at..at + 3].copy_from_slice(&uid.to_le_bytes()[..3]);
        unsafe { SPA_VAL[uid as usize] = v };
        Spa { w }
    }
    /// (256 is 1 modulo 3, so no two places can both be right)
    fn check(w: &[u8; 20]) -> (u32, bool, bool) {
        let Some(first) = w.iter().position(|x| *x != 0) else { return (0, false, true) };
        let last = w.iter().rposition(|x| *x != 0).unwrap();
        for at in first.saturating_sub(2)..=first.min(17) {
            if last < at + 3 {
                let uid = w[at] as u32 | (w[at + 1] as u32) << 8 | (w[at + 2] as u32) << 16;
                if uid as usize % 18 == at && (uid as usize) < MAXU {
                    return (uid, true, false);
                }
            }
        }
        (0, false, false)
    }
}
impl Drop for Spa {
    fn drop(&mut self) {
        let (uid, good, zero) = Self::check(&self.w);
        died(uid, good, zero);
        self.w = [0xDD; 20];
    }
}
impl Clone for Spa {
    fn clone(&self) -> Self {
        let (uid, good, zero) = Self::check(&self.w);
        observed(uid, good, zero);
        maybe_panic();
        count(Cnt::items_cloned, 1);
        Spa::with(born(), unsafe { SPA_VAL[uid as usize] })
    }
}
impl Default for Spa {
    fn default() -> Self {
        Spa::make(0)
    }
}
impl Item for Spa {
    const NAME: &'static str = "counted+sparse";
    const COPY: bool = false;
    const TRACKED: bool = true;
    const MASK: u64 = u64::MAX >> 1;
    fn make(v: u64) -> Self {
        Spa::with(born(), v)
    }
    fn get(&self) -> u64 {
        let (uid, good, zero) = Self::check(&self.w);
        observed(uid, good, zero);
        unsafe { SPA_VAL[uid as usize] }
    }
    fn set(&mut self, v: u64) {
        let (uid, good, zero) = Self::check(&self.w);
        observed(uid, good, zero);
        unsafe { SPA_VAL[uid as usize] = v };
    }
    fn uid(&self) -> u32 {
        Self::check(&self.w).0
    }
    fn raw(b: &[u8]) -> RawSlot {
        let w: [u8; 20] = b[..20].try_into().unwrap();
        let (uid, good, zero) = Self::check(&w);
        let ok = good && is_live(uid);
        RawSlot { zero, ok, val: if ok { unsafe { SPA_VAL[uid as usize] } } else { u64::MAX }, uid }
    }
}

/// Large counted item (more than two cache lines, over-aligned) without a zero byte group anywhere: every word depends on
/// the value's identity, so that a copy or an emptying that stops part of the way shows.
#[repr(C, align(32))]
pub struct Big {
    w: [u64; 20],
}
const BIG: u64 = 0xB16_0000_0000_0001;

impl Big {
    fn with(uid: u32, v: u64) -> Self {
        let mut w = [0; 20];
        w[0] = uid as u64;
        w[1] = v | 1 << 63;
        for k in 2..20 {
            w[k] = BIG.wrapping_mul(k as u64) ^ (uid as u64) << 40 ^ v;
        }
        Big { w }
    }
    fn check(w: &[u64; 20]) -> (bool, bool) {
        let zero = w.iter().all(|x| *x == 0);
        let (uid, v) = (w[0], w[1] & !(1 << 63));
        (!zero && w[1] >> 63 == 1 && uid >> 32 == 0 && (2..20).all(|k| w[k] == BIG.wrapping_mul(k as u64) ^ uid << 40 ^ v), zero)
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        let (good, zero) = Self::check(&self.w);
        died(self.w[0] as u32, good, zero);
        self.w[0] = 0xDEAD_DEAD_DEAD;
    }
}
impl Clone for Big {
    fn clone(&self) -> Self {
        let (good, zero) = Self::check(&self.w);
        observed(self.w[0] as u32, good, zero);
        maybe_panic();
        count(Cnt::items_cloned, 1);
        Big::with(born(), self.w[1] & !(1 << 63))
    }
}
impl Default for Big {
    fn default() -> Self {
        Big::make(0)
    }
}
impl Item for Big {
    const NAME: &'static str = "counted+large";
    const COPY: bool = false;
    const TRACKED: bool = true;
    const MASK: u64 = u64::MAX >> 1;
    fn make(v: u64) -> Self {
        Big::with(born(), v)
    }
    fn get(&self) -> u64 {
        let (good, zero) = Self::check(&self.w);
        observed(self.w[0] as u32, good, zero);
        self.w[1] & !(1 << 63)
    }
    fn set(&mut self, v: u64) {
        let (good, zero) = Self::check(&self.w);
        observed(self.w[0] as u32, good, zero);
        let uid = self.w[0] as u32;
        self.w = core::mem::ManuallyDrop::new(Big::with(uid, v)).w;
    }
    fn uid(&self) -> u32 {
        self.w[0] as u32
    }
    fn raw(b: &[u8]) -> RawSlot {
        let mut w = [0u64; 20];
        for k in 0..20 {
            w[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
        }
        let (good, zero) = Self::check(&w);
        let uid = w[0] as u32;
        let ok = good && is_live(uid);
        RawSlot { zero, ok, val: if ok { w[1] & !(1 << 63) } else { u64::MAX }, uid }
    }
}
