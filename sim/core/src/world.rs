//! Buffers of every variant behind one interface: construction, splitting, releasing.

use crate::items::{self, Item, B3, P2};
#[allow(unused_imports)]
use crate::stage::{boxed_async, Res, St, Stage};
#[cfg(not(feature = "cfg-noalloc"))]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
#[cfg(not(feature = "cfg-vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Variant {
    ConcHeap,
    LocalHeap,
    ConcStack,
    LocalStack,
}

impl Variant {
    pub fn heap(self) -> bool {
        matches!(self, Variant::ConcHeap | Variant::LocalHeap)
    }
    pub fn conc(self) -> bool {
        matches!(self, Variant::ConcHeap | Variant::ConcStack)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ItemKind {
    U32,
    U8,
    B3,
    P2,
    Trk,
    Pad,
    Spa,
    Big,
}

impl ItemKind {
    pub fn copy(self) -> bool {
        !matches!(self, ItemKind::Trk | ItemKind::Pad | ItemKind::Spa | ItemKind::Big)
    }
    pub fn mask(self) -> u64 {
        match self {
            ItemKind::U32 => u32::MASK,
            ItemKind::U8 => u8::MASK,
            ItemKind::B3 => B3::MASK,
            ItemKind::P2 => P2::MASK,
            ItemKind::Trk => items::Trk::MASK,
            ItemKind::Pad => items::Pad::MASK,
            ItemKind::Spa => items::Spa::MASK,
            ItemKind::Big => items::Big::MASK,
        }
    }
    pub fn size(self) -> usize {
        match self {
            ItemKind::U32 => 4,
            ItemKind::U8 => 1,
            ItemKind::B3 => 3,
            ItemKind::Spa => 20,
            ItemKind::Big => 160,
            _ => 16,
        }
    }
    pub fn raw(self, b: &[u8]) -> items::RawSlot {
        match self {
            ItemKind::U32 => u32::raw(b),
            ItemKind::U8 => u8::raw(b),
            ItemKind::B3 => B3::raw(b),
            ItemKind::P2 => P2::raw(b),
            ItemKind::Trk => items::Trk::raw(b),
            ItemKind::Pad => items::Pad::raw(b),
            ItemKind::Spa => items::Spa::raw(b),
            ItemKind::Big => items::Big::raw(b),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctor {
    /// from existing data (values 1000, 1001, ...)
    From,
    Default,
    Zeroed,
}

pub const INIT_BASE: u64 = 1000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Split {
    pub worker: bool,
    pub asynk: bool,
}

pub struct Stages {
    pub p: Option<Box<dyn Stage>>,
    pub w: Option<Box<dyn Stage>>,
    pub c: Option<Box<dyn Stage>>,
}

pub trait World {
    /// None: the crate offers no such split for this buffer
    fn split(&mut self, s: Split) -> Option<Result<Stages, Res>>;
    /// Release the buffer itself (a heap buffer only if it was never split).
    fn drop_buf(&mut self) -> Res;
}

pub fn api<R>(f: impl FnOnce() -> R) -> Result<R, Res> {
    crate::stage::api(1 << 20, false, f)
}

pub fn init_val(ctor: Ctor, k: usize) -> u64 {
    match ctor {
        Ctor::From => INIT_BASE + k as u64,
        _ => 0,
    }
}

macro_rules! two { ($t:expr) => {{ let (p, c) = $t; Stages { p: Some(St::boxed(p)), w: None, c: Some(St::boxed(c)) } }}; }
macro_rules! three { ($t:expr) => {{ let (p, w, c) = $t; Stages { p: Some(St::boxed(p)), w: Some(St::boxed(w)), c: Some(St::boxed(c)) } }}; }
#[allow(unused_macros)]
macro_rules! two_a { ($t:expr) => {{ let (p, c) = $t; Stages { p: Some(boxed_async(p)), w: None, c: Some(boxed_async(c)) } }}; }
#[allow(unused_macros)]
macro_rules! three_a { ($t:expr) => {{ let (p, w, c) = $t; Stages { p: Some(boxed_async(p)), w: Some(boxed_async(w)), c: Some(boxed_async(c)) } }}; }

// ------------------------------------------------------------------------------------------------- heap

#[cfg(not(feature = "cfg-noalloc"))]
pub struct HeapW<R> {
    pub b: Option<R>,
}

#[cfg(not(feature = "cfg-noalloc"))]
impl<T: Item> World for HeapW<ConcurrentHeapRB<T>> {
    fn split(&mut self, s: Split) -> Option<Result<Stages, Res>> {
        let b = self.b.take()?;
        Some(match (s.worker, s.asynk) {
            (false, false) => api(|| b.split()).map(|t| two!(t)),
            (true, false) => api(|| b.split_mut()).map(|t| three!(t)),
            (false, true) => api(|| b.split_async()).map(|t| two_a!(t)),
            (true, true) => api(|| b.split_mut_async()).map(|t| three_a!(t)),
        })
    }
    fn drop_buf(&mut self) -> Res {
        match self.b.take() {
            Some(b) => api(|| drop(b)).err().unwrap_or(Res::Ok),
            None => Res::Na,
        }
    }
}

#[cfg(not(feature = "cfg-noalloc"))]
impl<T: Item> World for HeapW<LocalHeapRB<T>> {
    fn split(&mut self, s: Split) -> Option<Result<Stages, Res>> {
        if s.asynk {
            return None;
        }
        let b = self.b.take()?;
        Some(match s.worker {
            false => api(|| b.split()).map(|t| two!(t)),
            true => api(|| b.split_mut()).map(|t| three!(t)),
        })
    }
    fn drop_buf(&mut self) -> Res {
        match self.b.take() {
            Some(b) => api(|| drop(b)).err().unwrap_or(Res::Ok),
            None => Res::Na,
        }
    }
}

// ------------------------------------------------------------------------------------------------- stack

#[cfg(not(feature = "cfg-vmem"))]
pub struct StackW<R> {
    pub b: *mut R,
}

#[cfg(not(feature = "cfg-vmem"))]
impl<T: Item, const N: usize> World for StackW<ConcurrentStackRB<T, N>> {
    fn split(&mut self, s: Split) -> Option<Result<Stages, Res>> {
        let b: &'static mut ConcurrentStackRB<T, N> = unsafe { &mut *self.b };
        Some(match (s.worker, s.asynk) {
            (false, false) => api(|| b.split()).map(|t| two!(t)),
            (true, false) => api(|| b.split_mut()).map(|t| three!(t)),
            #[cfg(feature = "cfg-noalloc")]
            (false, true) => api(|| b.split_async()).map(|t| two_a!(t)),
            #[cfg(feature = "cfg-noalloc")]
            (true, true) => api(|| b.split_mut_async()).map(|t| three_a!(t)),
            #[cfg(not(feature = "cfg-noalloc"))]
            _ => return None,
        })
    }
    fn drop_buf(&mut self) -> Res {
        let b = self.b;
        api(|| drop(unsafe { Box::from_raw(b) })).err().unwrap_or(Res::Ok)
    }
}

#[cfg(not(feature = "cfg-vmem"))]
impl<T: Item, const N: usize> World for StackW<LocalStackRB<T, N>> {
    fn split(&mut self, s: Split) -> Option<Result<Stages, Res>> {
        if s.asynk {
            return None;
        }
        let b: &'static mut LocalStackRB<T, N> = unsafe { &mut *self.b };
        Some(match s.worker {
            false => api(|| b.split()).map(|t| two!(t)),
            true => api(|| b.split_mut()).map(|t| three!(t)),
        })
    }
    fn drop_buf(&mut self) -> Res {
        let b = self.b;
        api(|| drop(unsafe { Box::from_raw(b) })).err().unwrap_or(Res::Ok)
    }
}

#[cfg(not(feature = "cfg-vmem"))]
pub const STACK_N: &[usize] = &[1, 2, 3, 4, 5, 8];
#[cfg(feature = "cfg-vmem")]
pub const STACK_N: &[usize] = &[];

/// Item types a variant is compiled for.
pub fn items_of(v: Variant) -> &'static [ItemKind] {
    match v {
        #[cfg(not(any(feature = "cfg-noalloc", feature = "cfg-vmem")))]
        Variant::ConcHeap | Variant::LocalHeap => &[ItemKind::U32, ItemKind::Trk, ItemKind::B3, ItemKind::P2, ItemKind::Pad, ItemKind::U8, ItemKind::Spa, ItemKind::Big],
        // (thousands of large items: too slow)
        #[cfg(feature = "cfg-vmem")]
        Variant::ConcHeap | Variant::LocalHeap => &[ItemKind::U32, ItemKind::Trk, ItemKind::B3, ItemKind::P2, ItemKind::Pad, ItemKind::U8, ItemKind::Spa],
        _ => &[ItemKind::U32, ItemKind::Trk],
    }
}

pub fn variants() -> &'static [Variant] {
    #[cfg(feature = "cfg-vmem")]
    return &[Variant::ConcHeap, Variant::LocalHeap];
    #[cfg(feature = "cfg-noalloc")]
    return &[Variant::ConcStack, Variant::LocalStack];
    #[cfg(feature = "cfg-async")]
    return &[Variant::ConcHeap, Variant::LocalHeap, Variant::ConcStack, Variant::LocalStack];
}


// ------------------------------------------------------------------------------------------------- instances

/// A heap buffer made by one of its constructors.
#[doc(hidden)]
#[macro_export]
macro_rules! heap_ctor {
    ($rb:ident, $t:ty, $ctor:expr, $n:expr, $slack:expr) => {{
        use $crate::items::Item as _;
        let n = $n;
        let r = match $ctor {
            $crate::world::Ctor::From => {
                // the vector's memory is handed to the buffer: it is the simulated program's
                $crate::world::track(true);
                let mut v: Vec<$t> = Vec::with_capacity(n + $slack);
                for k in 0..n {
                    v.push(<$t>::make($crate::world::init_val($crate::world::Ctor::From, k)));
                }
                $crate::world::track(false);
                $crate::world::api(|| $crate::mutringbuf::$rb::<$t>::from(v))
            }
            $crate::world::Ctor::Default => $crate::world::api(|| $crate::mutringbuf::$rb::<$t>::default(n)),
            $crate::world::Ctor::Zeroed => $crate::world::api(|| unsafe { $crate::mutringbuf::$rb::<$t>::new_zeroed(n) }),
        };
        r.map(|b| Box::new($crate::world::HeapW { b: Some(b) }) as Box<dyn $crate::world::World>)
    }};
}

#[doc(hidden)]
#[macro_export]
macro_rules! stack_ctor {
    ($rb:ident, $dflt:ident, $t:ty, $n:literal, $ctor:expr) => {{
        use $crate::items::Item as _;
        let r = match $ctor {
            $crate::world::Ctor::From => {
                let a: [$t; $n] = core::array::from_fn(|k| <$t>::make($crate::world::init_val($crate::world::Ctor::From, k)));
                $crate::world::api(move || Box::into_raw(Box::new($crate::mutringbuf::$rb::<$t, $n>::from(a))))
            }
            $crate::world::Ctor::Default => {
                // (only for Copy items; the driver never asks for it otherwise)
                $crate::world::api(|| Box::into_raw(Box::new(<$t>::$dflt::<$n>().unwrap())))
            }
            $crate::world::Ctor::Zeroed => {
                $crate::world::api(|| Box::into_raw(Box::new(unsafe { $crate::mutringbuf::$rb::<$t, $n>::new_zeroed() })))
            }
        };
        r.map(|b| Box::new($crate::world::StackW { b }) as Box<dyn $crate::world::World>)
    }};
}

pub fn track(on: bool) {
    simrt::mem::track(on)
}

type Built = Result<Box<dyn World>, Res>;
/// Constructor table of one instance crate: variant, constructor, length, extra vector capacity.
/// Err: the constructor panicked.
pub type Build = fn(Variant, Ctor, usize, usize) -> Built;

#[cfg(not(feature = "cfg-noalloc"))]
#[macro_export]
macro_rules! heap_instance {
    ($t:ty) => {
        pub fn build(
            v: $crate::world::Variant, ctor: $crate::world::Ctor, len: usize, slack: usize,
        ) -> Result<Box<dyn $crate::world::World>, $crate::stage::Res> {
            match v {
                $crate::world::Variant::ConcHeap => $crate::heap_ctor!(ConcurrentHeapRB, $t, ctor, len, slack),
                $crate::world::Variant::LocalHeap => $crate::heap_ctor!(LocalHeapRB, $t, ctor, len, slack),
                _ => Err($crate::stage::Res::Na),
            }
        }
    };
}
#[cfg(feature = "cfg-noalloc")]
#[macro_export]
macro_rules! heap_instance {
    ($t:ty) => {
        $crate::no_instance!();
    };
}

#[cfg(not(feature = "cfg-vmem"))]
#[macro_export]
macro_rules! stack_instance {
    ($rb:ident, $dflt:ident, $t:ty) => {
        pub fn build(
            _v: $crate::world::Variant, ctor: $crate::world::Ctor, len: usize, _slack: usize,
        ) -> Result<Box<dyn $crate::world::World>, $crate::stage::Res> {
            match len {
                1 => $crate::stack_ctor!($rb, $dflt, $t, 1, ctor),
                2 => $crate::stack_ctor!($rb, $dflt, $t, 2, ctor),
                3 => $crate::stack_ctor!($rb, $dflt, $t, 3, ctor),
                4 => $crate::stack_ctor!($rb, $dflt, $t, 4, ctor),
                5 => $crate::stack_ctor!($rb, $dflt, $t, 5, ctor),
                _ => $crate::stack_ctor!($rb, $dflt, $t, 8, ctor),
            }
        }
    };
}
#[cfg(feature = "cfg-vmem")]
#[macro_export]
macro_rules! stack_instance {
    ($rb:ident, $dflt:ident, $t:ty) => {
        $crate::no_instance!();
    };
}

#[doc(hidden)]
#[macro_export]
macro_rules! no_instance {
    () => {
        pub fn build(
            _v: $crate::world::Variant, _c: $crate::world::Ctor, _n: usize, _s: usize,
        ) -> Result<Box<dyn $crate::world::World>, $crate::stage::Res> {
            Err($crate::stage::Res::Na)
        }
    };
}
