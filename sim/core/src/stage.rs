//! The three stages of a buffer behind one object-safe interface; the only code that calls the crate's API.
//! Every API call happens between `call_begin` and `call_end`.

use crate::items::{ClonePanic, Item, PollFn};
use core::mem::ManuallyDrop;
use core::task::{Context, Poll};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{
    AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, ProdIter, WorkIter,
};
use mutringbuf::{MRBIterator, MutRB};
use simrt::tsan::{call_begin, call_end};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    /// the operation does not exist in this form or for this item type; nothing was called
    Na,
    Ok,
    Refused,
    /// injected Clone panic
    Faulted,
    /// any other panic
    Panicked,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Get {
    One,
    Exact(usize),
    AvailS,
    Mul(usize),
    NextMut,
    NextInit,
    NextSlices(usize),
    PeekOne,
    PeekN(usize),
    PeekAvail,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Avail,
    WaitFor(usize),
    Get(Get),
    Adv(usize),
    Push(u64, bool),
    /// values, init, clone
    PushS(Vec<u64>, bool, bool),
    Pop,
    PopMove,
    CopyItem,
    CloneItem,
    CopyS(usize),
    CloneS(usize),
    Reset,
    Detach,
    Attach,
    Sync,
    GoBack(usize),
    SetIdx(usize),
    DReset,
    ToAsync,
    ToSync,
    FStart(Box<Op>),
    FPoll,
    FDrop,
    Drop,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Sync,
    Det,
    Async,
    ADet,
    Gone,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub res: Res,
    pub n: usize,
    pub vals: Vec<u64>,
    pub uids: Vec<u32>,
    pub segs: Vec<(usize, usize)>,
    /// value handed back by a refused push
    pub ret: Option<u64>,
    /// destination buffer of a refused copy/clone was written
    pub dst_dirty: bool,
}

impl Obs {
    pub fn new() -> Obs {
        Obs { res: Res::Na, n: 0, vals: Vec::new(), uids: Vec::new(), segs: Vec::new(), ret: None, dst_dirty: false }
    }
    pub fn seg_len(&self) -> usize {
        self.segs.iter().map(|s| s.1).sum()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Look {
    pub idx: usize,
    pub len: usize,
    pub p: usize,
    pub w: usize,
    pub c: usize,
    pub alive: [bool; 3],
}

pub enum Touch<'a> {
    /// read values
    Read,
    /// replace each value v by f(v) in place
    Edit(&'a dyn Fn(u64) -> u64),
    /// assign (`*slot = value`, dropping the old one)
    Assign(&'a [u64]),
    /// `write` where `empty` says so, assign elsewhere
    Init(&'a [u64], &'a [bool]),
}

pub trait Stage {
    fn form(&self) -> Form;
    fn exec(&mut self, op: &Op, cx: &mut Context<'_>) -> Obs;
    fn look(&mut self) -> Option<Look>;
    fn held(&self) -> bool;
    fn touch(&self, segs: &[(usize, usize)], t: Touch<'_>) -> Vec<u64>;
    fn item_size(&self) -> usize;
}

const SENT: u64 = 0x7e;

/// Call into the crate; `Err(true)` = injected Clone panic.
#[inline]
pub fn api<R>(n: usize, waiting: bool, f: impl FnOnce() -> R) -> Result<R, Res> {
    let mut f = Some(f);
    let mut out = None;
    api_dyn(n, waiting, &mut || out = Some((f.take().unwrap())())).map(|()| out.unwrap())
}

#[inline(never)]
fn api_dyn(n: usize, waiting: bool, f: &mut dyn FnMut()) -> Result<(), Res> {
    call_begin(n, waiting);
    let r = catch_unwind(AssertUnwindSafe(f));
    call_end();
    match r {
        Ok(()) => Ok(()),
        Err(e) => {
            let c = e.is::<ClonePanic>();
            drop(e);
            Err(if c { Res::Faulted } else { Res::Panicked })
        }
    }
}

macro_rules! call {
    ($o:ident, $n:expr, $e:expr) => {
        match api($n, false, || $e) {
            Ok(v) => v,
            Err(r) => {
                $o.res = r;
                return $o;
            }
        }
    };
}

pub trait Segs {
    fn segs(self, o: &mut Obs);
}
impl<T> Segs for &T {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self as *const T as usize, 1));
    }
}
impl<T> Segs for &mut T {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self as *mut T as usize, 1));
    }
}
pub struct RawP<T>(pub *mut T);
impl<T> Segs for RawP<T> {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self.0 as usize, 1));
    }
}
#[cfg(not(feature = "cfg-vmem"))]
impl<T> Segs for (&[T], &[T]) {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self.0.as_ptr() as usize, self.0.len()));
        o.segs.push((self.1.as_ptr() as usize, self.1.len()));
    }
}
#[cfg(not(feature = "cfg-vmem"))]
impl<T> Segs for (&mut [T], &mut [T]) {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self.0.as_mut_ptr() as usize, self.0.len()));
        o.segs.push((self.1.as_mut_ptr() as usize, self.1.len()));
    }
}
/// slices: one contiguous segment (vmem)
pub struct One<S>(pub S);
#[cfg(feature = "cfg-vmem")]
impl<T> Segs for One<&[T]> {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self.0.as_ptr() as usize, self.0.len()));
    }
}
#[cfg(feature = "cfg-vmem")]
impl<T> Segs for One<&mut [T]> {
    fn segs(self, o: &mut Obs) {
        o.segs.push((self.0.as_mut_ptr() as usize, self.0.len()));
    }
}
#[cfg(not(feature = "cfg-vmem"))]
impl<S: Segs> Segs for One<S> {
    fn segs(self, o: &mut Obs) {
        self.0.segs(o)
    }
}

fn got<S: Segs>(o: &mut Obs, r: Option<S>) {
    match r {
        Some(s) => {
            o.res = Res::Ok;
            s.segs(o);
        }
        None => o.res = Res::Refused,
    }
}

fn unit(o: &mut Obs, r: Option<()>) {
    o.res = if r.is_some() { Res::Ok } else { Res::Refused };
}

/// A held future: polled, then its result is put into the observation. True when it resolved.
type Fut = Box<dyn FnMut(&mut Context<'_>, &mut Obs) -> bool>;

fn hold<T, O, F: core::future::Future<Output = Option<O>> + Unpin + 'static>(
    n: usize, mut f: F, mut fin: impl FnMut(O, &mut Obs) + 'static, _p: core::marker::PhantomData<T>,
) -> Fut {
    Box::new(move |cx, o| {
        simrt::count(simrt::Cnt::futures_polled, 1);
        match api(n, false, || core::pin::Pin::new(&mut f).poll(cx)) {
            Err(r) => {
                o.res = r;
                true
            }
            Ok(Poll::Pending) => {
                o.res = Res::Refused;
                false
            }
            Ok(Poll::Ready(Some(v))) => {
                o.res = Res::Ok;
                fin(v, o);
                true
            }
            Ok(Poll::Ready(None)) => {
                // resolved with the result "nothing": not one of the synchronous results
                o.res = Res::Panicked;
                true
            }
        }
    })
}

fn hold_unit(n: usize, mut f: PollFn, mut fin: impl FnMut(Option<()>, &mut Obs) + 'static) -> Fut {
    Box::new(move |cx, o| {
        simrt::count(simrt::Cnt::futures_polled, 1);
        match api(n, false, || f(cx)) {
            Err(r) => {
                o.res = r;
                fin(None, o);
                true
            }
            Ok(Poll::Pending) => {
                o.res = Res::Refused;
                fin(None, o);
                false
            }
            Ok(Poll::Ready(r)) => {
                o.res = if r.is_some() { Res::Ok } else { Res::Panicked };
                fin(r, o);
                true
            }
        }
    })
}

// ------------------------------------------------------------------------------------------------- the wrapper

/// Shared by all stages: S = synchronous iterator, A = async iterator.
pub struct St<B: MutRB, S: MRBIterator, A: AsyncIterator<I = S>> {
    it: It<B, S, A>,
    fut: Option<Fut>,
}

pub enum It<B: MutRB, S: MRBIterator, A: AsyncIterator<I = S>> {
    Sync(S),
    Det(Detached<S>),
    Async(Box<A>),
    ADet(AsyncDetached<A, B>),
    Gone,
}

pub trait Kind<B: MutRB<Item = T>, T: Item>: MRBIterator<Item = T> + Sized + 'static {
    type A: AsyncIterator<I = Self, B = B> + 'static;
    /// operations only this kind of stage has
    fn extra(&mut self, op: &Op, o: Obs) -> Obs;
    /// the future for an operation
    fn fut(a: *mut Self::A, op: &Op) -> Option<Fut>;
    fn async_reset(a: &mut Self::A) -> bool;
}

impl<B: MutRB<Item = T> + 'static, T: Item, S: Kind<B, T>> St<B, S, S::A> {
    pub fn boxed(it: S) -> Box<dyn Stage> {
        Box::new(St { it: It::Sync(it), fut: None })
    }
}

pub fn boxed_async<A>(it: A) -> Box<dyn Stage>
where
    A: AsyncIterator + 'static,
    A::B: MutRB + 'static,
    <A::B as MutRB>::Item: Item,
    A::I: Kind<A::B, <A::B as MutRB>::Item, A = A>,
{
    Box::new(St { it: It::Async(Box::new(it)), fut: None })
}

/// A box of the driver's, not the simulated program's.
fn own_box<A>(a: A) -> Box<A> {
    simrt::with_system(|| Box::new(a))
}

fn drop_caught<X>(o: &mut Obs, x: X) {
    match api(1 << 12, false, || drop(x)) {
        Ok(()) => o.res = Res::Ok,
        Err(r) => o.res = r,
    }
}

impl<B: MutRB<Item = T> + 'static, T: Item, S: Kind<B, T>> Stage for St<B, S, S::A> {
    fn form(&self) -> Form {
        match self.it {
            It::Sync(_) => Form::Sync,
            It::Det(_) => Form::Det,
            It::Async(_) => Form::Async,
            It::ADet(_) => Form::ADet,
            It::Gone => Form::Gone,
        }
    }
    fn held(&self) -> bool {
        self.fut.is_some()
    }
    fn item_size(&self) -> usize {
        core::mem::size_of::<T>()
    }

    fn look(&mut self) -> Option<Look> {
        if self.fut.is_some() {
            return None;
        }
        let it = &mut self.it;
        let r = api(1 << 12, false, || match it {
            It::Sync(i) => Some(Look {
                idx: i.index(), len: i.buf_len(), p: i.prod_index(), w: i.work_index(), c: i.cons_index(),
                alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
            }),
            It::Det(i) => Some(Look {
                idx: i.index(), len: i.buf_len(), p: i.prod_index(), w: i.work_index(), c: i.cons_index(),
                alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
            }),
            It::Async(i) => Some(Look {
                idx: i.index(), len: i.inner().buf_len(), p: i.prod_index(), w: i.work_index(), c: i.cons_index(),
                alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
            }),
            _ => None,
        });
        r.ok().flatten()
    }

    fn exec(&mut self, op: &Op, cx: &mut Context<'_>) -> Obs {
        let mut o = Obs::new();
        // held futures borrow the iterator
        if let Some(f) = self.fut.as_mut() {
            match op {
                Op::FPoll => {
                    if f(cx, &mut o) {
                        let f = self.fut.take();
                        drop(f);
                    }
                    return o;
                }
                Op::FDrop => {
                    let f = self.fut.take();
                    drop_caught(&mut o, f);
                    return o;
                }
                _ => return o,
            }
        }
        match op {
            Op::FStart(inner) => {
                if let It::Async(a) = &mut self.it {
                    let p: *mut S::A = &mut **a;
                    if let Some(f) = common_fut::<B, T, S>(p, inner) {
                        self.fut = Some(f);
                        o.res = Res::Ok;
                    }
                }
                return o;
            }
            Op::FPoll | Op::FDrop => return o,
            Op::Drop => {
                let it = core::mem::replace(&mut self.it, It::Gone);
                if let It::Gone = it {
                    return o;
                }
                drop_caught(&mut o, it);
                return o;
            }
            _ => {}
        }
        // changes of form
        macro_rules! morph {
            ($pat:pat => $e:expr) => {{
                let it = core::mem::replace(&mut self.it, It::Gone);
                match it {
                    $pat => {
                        match api(0, false, || $e) {
                            Ok(n) => {
                                self.it = n;
                                o.res = Res::Ok;
                            }
                            Err(r) => o.res = r,
                        }
                        return o;
                    }
                    x => self.it = x,
                }
            }};
        }
        match op {
            Op::Detach => {
                morph!(It::Sync(i) => It::Det(i.detach()));
                morph!(It::Async(i) => It::ADet((*i).detach()));
                return o;
            }
            Op::Attach => {
                morph!(It::Det(i) => It::Sync(i.attach()));
                morph!(It::ADet(i) => It::Async(own_box(i.attach())));
                return o;
            }
            Op::ToAsync => {
                morph!(It::Sync(i) => It::Async(own_box(<S::A as AsyncIterator>::from_sync(i))));
                return o;
            }
            Op::ToSync => {
                morph!(It::Async(i) => It::Sync((*i).into_sync()));
                return o;
            }
            _ => {}
        }
        match &mut self.it {
            It::Gone => o,
            It::Sync(i) => match op {
                Op::Avail => {
                    o.n = call!(o, 0, i.available());
                    o.res = Res::Ok;
                    o
                }
                Op::WaitFor(n) => {
                    simrt::count(simrt::Cnt::waits, 1);
                    match api(*n, true, || i.wait_for(*n)) {
                        Ok(()) => o.res = Res::Ok,
                        Err(r) => o.res = r,
                    }
                    o
                }
                Op::Adv(n) => {
                    call!(o, *n, unsafe { i.advance(*n) });
                    o.res = Res::Ok;
                    o
                }
                Op::Get(Get::One) => {
                    let r = call!(o, 1, i.get_workable());
                    got(&mut o, r);
                    o
                }
                Op::Get(Get::Exact(n)) => {
                    let r = call!(o, *n, i.get_workable_slice_exact(*n));
                    got(&mut o, r.map(One));
                    o
                }
                Op::Get(Get::AvailS) => {
                    let r = call!(o, 0, i.get_workable_slice_avail());
                    got(&mut o, r.map(One));
                    o
                }
                Op::Get(Get::Mul(n)) => {
                    let r = call!(o, 0, i.get_workable_slice_multiple_of(*n));
                    got(&mut o, r.map(One));
                    o
                }
                _ => i.extra(op, o),
            },
            It::Det(i) => {
                match op {
                    Op::Avail => {
                        o.n = call!(o, 0, i.available());
                        o.res = Res::Ok;
                    }
                    Op::WaitFor(n) => match api(*n, true, || i.wait_for(*n)) {
                        Ok(()) => o.res = Res::Ok,
                        Err(r) => o.res = r,
                    },
                    Op::Adv(n) => {
                        call!(o, *n, unsafe { i.advance(*n) });
                        o.res = Res::Ok;
                    }
                    Op::Get(Get::One) => {
                        let r = call!(o, 1, i.get_workable());
                        got(&mut o, r);
                    }
                    Op::Get(Get::Exact(n)) => {
                        let r = call!(o, *n, i.get_workable_slice_exact(*n));
                        got(&mut o, r.map(One));
                    }
                    Op::Get(Get::AvailS) => {
                        let r = call!(o, 0, i.get_workable_slice_avail());
                        got(&mut o, r.map(One));
                    }
                    Op::Get(Get::Mul(n)) => {
                        let r = call!(o, 0, i.get_workable_slice_multiple_of(*n));
                        got(&mut o, r.map(One));
                    }
                    Op::GoBack(n) => {
                        call!(o, *n, unsafe { i.go_back(*n) });
                        o.res = Res::Ok;
                    }
                    Op::SetIdx(n) => {
                        call!(o, 0, unsafe { i.set_index(*n) });
                        o.res = Res::Ok;
                    }
                    Op::DReset => {
                        call!(o, 0, i.reset_index());
                        o.res = Res::Ok;
                    }
                    Op::Sync => {
                        call!(o, 0, i.sync_index());
                        o.res = Res::Ok;
                    }
                    _ => {}
                }
                o
            }
            It::ADet(i) => {
                match op {
                    Op::Adv(n) => {
                        call!(o, *n, unsafe { i.advance(*n) });
                        o.res = Res::Ok;
                    }
                    Op::GoBack(n) => {
                        call!(o, *n, unsafe { i.go_back(*n) });
                        o.res = Res::Ok;
                    }
                    Op::Sync => {
                        call!(o, 0, i.sync_index());
                        o.res = Res::Ok;
                    }
                    _ => {}
                }
                o
            }
            It::Async(i) => match op {
                Op::Avail => {
                    o.n = call!(o, 0, i.available());
                    o.res = Res::Ok;
                    o
                }
                Op::Adv(n) => {
                    call!(o, *n, unsafe { i.advance(*n) });
                    o.res = Res::Ok;
                    o
                }
                Op::Reset => {
                    let done = call!(o, 0, S::async_reset(i));
                    if done {
                        o.res = Res::Ok;
                    }
                    o
                }
                _ => {
                    let p: *mut S::A = &mut **i;
                    if let Some(mut f) = common_fut::<B, T, S>(p, op) {
                        f(cx, &mut o);
                        drop(f);
                    }
                    o
                }
            },
        }
    }

    fn touch(&self, segs: &[(usize, usize)], t: Touch<'_>) -> Vec<u64> {
        let mut out = Vec::new();
        let mut k = 0;
        for (a, n) in segs {
            for i in 0..*n {
                let p = (*a + i * core::mem::size_of::<T>()) as *mut T;
                unsafe {
                    match &t {
                        Touch::Read => out.push((*p).get()),
                        Touch::Edit(f) => {
                            let v = (*p).get();
                            (*p).set(f(v));
                            out.push(v);
                        }
                        Touch::Assign(v) => *p = T::make(v[k]),
                        Touch::Init(v, e) => {
                            if e[k] {
                                p.write(T::make(v[k]))
                            } else {
                                *p = T::make(v[k])
                            }
                        }
                    }
                }
                k += 1;
            }
        }
        out
    }
}

fn common_fut<B: MutRB<Item = T> + 'static, T: Item, S: Kind<B, T>>(a: *mut S::A, op: &Op) -> Option<Fut> {
    S::fut(a, op)
}

// ------------------------------------------------------------------------------------------------- producer

macro_rules! common_futs {
    ($a:ident, $op:ident, $T:ty) => {
        match $op {
            Op::Get(Get::One) => {
                return Some(hold(1, unsafe { &mut *$a }.get_workable(), |v, o| v.segs(o), core::marker::PhantomData::<$T>))
            }
            Op::Get(Get::Exact(n)) => {
                return Some(hold(*n, unsafe { &mut *$a }.get_workable_slice_exact(*n), |v, o| One(v).segs(o), core::marker::PhantomData::<$T>))
            }
            Op::Get(Get::AvailS) => {
                return Some(hold(0, unsafe { &mut *$a }.get_workable_slice_avail(), |v, o| One(v).segs(o), core::marker::PhantomData::<$T>))
            }
            Op::Get(Get::Mul(n)) => {
                return Some(hold(0, unsafe { &mut *$a }.get_workable_slice_multiple_of(*n), |v, o| One(v).segs(o), core::marker::PhantomData::<$T>))
            }
            _ => {}
        }
    };
}

/// The values of a slice argument, released without the crate's knowledge.
struct Src<T> {
    p: *mut T,
    n: usize,
}
impl<T: Item> Src<T> {
    fn new(v: &[u64]) -> Src<T> {
        let mut x: ManuallyDrop<Vec<T>> = ManuallyDrop::new(v.iter().map(|v| T::make(*v)).collect());
        x.shrink_to_fit();
        Src { p: x.as_mut_ptr(), n: x.len() }
    }
    fn sent(n: usize) -> Src<T> {
        let v: Vec<u64> = vec![SENT; n];
        Src::new(&v)
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &'static mut [T] {
        unsafe { core::slice::from_raw_parts_mut(self.p, self.n) }
    }
    fn one(&self) -> &'static mut T {
        unsafe { &mut *self.p }
    }
    /// results of a successful extraction / check of a refused one
    fn finish(&self, o: &mut Obs) {
        match o.res {
            Res::Ok => {
                for x in self.get() {
                    o.vals.push(x.get());
                    o.uids.push(x.uid());
                }
            }
            Res::Refused => o.dst_dirty = self.get().iter().any(|x| x.get() != SENT & T::MASK),
            _ => {}
        }
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        unsafe { drop(Vec::from_raw_parts(self.p, self.n, self.n)) }
    }
}

impl<B: MutRB<Item = T> + 'static, T: Item> Kind<B, T> for ProdIter<'static, B> {
    type A = AsyncProdIter<'static, B>;

    fn extra(&mut self, op: &Op, mut o: Obs) -> Obs {
        match op {
            Op::Push(v, init) => {
                let x = T::make(*v);
                let r = call!(o, 1, if *init { self.push_init(x) } else { self.push(x) });
                match r {
                    Ok(()) => o.res = Res::Ok,
                    Err(x) => {
                        o.res = Res::Refused;
                        o.ret = Some(x.get());
                        o.uids.push(x.uid());
                    }
                }
            }
            Op::PushS(v, init, clone) => {
                let s: Src<T> = Src::new(v);
                let sl: &[T] = s.get();
                if *clone {
                    let r = call!(o, v.len(), if *init { self.push_slice_clone_init(sl) } else { self.push_slice_clone(sl) });
                    unit(&mut o, r);
                } else if T::COPY {
                    let r = call!(o, v.len(), T::push_slice(self, sl, *init));
                    unit(&mut o, r.unwrap());
                }
                // the caller's slice is untouched
                for (x, v) in sl.iter().zip(v) {
                    if x.get() != *v & T::MASK {
                        o.dst_dirty = true;
                    }
                }
            }
            Op::Get(Get::NextMut) => {
                let r = call!(o, 1, unsafe { self.get_next_item_mut() });
                got(&mut o, r);
            }
            Op::Get(Get::NextInit) => {
                let r = call!(o, 1, self.get_next_item_mut_init());
                got(&mut o, r.map(RawP));
            }
            Op::Get(Get::NextSlices(n)) => {
                let r = call!(o, *n, unsafe { self.get_next_slices_mut(*n) });
                got(&mut o, r.map(One));
            }
            _ => {}
        }
        o
    }

    fn fut(a: *mut Self::A, op: &Op) -> Option<Fut> {
        common_futs!(a, op, T);
        Some(match op {
            Op::Push(v, false) => {
                hold(1, unsafe { &mut *a }.push(T::make(*v)), |_, _| {}, core::marker::PhantomData::<T>)
            }
            Op::PushS(v, false, clone) => {
                let s: Src<T> = Src::new(v);
                let sl: &'static [T] = s.get();
                if *clone {
                    let keep = s;
                    hold(v.len(), unsafe { &mut *a }.push_slice_clone(sl), move |_, _| { let _ = &keep; }, core::marker::PhantomData::<T>)
                } else {
                    let f = T::a_push_slice(a, sl)?;
                    let keep = s;
                    hold_unit(v.len(), f, move |_, _| { let _ = &keep; })
                }
            }
            Op::Get(Get::NextMut) => {
                hold(1, unsafe { (*a).get_next_item_mut() }, |v, o| v.segs(o), core::marker::PhantomData::<T>)
            }
            Op::Get(Get::NextInit) => {
                hold(1, unsafe { &mut *a }.get_next_item_mut_init(), |v, o| RawP(v).segs(o), core::marker::PhantomData::<T>)
            }
            Op::Get(Get::NextSlices(n)) => {
                hold(*n, unsafe { (*a).get_next_slices_mut(*n) }, |v, o| One(v).segs(o), core::marker::PhantomData::<T>)
            }
            _ => return None,
        })
    }

    fn async_reset(_a: &mut Self::A) -> bool {
        false
    }
}

// ------------------------------------------------------------------------------------------------- worker

impl<B: MutRB<Item = T> + 'static, T: Item> Kind<B, T> for WorkIter<'static, B> {
    type A = AsyncWorkIter<'static, B>;

    fn extra(&mut self, op: &Op, mut o: Obs) -> Obs {
        if let Op::Reset = op {
            call!(o, 0, self.reset_index());
            o.res = Res::Ok;
        }
        o
    }
    fn fut(a: *mut Self::A, op: &Op) -> Option<Fut> {
        common_futs!(a, op, T);
        None
    }
    fn async_reset(a: &mut Self::A) -> bool {
        a.reset_index();
        true
    }
}

// ------------------------------------------------------------------------------------------------- consumer

impl<B: MutRB<Item = T> + 'static, T: Item, const W: bool> Kind<B, T> for ConsIter<'static, B, W> {
    type A = AsyncConsIter<'static, B, W>;

    fn extra(&mut self, op: &Op, mut o: Obs) -> Obs {
        match op {
            Op::Reset => {
                call!(o, 0, self.reset_index());
                o.res = Res::Ok;
            }
            Op::Get(Get::PeekOne) => {
                let r = call!(o, 1, self.peek_ref());
                got(&mut o, r);
            }
            Op::Get(Get::PeekN(n)) => {
                let r = call!(o, *n, self.peek_slice(*n));
                got(&mut o, r.map(One));
            }
            Op::Get(Get::PeekAvail) => {
                let r = call!(o, 0, self.peek_available());
                got(&mut o, r.map(One));
            }
            Op::Pop => {
                let r = call!(o, 1, self.pop());
                popped(r, false, &mut o);
            }
            Op::PopMove => {
                let r = call!(o, 1, unsafe { self.pop_move() });
                popped(r, true, &mut o);
            }
            Op::CopyItem => {
                if !T::COPY {
                    return o;
                }
                let d: Src<T> = Src::sent(1);
                let r = call!(o, 1, T::copy_item(self, d.one()));
                unit(&mut o, r.unwrap());
                d.finish(&mut o);
            }
            Op::CloneItem => {
                let d: Src<T> = Src::sent(1);
                let r = call!(o, 1, self.clone_item(d.one()));
                unit(&mut o, r);
                d.finish(&mut o);
            }
            Op::CopyS(n) => {
                if !T::COPY {
                    return o;
                }
                let d: Src<T> = Src::sent(*n);
                let r = call!(o, *n, T::copy_slice(self, d.get()));
                unit(&mut o, r.unwrap());
                d.finish(&mut o);
            }
            Op::CloneS(n) => {
                let d: Src<T> = Src::sent(*n);
                let r = call!(o, *n, self.clone_slice(d.get()));
                unit(&mut o, r);
                d.finish(&mut o);
            }
            _ => {}
        }
        o
    }

    fn fut(a: *mut Self::A, op: &Op) -> Option<Fut> {
        common_futs!(a, op, T);
        Some(match op {
            Op::Get(Get::PeekOne) => hold(1, unsafe { &mut *a }.peek_ref(), |v, o| v.segs(o), core::marker::PhantomData::<T>),
            Op::Get(Get::PeekN(n)) => {
                hold(*n, unsafe { &mut *a }.peek_slice(*n), |v, o| One(v).segs(o), core::marker::PhantomData::<T>)
            }
            Op::Get(Get::PeekAvail) => {
                hold(0, unsafe { &mut *a }.peek_available(), |v, o| One(v).segs(o), core::marker::PhantomData::<T>)
            }
            Op::Pop => hold(1, unsafe { &mut *a }.pop(), |v, o| popped(Some(v), false, o), core::marker::PhantomData::<T>),
            Op::PopMove => {
                hold(1, unsafe { (*a).pop_move() }, |v, o| popped(Some(v), true, o), core::marker::PhantomData::<T>)
            }
            Op::CopyItem => {
                let d: Src<T> = Src::sent(1);
                hold_unit(1, T::a_copy_item(a, d.one())?, move |_, o| d.finish(o))
            }
            Op::CloneItem => {
                let d: Src<T> = Src::sent(1);
                let dd = d.one();
                // (the refused case of the destination is covered by the raw comparison of the held value)
                hold_dst(1, unsafe { &mut *a }.clone_item(dd), d)
            }
            Op::CopyS(n) => {
                let d: Src<T> = Src::sent(*n);
                hold_unit(*n, T::a_copy_slice(a, d.get())?, move |_, o| d.finish(o))
            }
            Op::CloneS(n) => {
                let d: Src<T> = Src::sent(*n);
                let dd = d.get();
                hold_dst(*n, unsafe { &mut *a }.clone_slice(dd), d)
            }
            _ => return None,
        })
    }

    fn async_reset(a: &mut Self::A) -> bool {
        a.reset_index();
        true
    }
}

fn hold_dst<T: Item, F: core::future::Future<Output = Option<()>> + Unpin + 'static>(n: usize, mut f: F, d: Src<T>) -> Fut {
    Box::new(move |cx, o| {
        simrt::count(simrt::Cnt::futures_polled, 1);
        let r = api(n, false, || core::pin::Pin::new(&mut f).poll(cx));
        let done = match r {
            Err(r) => {
                o.res = r;
                true
            }
            Ok(Poll::Pending) => {
                o.res = Res::Refused;
                false
            }
            Ok(Poll::Ready(Some(()))) => {
                o.res = Res::Ok;
                true
            }
            Ok(Poll::Ready(None)) => {
                o.res = Res::Panicked;
                true
            }
        };
        d.finish(o);
        done
    })
}

/// A value left the buffer: by `pop_move` it is ours to destroy; `pop` only duplicated it.
fn popped<T: Item>(r: Option<T>, owned: bool, o: &mut Obs) {
    match r {
        Some(x) => {
            o.res = Res::Ok;
            o.vals.push(x.get());
            o.uids.push(x.uid());
            if owned {
                drop(x)
            } else {
                core::mem::forget(x)
            }
        }
        None => o.res = Res::Refused,
    }
}
