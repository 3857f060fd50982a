//! Stack buffers of many lengths: construction, first split, contents, capacity, a second session.

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Report {
    pub refused: bool,
    pub len: usize,
    /// availabilities after the split: producer, worker, consumer
    pub avail: [usize; 3],
    /// contents found by the consumer once the producer advanced over them
    pub init: Vec<u64>,
    pub accepted: usize,
    pub popped: Vec<u64>,
    /// after splitting again: availabilities, then what the consumer gets before anything is pushed
    pub again: [usize; 3],
    pub ghosts: usize,
    pub len_again: usize,
}

#[cfg(not(feature = "cfg-vmem"))]
mod imp {
    use super::Report;
    use simcore::mutringbuf::{ConcurrentStackRB, LocalStackRB, MRBIterator, StackSplit};
    use simcore::world::api;

    macro_rules! probe {
        ($name:ident, $rb:ident) => {
            fn $name<const N: usize>(ctor: u32, worker: bool, left: usize) -> Result<Report, String> {
                let made = api(|| match ctor {
                    0 => Box::new($rb::<u32, N>::from(core::array::from_fn::<u32, N, _>(|k| 1000 + k as u32))),
                    1 => Box::new($rb::<u32, N>::default()),
                    _ => Box::new(unsafe { $rb::<u32, N>::new_zeroed() }),
                });
                let Ok(mut rb) = made else { return Ok(Report { refused: true, ..Report::default() }) };
                let r = api(|| {
                    let mut r = Report::default();
                    {
                        let (mut p, mut w, mut c) = rb.split_mut();
                        r.len = p.buf_len();
                        r.avail = [p.available(), w.available(), c.available()];
                        // over the initial contents, slot by slot
                        for _ in 0..N {
                            if p.available() == 0 || r.init.len() == N {
                                break;
                            }
                            unsafe { p.advance(1) };
                            if w.available() == 0 {
                                break;
                            }
                            unsafe { w.advance(1) };
                            match c.peek_ref() {
                                Some(v) => r.init.push(*v as u64),
                                None => break,
                            }
                            unsafe { c.advance(1) };
                        }
                        while r.accepted <= N && p.push(7 + r.accepted as u32).is_ok() {
                            r.accepted += 1;
                        }
                        let n = w.available();
                        unsafe { w.advance(n) };
                        while r.popped.len() + left < r.accepted {
                            match c.pop() {
                                Some(v) => r.popped.push(v as u64),
                                None => break,
                            }
                        }
                    }
                    // a second session
                    if worker {
                        let (mut p, mut w, mut c) = rb.split_mut();
                        r.again = [p.available(), w.available(), c.available()];
                        r.len_again = p.buf_len();
                        let n = w.available();
                        unsafe { w.advance(n) };
                        while r.ghosts <= 2 * N && c.pop().is_some() {
                            r.ghosts += 1;
                        }
                    } else {
                        let (mut p, mut c) = rb.split();
                        r.again = [p.available(), 0, c.available()];
                        r.len_again = p.buf_len();
                        while r.ghosts <= 2 * N && c.pop().is_some() {
                            r.ghosts += 1;
                        }
                    }
                    r
                });
                drop(rb);
                r.map_err(|_| simrt_text())
            }
        };
    }
    fn simrt_text() -> String {
        "panicked".into()
    }
    probe!(conc, ConcurrentStackRB);
    probe!(local, LocalStackRB);

    pub const NS: &[usize] = &[0, 1, 2, 6, 7, 16, 33, 64];

    pub fn probe(n: usize, is_conc: bool, ctor: u32, worker: bool, left: usize) -> Result<Report, String> {
        macro_rules! arms { ($($n:literal)*) => {
            match (n, is_conc) {
                $(($n, true) => conc::<$n>(ctor, worker, left), ($n, false) => local::<$n>(ctor, worker, left),)*
                _ => unreachable!(),
            }
        } }
        arms!(0 1 2 6 7 16 33 64)
    }
}

#[cfg(not(feature = "cfg-vmem"))]
pub use imp::{probe, NS};
#[cfg(feature = "cfg-vmem")]
pub const NS: &[usize] = &[];
#[cfg(feature = "cfg-vmem")]
pub fn probe(_n: usize, _c: bool, _k: u32, _w: bool, _l: usize) -> Result<Report, String> {
    unreachable!()
}
