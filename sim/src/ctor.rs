//! Construction: every length, every constructor; contents, capacity and the first session.

use crate::builder;
use crate::hist::{b, fail, pick, with_noop_cx, C, P, W, WHO};
use simcore::items;
use simcore::stage::{Get, Obs, Op, Res, Stage, Touch};
use simcore::world::*;
use simrt::choice::{chance, choose, weighted};
use simrt::{bit, count, ctx_add, mem, mix, tr, tsan, Cnt};

fn ex(s: &mut Option<Box<dyn Stage>>, op: Op) -> Obs {
    with_noop_cx(|cx| s.as_mut().unwrap().exec(&op, cx))
}

pub fn heap() {
    count(Cnt::ctor_runs, 1);
    tsan::set_mode(tsan::Mode::Single);
    items::ledger_reset();
    tsan::set_limit(u64::MAX);
    let vmem = cfg!(feature = "cfg-vmem");
    if vmem {
        ctx_add(bit(17));
    }
    let hs: Vec<Variant> = variants().iter().copied().filter(|v| v.heap()).collect();
    let v = pick(&hs);
    let item = pick(items_of(v));
    let ctor = pick(&[Ctor::From, Ctor::From, Ctor::Default, Ctor::Zeroed]);
    let want = if vmem {
        match weighted(&[2, 3, 3]) {
            0 => choose(2) as usize,
            1 => (choose(3) as usize * 4096 + [0, 1, 4095][choose(3) as usize]).min(2 * 4096 + 1),
            _ => choose(2 * 4096 + 1) as usize,
        }
    } else {
        match weighted(&[40, 80, 10, 4, 1]) {
            0 => choose(4) as usize,
            1 => choose(65) as usize,
            2 => choose(300) as usize,
            // around the powers of two, where a narrower integer would overflow
            3 => (1usize << (7 + choose(6))) - 1 + choose(3) as usize,
            _ => match (1usize << (13 + choose(4))) - 1 + choose(3) as usize {
                n if n * item.size() <= 2 << 20 => n,
                n => n % 5000,
            },
        }
    };
    let want = if vmem && ctor == Ctor::From { want.div_ceil(4096) * 4096 } else { want };
    let slack = if ctor == Ctor::From { [0, 1, 3, 64][choose(4) as usize] } else { 0 };
    let len = if vmem { want.div_ceil(4096) * 4096 } else { want };
    tr!("build {:?} of {:?}, {:?}({}), spare capacity {}", v, item, ctor, want, slack);
    mix(len as u64 | (ctor as u64) << 32 | (slack as u64) << 40 | (item as u64) << 48 | (v as u64) << 56);
    let r = builder(v, item)(v, ctor, want, slack);
    let mut world = match r {
        Err(_) if len == 0 => {
            count(Cnt::ctor_panics_expected, 1);
            count(Cnt::nontrivial, 1);
            return;
        }
        Err(r) => fail(b(&[18]), format!("constructing {:?} {:?} of length {} failed: {:?} ({})", v, ctor, want, r, simrt::panic_text())),
        Ok(_) if len == 0 => fail(b(&[18]), format!("{:?} {:?} of length 0 is accepted", v, ctor)),
        Ok(w) => w,
    };
    if !item.copy() && ctor != Ctor::Zeroed && items::ledger_live() != len as i64 {
        fail(b(&[18, 8, 17]), format!("{} live values after construction of length {}", items::ledger_live(), len));
    }
    let split = Split { worker: chance(1, 2), asynk: v.conc() && chance(1, 4) };
    let st = match world.split(split) {
        Some(Ok(s)) => s,
        Some(Err(r)) => fail(b(&[18]), format!("split failed: {:?} ({})", r, simrt::panic_text())),
        None => fail(b(&[18]), "no such split (driver)".into()),
    };
    if split.asynk {
        ctx_add(bit(14));
    }
    let mut st = [st.p, st.w, st.c];
    let mut live: Vec<usize> = [P, W, C].into_iter().filter(|w| *w != W || split.worker).collect();
    let cap = len - 1;
    let exp = |who: usize| if who == P { cap } else { 0 };
    for who in live.clone() {
        let l = st[who].as_mut().unwrap().look().unwrap();
        if l.len != len || l.idx != 0 || l.p != 0 || l.c != 0 || (split.worker && l.w != 0) || l.alive != [true, split.worker, true] {
            fail(b(&[18]), format!("right after the split the {} shows {:?} for length {}", WHO[who], l, len));
        }
        let n = ex(&mut st[who], Op::Avail).n;
        if n != exp(who) {
            fail(b(&[18, 4]), format!("right after the split {} slots are available to the {}, {} expected (length {})", n, WHO[who], exp(who), len));
        }
    }
    for op in [Op::Pop, Op::Get(Get::PeekOne), Op::Get(Get::AvailS), Op::Get(Get::PeekAvail)] {
        let o = ex(&mut st[C], op.clone());
        if o.res == Res::Ok && (o.seg_len() > 0 || op == Op::Pop) {
            fail(b(&[18]), format!("right after the split the consumer obtains something: {:?}", op));
        }
    }
    // the contents, as the windows show them
    let mask = item.mask();
    if ctor != Ctor::Zeroed {
        let mut at = 0usize;
        while at < len {
            let k = (1 + choose(cap.max(1) as u32) as usize).min(len - at).min(cap);
            if k == 0 {
                break;
            }
            for who in live.clone() {
                let o = ex(&mut st[who], Op::Get(Get::Exact(k)));
                if o.res != Res::Ok || o.seg_len() != k {
                    fail(b(&[18, 6]), format!("a window of {} slots at index {} is refused to the {} (length {})", k, at % len, WHO[who], len));
                }
                if who != P || chance(1, 2) {
                    // (at most a few slots of large windows)
                    let mut off = 0usize;
                    for s in &o.segs {
                        let m = s.1.min(64);
                        let tail = s.1.saturating_sub(m).min(64);
                        for (a, n) in [(0, m), (s.1 - tail, tail)] {
                            let vals = st[who].as_ref().unwrap().touch(&[(s.0 + a * item.size(), n)], Touch::Read);
                            for (j, x) in vals.iter().enumerate() {
                                let e = init_val(ctor, at + off + a + j) & mask;
                                if *x != e {
                                    fail(b(&[18, 17]), format!("slot {} of a buffer {:?}({}) holds {}, {} expected", at + off + a + j, ctor, want, x, e));
                                }
                            }
                        }
                        off += s.1;
                    }
                }
                ex(&mut st[who], Op::Adv(k));
            }
            at += k;
        }
    }
    // usable capacity
    if chance(1, 2) && (len <= 5000 || chance(1, 4)) {
        let init = ctor == Ctor::Zeroed;
        let mut n = 0;
        let asynk = split.asynk;
        while n <= len {
            // (a vacant slot is written without destroying what it held)
            let o = if init && asynk {
                let o = ex(&mut st[P], Op::Get(Get::NextInit));
                if o.res == Res::Ok {
                    st[P].as_ref().unwrap().touch(&o.segs, Touch::Init(&[n as u64 & mask], &[true]));
                    ex(&mut st[P], Op::Adv(1));
                }
                o
            } else {
                ex(&mut st[P], Op::Push(n as u64 & mask, init))
            };
            if o.res != Res::Ok {
                break;
            }
            n += 1;
        }
        if n != cap {
            fail(b(&[18]), format!("a fresh buffer of length {} accepts {} items", len, n));
        }
        if split.worker {
            ex(&mut st[W], Op::Adv(n));
        }
        for k in 0..n {
            let o = ex(&mut st[C], if item.copy() { Op::Pop } else { Op::CloneItem });
            if o.res != Res::Ok || o.vals != [k as u64 & mask] {
                fail(b(&[18, 1]), format!("item {} of {} comes out as {:?} {:?}", k, n, o.res, o.vals));
            }
        }
        if ex(&mut st[C], Op::Pop).res == Res::Ok {
            fail(b(&[18, 1]), format!("after all {} items the consumer obtains another one", n));
        }
    }
    count(Cnt::nontrivial, 1);
    while !live.is_empty() {
        let who = live.remove(choose(live.len() as u32) as usize);
        if ex(&mut st[who], Op::Drop).res == Res::Panicked {
            fail(b(&[7, 8]), format!("dropping the {} panicked ({})", WHO[who], simrt::panic_text()));
        }
    }
    if items::ledger_live() != 0 {
        fail(b(&[8, 17]), format!("{} values were never destroyed although the buffer is gone", items::ledger_live()));
    }
    if mem::live_blocks() != 0 {
        fail(b(&[7, 8]), format!("{} memory blocks are never released", mem::live_blocks()));
    }
    #[cfg(feature = "cfg-vmem")]
    if simrt::vm::mapped_pages() != 0 {
        fail(b(&[17, 7]), format!("{} pages stay mapped after the buffer was released", simrt::vm::mapped_pages()));
    }
}

pub fn stack() {
    count(Cnt::ctor_runs, 1);
    tsan::set_mode(tsan::Mode::Single);
    items::ledger_reset();
    tsan::set_limit(u64::MAX);
    let n = pick(ictor::NS);
    let conc = chance(1, 2);
    let ctor = choose(3);
    let worker = chance(1, 2);
    let left = choose(n as u32 + 1) as usize;
    tr!("stack buffer of {} u32, constructor {}, {}", n, ctor, if conc { "concurrent" } else { "local" });
    mix(n as u64 | (ctor as u64) << 8 | (conc as u64) << 16 | (worker as u64) << 17 | (left as u64) << 20);
    let bad = |m: String| fail(b(&[18]), format!("stack buffer of length {}: {}", n, m));
    let r = match ictor::probe(n, conc, ctor, worker, left) {
        Ok(r) => r,
        Err(e) => bad(format!("an operation panicked ({} {})", e, simrt::panic_text())),
    };
    count(Cnt::nontrivial, 1);
    if n == 0 {
        if !r.refused {
            bad("accepted".into());
        }
        count(Cnt::ctor_panics_expected, 1);
        return;
    }
    tr!("{:?}", r);
    if r.refused {
        bad(format!("the constructor panicked ({})", simrt::panic_text()));
    }
    if r.len != n || r.len_again != n {
        bad(format!("buf_len() is {}, in the second session {}", r.len, r.len_again));
    }
    if r.avail != [n - 1, 0, 0] {
        bad(format!("availabilities after the split are {:?}", r.avail));
    }
    let e: Vec<u64> = (0..if n == 1 { 0 } else { n }).map(|k| if ctor == 0 { 1000 + k as u64 } else { 0 }).collect();
    if r.init != e {
        bad(format!("contents {:?}, {:?} expected", r.init, e));
    }
    if r.accepted != n - 1 {
        bad(format!("accepts {} items", r.accepted));
    }
    let k = (n - 1).saturating_sub(left);
    if r.popped != (0..k as u64).map(|x| 7 + x).collect::<Vec<_>>() {
        bad(format!("{} pushed, {:?} came out", r.accepted, r.popped));
    }
    let rest = r.accepted - k;
    if r.again.iter().sum::<usize>() != n - 1 {
        bad(format!("after splitting again the availabilities {:?} do not sum to {}", r.again, n - 1));
    }
    if r.ghosts > rest {
        bad(format!("after splitting again the consumer obtains {} items although only {} were left", r.ghosts, rest));
    }
}
