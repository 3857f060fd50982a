//! The choice stream: every nondeterministic decision of a run is one number drawn here.
//! Recording them is the replay file; on replay (or past its end) the default 0 is the simplest choice.

use crate::{sh, MAX_CHOICES};

static mut X: u64 = 0;
static mut REPLAY: Option<Vec<u32>> = None;
static mut POS: usize = 0;

pub(crate) fn reset(seed: u64, replay: Option<Vec<u32>>) {
    unsafe {
        X = seed ^ 0x5851_F42D_4C95_7F2D;
        REPLAY = replay;
        POS = 0;
        sh().n = 0;
        for _ in 0..4 {
            rnd();
        }
    }
}

#[inline]
fn rnd() -> u64 {
    unsafe {
        X = X.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = X;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

#[inline(never)]
fn decide(limit: u32, gen: impl FnOnce() -> u32) -> u32 {
    unsafe {
        let v = match &REPLAY {
            Some(r) => {
                let v = r.get(POS).copied().unwrap_or(0);
                if v >= limit { limit - 1 } else { v }
            }
            None => gen(),
        };
        POS += 1;
        let s = sh();
        if (s.n as usize) < MAX_CHOICES {
            s.choices[s.n as usize] = v;
            s.n += 1;
        } else {
            // a run that needs more choices than can be recorded is ended as "too long" by the driver
            crate::fiber::too_long();
        }
        v
    }
}

/// Uniform in [0, n); 0 is the simplest alternative.
#[inline(never)]
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    decide(n, || (rnd() % n as u64) as u32)
}

/// `true` with probability num/den; false is simplest.
#[inline(never)]
pub fn chance(num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    decide(2, || ((rnd() % den as u64) < num as u64) as u32) == 1
}

/// Weighted choice; index 0 is simplest. Weights may be zero.
#[inline(never)]
pub fn weighted(w: &[u32]) -> u32 {
    let tot: u64 = w.iter().map(|x| *x as u64).sum();
    if tot == 0 {
        return 0;
    }
    let v = decide(w.len() as u32, || {
        let mut r = rnd() % tot;
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i as u32;
            }
            r -= *x as u64;
        }
        0
    });
    // never return an alternative that is switched off (possible on a mutated replay)
    if w[v as usize] == 0 {
        w.iter().position(|x| *x != 0).unwrap() as u32
    } else {
        v
    }
}

/// A choice whose distribution is computed by the caller (scheduler policies).
#[inline(never)]
pub(crate) fn choose_by(n: u32, gen: impl FnOnce(&mut dyn FnMut() -> u64) -> u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    decide(n, || gen(&mut rnd))
}

pub fn recorded() -> Vec<u32> {
    let s = sh();
    s.choices[..s.n as usize].to_vec()
}
