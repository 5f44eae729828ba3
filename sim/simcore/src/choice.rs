//! Choice streams: every decision of a run is drawn here, recorded, and can be replayed.
use crate::rng::{mix2, Rng};
use crate::shared::{self, CH_CAP};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    /// What the workload is: operations, data, configuration.
    Plan = 0,
    /// Who runs when, what is split, what is stolen.
    Sched = 1,
    /// Which fault fires where.
    Fault = 2,
}

struct Ctx {
    rng: [Rng; 3],
    replay: Option<[Vec<u32>; 3]>,
}
static mut CTX: Ctx = Ctx { rng: [Rng::zero(); 3], replay: None };

#[allow(static_mut_refs)]
fn ctx() -> &'static mut Ctx {
    unsafe { &mut CTX }
}

pub fn init_seed(seed: u64) {
    let c = ctx();
    for i in 0..3 {
        c.rng[i] = Rng::new(mix2(seed, 0x1000 + i as u64));
    }
    c.replay = None;
}
pub fn init_replay(ch: [Vec<u32>; 3]) {
    ctx().replay = Some(ch);
}

/// A value in 0..=max. 0 is always the simplest choice: shrinking drives towards it.
pub fn draw(st: St, max: u64) -> u64 {
    let max = max.min(u32::MAX as u64);
    let i = st as usize;
    let sh = shared::get();
    let pos = sh.n_choices[i] as usize;
    if pos >= CH_CAP {
        return 0;
    }
    let c = ctx();
    let v = match &c.replay {
        Some(r) => (*r[i].get(pos).unwrap_or(&0) as u64).min(max),
        None => c.rng[i].upto(max),
    };
    sh.choices[i][pos] = v as u32;
    sh.n_choices[i] = pos as u32 + 1;
    if i == 1 {
        shared::fnv_u64(&mut sh.sched_hash, v ^ (max << 32));
    }
    v
}
pub fn chance(st: St, num: u64, den: u64) -> bool {
    // true is the interesting outcome, so it must not be 0
    draw(st, den - 1) >= den - num
}
pub fn range(st: St, lo: u64, hi: u64) -> u64 {
    lo + draw(st, hi - lo)
}
/// Index by weight; index 0 is the simplest.
pub fn weighted(st: St, w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let mut v = draw(st, total - 1);
    for (i, x) in w.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= *x;
    }
    w.len() - 1
}
pub fn u64_bits(st: St) -> u64 {
    let a = draw(st, u32::MAX as u64);
    let b = draw(st, u32::MAX as u64);
    a | (b << 32)
}
