//! C08, C10, C14: conversions that are interrupted, that run at the same time, and what they cost.
use crate::common::*;
use crate::damage::damage;
use crate::model::*;
use crate::types::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use simcore::heap::{self, harness};
use simcore::rng::mix2;
use simcore::run::{fail, sut, Stop};
use simcore::{log, sched, shared};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[cfg(feature = "par")]
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};

fn h<const N: usize>(b: &Bits<N>) -> u64 {
    let mut a = 0xcbf2_9ce4_8422_2325u64;
    for v in b {
        a = mix2(a, *v);
    }
    a
}
fn hp<const N: usize, P: SimPoint<N>>(p: P) -> u64 {
    let x = h(&p.bits());
    call(Cb::Consumer);
    x
}
fn list(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |a, x| mix2(a, *x))
}

// ---------------------------------------------------------------- operations

/// One use of the library with its inputs. Doing it twice gives the same answer.
#[derive(Clone)]
pub struct Input<const N: usize> {
    m: PointCloud2Msg,
    pts: Vec<Bits<N>>,
    k: usize,
    k2: usize,
}
#[cfg(feature = "par")]
const N_OPS: u64 = 25;
#[cfg(not(feature = "par"))]
const N_OPS: u64 = 12;
const FIRST_PAR: u64 = 12;
fn op_name(op: u64) -> &'static str {
    [
        "write a vector",
        "write an iterator",
        "write a lazy source",
        "read into a vector",
        "read with an iterator",
        "read a part, drop the rest",
        "read with a consumer",
        "read to a message",
        "split and read both parts",
        "split and drop one part",
        "skip, step, count and last",
        "split many times",
        "write a parallel source",
        "write a parallel map",
        "read in parallel",
        "read in parallel with a consumer",
        "parallel map",
        "parallel search",
        "parallel zip",
        "parallel read to a parallel write",
        "parallel fold and reduce",
        "parallel attempt",
        "read from both ends",
        "parallel chunks",
        "parallel read of a part",
    ][op as usize]
}
/// Reads that may hand out points copied byte by byte (no constructor call).
fn raw_points(op: u64, n: usize) -> i64 {
    if op == 3 {
        n as i64
    } else {
        0
    }
}

fn perform<const N: usize, P: SimPoint<N>>(op: u64, i: &Input<N>) -> Result<u64, Stop> {
    let name = op_name(op);
    let (k, k2) = (i.k, i.k2);
    match op {
        0 | 1 | 2 | 12 | 13 => {
            let v: Vec<P> = make_vec(&i.pts);
            let r = sut(name, move || match op {
                0 => PointCloud2Msg::try_from_vec(v),
                1 => PointCloud2Msg::try_from_iter(v),
                2 => {
                    let mut it = v.into_iter();
                    PointCloud2Msg::try_from_iter(std::iter::from_fn(move || {
                        call(Cb::Source);
                        it.next()
                    }))
                }
                #[cfg(feature = "par")]
                12 => PointCloud2Msg::try_from_par_iter(v.into_par_iter()),
                #[cfg(feature = "par")]
                _ => PointCloud2Msg::try_from_par_iter(v.into_par_iter().map(|p| {
                    call(Cb::Source);
                    p
                })),
                #[cfg(not(feature = "par"))]
                _ => PointCloud2Msg::try_from_vec(v),
            })?;
            message(r)
        }
        7 => {
            let inp = input(&i.m);
            let r = sut(name, move || -> Result<PointCloud2Msg, MsgConversionError> {
                let it = inp.try_into_iter::<N, P>()?;
                PointCloud2Msg::try_from_iter(it.map(|p| {
                    call(Cb::Consumer);
                    p
                }))
            })?;
            message(r)
        }
        #[cfg(feature = "par")]
        19 => {
            let inp = input(&i.m);
            let r = sut(name, move || -> Result<PointCloud2Msg, MsgConversionError> {
                let it = inp.try_into_par_iter::<N, P>()?;
                PointCloud2Msg::try_from_par_iter(it.filter(|p| {
                    call(Cb::Consumer);
                    h(&p.bits()) % 3 != 0
                }))
            })?;
            message(r)
        }
        3 => {
            let inp = input(&i.m);
            let r = sut(name, move || inp.try_into_vec::<N, P>())?;
            match r {
                Ok(v) => {
                    let d = harness(|| list(&v.iter().map(|p| h(&p.bits())).collect::<Vec<_>>()));
                    sut("drop points", move || drop(v))?;
                    Ok(d)
                }
                Err(e) => Ok(error(e)),
            }
        }
        _ => {
            let inp = input(&i.m);
            let inp2 = if op == 18 { Some(input(&i.m)) } else { None };
            let r = sut(name, move || -> Result<u64, MsgConversionError> {
                let mut it = PointCloudIterator::<N, P>::try_from(inp)?;
                let n = Iterator::size_hint(&it).0;
                Ok(match op {
                    4 => {
                        let v: Vec<P> = Iterator::collect(it);
                        let d = harness(|| list(&v.iter().map(|p| h(&p.bits())).collect::<Vec<_>>()));
                        drop(v);
                        d
                    }
                    5 => {
                        let mut a = 1;
                        for _ in 0..k.min(n) {
                            if let Some(p) = Iterator::next(&mut it) {
                                a = mix2(a, hp(p));
                            }
                        }
                        a
                    }
                    6 => Iterator::fold(it, 1u64, |a, p| mix2(a, hp(p))),
                    8 => {
                        let (mut a, mut b) = it.split_at(k.min(n));
                        let mut d = 1;
                        loop {
                            let x = Iterator::next(&mut a);
                            let y = Iterator::next(&mut b);
                            if x.is_none() && y.is_none() {
                                break;
                            }
                            d = mix2(d, x.map_or(7, |p| hp(p)));
                            d = mix2(d, y.map_or(9, |p| hp(p)));
                        }
                        d
                    }
                    9 => {
                        let (a, b) = it.split_at(k.min(n));
                        let keep = if k2 % 2 == 0 {
                            drop(a);
                            b
                        } else {
                            drop(b);
                            a
                        };
                        Iterator::fold(keep, 1u64, |a, p| mix2(a, hp(p)))
                    }
                    10 => {
                        let (a, b) = it.split_at(k.min(n));
                        let x = Iterator::count(Iterator::skip(a, k2 % 5)) as u64;
                        let y = Iterator::last(Iterator::step_by(b, 1 + k2 % 4)).map_or(3, |p| hp(p));
                        mix2(x, y)
                    }
                    11 => {
                        // a chain of splits, each part used at once
                        let mut rest = it;
                        let mut d = 1;
                        for j in 0..(8 + k % 25) {
                            let n = Iterator::size_hint(&rest).0;
                            let at = if n == 0 { 0 } else { 1 + (k2 + j) % n.min(9) };
                            let (a, b) = rest.split_at(at.min(n));
                            d = Iterator::fold(a, d, |a, p| mix2(a, hp(p)));
                            rest = b;
                        }
                        Iterator::fold(rest, d, |a, p| mix2(a, hp(p)))
                    }
                    #[cfg(feature = "par")]
                    14 => {
                        let v: Vec<P> = ParallelIterator::collect(it);
                        let d = harness(|| list(&v.iter().map(|p| h(&p.bits())).collect::<Vec<_>>()));
                        drop(v);
                        d
                    }
                    #[cfg(feature = "par")]
                    15 => {
                        let s = AtomicU64::new(0);
                        ParallelIterator::for_each(it, |p| {
                            s.fetch_add(hp(p), Relaxed);
                        });
                        s.into_inner()
                    }
                    #[cfg(feature = "par")]
                    16 => list(&ParallelIterator::map(it, hp::<N, P>).collect::<Vec<u64>>()),
                    #[cfg(feature = "par")]
                    17 => {
                        let x = ParallelIterator::find_first(it, |p| {
                            call(Cb::Consumer);
                            h(&p.bits()) % 11 == 0
                        });
                        x.map_or(5, |p| hp(p))
                    }
                    #[cfg(feature = "par")]
                    18 => {
                        let it2 = PointCloudIterator::<N, P>::try_from(inp2.expect("second input"))?;
                        let v: Vec<u64> = IndexedParallelIterator::zip(it, ParallelIterator::map(it2, hp::<N, P>).collect::<Vec<u64>>()).map(|(p, x)| mix2(hp(p), x)).collect();
                        list(&v)
                    }
                    #[cfg(feature = "par")]
                    20 => ParallelIterator::map(it, hp::<N, P>).fold(|| 0u64, |a, x| a.wrapping_add(x)).reduce(|| 0, |a, b| a.wrapping_add(b)),
                    #[cfg(feature = "par")]
                    21 => {
                        let c = AtomicUsize::new(0);
                        let r = ParallelIterator::map(it, |p| {
                            c.fetch_add(1, Relaxed);
                            hp::<N, P>(p)
                        })
                        .try_for_each(|x| if x % 13 == 0 { Err(()) } else { Ok(()) });
                        r.is_ok() as u64
                    }
                    #[cfg(feature = "par")]
                    22 => {
                        let mut d = 1;
                        let mut j = k2;
                        for _ in 0..k.min(n) {
                            j = j.wrapping_mul(5).wrapping_add(3);
                            let p = if j & 4 == 0 { Iterator::next(&mut it) } else { DoubleEndedIterator::next_back(&mut it) };
                            if let Some(p) = p {
                                d = mix2(d, hp(p));
                            }
                        }
                        mix2(d, Iterator::size_hint(&it).0 as u64)
                    }
                    #[cfg(feature = "par")]
                    23 => {
                        let v: Vec<u64> = IndexedParallelIterator::chunks(it, 1 + k2 % 7)
                            .map(|c| {
                                call(Cb::Consumer);
                                Iterator::fold(c.into_iter(), 1u64, |a, p| mix2(a, h(&p.bits())))
                            })
                            .collect();
                        list(&v)
                    }
                    #[cfg(feature = "par")]
                    24 => {
                        for _ in 0..k.min(n) {
                            let _ = Iterator::next(&mut it);
                        }
                        list(&IndexedParallelIterator::rev(it).map(hp::<N, P>).collect::<Vec<u64>>())
                    }
                    _ => {
                        drop(inp2);
                        0
                    }
                })
            })?;
            match r {
                Ok(d) => Ok(d),
                Err(e) => Ok(error(e)),
            }
        }
    }
}
fn message(r: Result<PointCloud2Msg, MsgConversionError>) -> Result<u64, Stop> {
    match r {
        Ok(m) => Ok(harness(|| msg_digest(&export(m)))),
        Err(e) => Ok(error(e)),
    }
}
fn error(e: MsgConversionError) -> u64 {
    let (k, m) = err_of(e);
    let mut x = 0xBAD;
    shared::fnv(&mut x, k.as_bytes());
    shared::fnv(&mut x, format!("{m:?}").as_bytes());
    x
}
fn draw_input<const N: usize, P: SimPoint<N>>(max: u64) -> Input<N> {
    let n = cap::<N>(draw_size(max, false));
    let (m, pts) = draw_message::<N, P>(n);
    let k = plan((n as u64).max(4)) as usize;
    let k2 = plan(1000) as usize;
    Input { m, pts, k, k2 }
}

// ---------------------------------------------------------------- C08

pub fn c08() {
    draw_heap();
    let k = pweighted(&[3, 3, 1, 1]);
    earlier([18, 19, 10, 4][k]);
    match k {
        0 => interrupted::<2, Led>(),
        1 => interrupted::<2, Far>(),
        2 => interrupted::<8, AllR>(),
        _ => interrupted::<5, ros_pointcloud2::points::PointXYZRGBA>(),
    }
}
struct Plan8<const N: usize> {
    op: u64,
    input: Input<N>,
    /// callback or allocation, as a fraction of what an undisturbed run does
    panics: bool,
    frac: u64,
    min: usize,
    again: u64,
    /// the very first conversion is interrupted already, at this callback or allocation
    first: u64,
}
fn ledger() -> i64 {
    LED_NEW.load(Relaxed) - LED_DROP.load(Relaxed)
}
fn interrupted<const N: usize, P: SimPoint<N>>() {
    let rounds = 1 + plan(2);
    let mut jobs = vec![];
    for _ in 0..rounds {
        let op = plan(N_OPS - 1);
        let input = draw_input::<N, P>(if N > 4 { 60 } else { 150 });
        jobs.push(Plan8 {
            op,
            input,
            panics: fchance(3, 5),
            frac: fdraw(9999),
            min: if fchance(1, 4) { 64 } else { 0 },
            again: plan(1),
            first: if fchance(1, 4) { 1 + fdraw(12) } else { 0 },
        });
    }
    nontrivial();
    let body = move || {
        for j in &jobs {
            one_interruption::<N, P>(j);
        }
        heap::check_all();
    };
    #[cfg(feature = "par")]
    {
        if jobs_parallel() {
            draw_pool();
            scheduled_anywhere(pchance(1, 2), body);
            return;
        }
    }
    body()
}
#[cfg(feature = "par")]
fn jobs_parallel() -> bool {
    pchance(3, 4)
}
fn one_interruption<const N: usize, P: SimPoint<N>>(j: &Plan8<N>) {
    let name = op_name(j.op);
    let n = j.input.pts.len();
    let raw = raw_points(j.op, n);
    let foreign = j.input.m.endian == ros_pointcloud2::Endian::Big;
    let ctx = || format!("{name}, {n} points of {} ({})", P::NAME, describe(&j.input.m));
    sched::budget(400_000_000);
    // what is set up once and kept is nobody's leak
    if j.first > 0 {
        log!("{}: the first call is interrupted at {}", ctx(), j.first);
        shared::probe("interrupted while cold");
        if j.panics {
            arm_panic(j.first);
        } else {
            heap::arm_failure(j.first, 0);
        }
        match perform::<N, P>(j.op, &j.input) {
            Err(Stop::Panic(t)) if j.panics => fail("interrupted:panic", &format!("{}: {t} at the first call", ctx())),
            _ => {}
        }
        disarm_panic();
        heap::disarm();
    }
    if let Err(s) = perform::<N, P>(j.op, &j.input) {
        fail("interrupted:undisturbed", &format!("{}: {s:?}", ctx()));
    }
    // undisturbed
    let h0 = heap::stats();
    let l0 = ledger();
    arm_panic(0);
    heap::arm_failure(0, 0);
    let want = match perform::<N, P>(j.op, &j.input) {
        Ok(d) => d,
        Err(s) => fail("interrupted:undisturbed", &format!("{}: {s:?}", ctx())),
    };
    let allocs = heap::disarm();
    let calls = disarm_panic();
    let h1 = heap::stats();
    let d1 = ledger() - l0;
    let quiet = || drop(perform::<N, P>(j.op, &j.input));
    if h1.live_n > h0.live_n && keeps_growing(quiet) {
        fail("interrupted:leak", &format!("{}: undisturbed, {} blocks are left", ctx(), h1.live_n as i64 - h0.live_n as i64));
    }
    if !(d1 == 0 || d1 == -raw) || (foreign && d1 != 0) {
        fail("interrupted:drops", &format!("{}: undisturbed, {} points more constructed than dropped", ctx(), d1));
    }
    // interrupted
    let upto = if j.panics { calls } else { allocs };
    let at = 1 + j.frac * (upto + 1) / 10_000;
    if j.panics {
        log!("{}: panic at callback {at} of {calls}", ctx());
        arm_panic(at);
    } else {
        log!("{}: allocation {at} of {allocs} fails", ctx());
        heap::arm_failure(at, j.min);
    }
    let failed0 = heap::stats().failed;
    let r = perform::<N, P>(j.op, &j.input);
    let fired = if j.panics { PANIC_AT.load(Relaxed) == 0 } else { heap::stats().failed > failed0 };
    disarm_panic();
    heap::disarm();
    let h2 = heap::stats();
    let d2 = ledger() - l0 - d1;
    match &r {
        Ok(d) if j.panics && fired => fail("interrupted:swallowed", &format!("{}: the panic at callback {at} never reached the caller (answer {})", ctx(), d == &want)),
        Ok(d) => {
            // nothing fired, or the allocation failure was handled: then the answer is right or an error
            if *d != want && !fired {
                fail("interrupted:answer", &format!("{}: the repeated operation gives another answer", ctx()));
            }
            if *d != want && fired {
                shared::probe("allocation failure reported");
            }
        }
        Err(Stop::Injected(_)) if j.panics => shared::probe("panic reached the caller"),
        Err(Stop::AllocFailed) if !j.panics => shared::probe("allocation failure reached the caller"),
        Err(s) if !j.panics && fired => {
            // reported in another way
            let _ = s;
            shared::probe("allocation failure reported");
        }
        Err(s) => fail("interrupted:panic", &format!("{}: {s:?} instead of the interruption", ctx())),
    }
    if fired {
        shared::probe(if j.panics { "interrupted by a panic" } else { "interrupted by an allocation failure" });
    }
    // Where memory runs out, std itself lets go of buffers (Arc<[T]>::from a Vec does) because the
    // process is expected to end: what is left behind then is not the library's doing.
    let oom = !j.panics && matches!(r, Err(Stop::AllocFailed));
    let disturbed = || {
        if j.panics {
            arm_panic(at);
        } else {
            heap::arm_failure(at, j.min);
        }
        let _ = perform::<N, P>(j.op, &j.input);
        disarm_panic();
        heap::disarm();
        let _ = perform::<N, P>(j.op, &j.input);
    };
    if !oom && h2.live_n > h1.live_n && keeps_growing(disturbed) {
        fail(
            "interrupted:leak",
            &format!("{}: {} blocks are left after {} {at}", ctx(), h2.live_n as i64 - h1.live_n as i64, if j.panics { "a panic at callback" } else { "the failure of allocation" }),
        );
    }
    let fine = match (fired, foreign || raw == 0) {
        _ if oom => d2 >= if foreign { 0 } else { -raw },
        (_, true) => d2 == 0,
        (true, false) if !j.panics && !oom => (-raw..=0).contains(&d2),
        _ => d2 == 0 || d2 == -raw,
    };
    if !fine {
        fail(
            "interrupted:drops",
            &format!("{}: {} points more constructed than dropped after {} {at}", ctx(), d2, if j.panics { "a panic at callback" } else { "the failure of allocation" }),
        );
    }
    heap::check_all();
    // afterwards
    for _ in 0..=j.again {
        let l = ledger();
        let b = heap::stats().live_n;
        match perform::<N, P>(j.op, &j.input) {
            Ok(d) if d == want => {}
            Ok(_) => fail("interrupted:after", &format!("{}: gives another answer after an interruption", ctx())),
            Err(s) => fail("interrupted:after", &format!("{}: {s:?} after an interruption", ctx())),
        }
        let left = heap::stats().live_n as i64 - b as i64;
        let points = ledger() - l;
        if points != d1 || (left > 0 && keeps_growing(if oom { &quiet as &dyn Fn() } else { &disturbed })) {
            fail("interrupted:after", &format!("{}: leaves {left} blocks and {points} points behind after an interruption", ctx()));
        }
    }
    sched::no_budget();
}

// ---------------------------------------------------------------- C10

/// An operation on one type and its answer when nothing else is going on.
struct Task10 {
    what: String,
    run: Box<dyn Fn() -> Result<u64, Stop> + Send + Sync>,
    want: u64,
    size: u64,
}
fn task<const N: usize, P: SimPoint<N>>(max: u64) -> (String, u64, Box<dyn Fn() -> Result<u64, Stop> + Send + Sync>) {
    let rich = P::NAME == "Far" || P::NAME == "PointXYZRGBA" || P::NAME == "One";
    let mut input = draw_input::<N, P>(max);
    if pchance(1, 8) {
        damage(&mut input.m);
    }
    let op = if PARALLEL.load(Relaxed) && pchance(2, 3) { 5 + plan(1) } else { plan(7) };
    let what = format!("operation {op} on {} points of {}", input.pts.len(), P::NAME);
    let _ = rich;
    (
        what,
        10 + input.pts.len() as u64,
        Box::new(move || {
            let out = |o: Out<N>| match o {
                Out::Ok(v) => Ok(list(&v.iter().map(|b| h(b)).collect::<Vec<_>>())),
                Out::Err { kind, missing } => {
                    let mut x = 0xBAD;
                    shared::fnv(&mut x, format!("{kind}{missing:?}").as_bytes());
                    Ok(x)
                }
                Out::Stop(s) => Err(s),
            };
            match op {
                0 | 1 => written::<N, P>(op, &input),
                2 => out(read::<N, P>(Path::Vec, &input.m)),
                3 => out(read::<N, P>(Path::Iter, &input.m)),
                4 => out(read::<N, P>(Path::IterNext, &input.m)),
                #[cfg(feature = "par")]
                5 => out(read::<N, P>(Path::Par, &input.m)),
                #[cfg(feature = "par")]
                6 => written::<N, P>(2, &input),
                _ => out(read::<N, P>(Path::Split, &input.m)),
            }
        }),
    )
}
fn written<const N: usize, P: SimPoint<N>>(op: u64, i: &Input<N>) -> Result<u64, Stop> {
    let w = match op {
        0 => Write::Vec,
        1 => Write::IterVec,
        #[cfg(feature = "par")]
        2 => Write::Par,
        _ => Write::IterMap,
    };
    match write::<N, P>(w, &i.pts)? {
        Ok(m) => Ok(harness(|| msg_digest(&export(m)))),
        Err(e) => {
            let mut x = 0xBAD;
            shared::fnv(&mut x, e.as_bytes());
            Ok(x)
        }
    }
}
/// The answer in a process in which nothing else happens or happened.
fn answer_alone(what: &str, run: &dyn Fn() -> Result<u64, Stop>) -> u64 {
    if let Some(d) = simcore::run::alone(|| run().ok()) {
        return d;
    }
    match run() {
        Ok(d) => d,
        Err(s) => fail("concurrent:alone", &format!("{what}: {s:?}")),
    }
}
fn draw_task(max: u64) -> Task10 {
    let t = match pweighted(&[3, 2]) {
        0 => plan(N_TYPES as u64 - 1),
        // types that are easily confused: same number of fields, same names
        _ => [1u64, 2, 3, 13, 20, 0, 15, 17, 4, 7, 11, 9, 10][plan(12) as usize],
    };
    let (what, size, run) = for_type!(t, task(max));
    let want = answer_alone(&what, &run);
    Task10 { what, run, want, size }
}
/// Whether most tasks shall be parallel ones.
static PARALLEL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The nested work of the run; index by the caller's depth.
static NESTED: Mutex<Vec<Arc<Task10>>> = Mutex::new(Vec::new());
static NEST_EVERY: AtomicU64 = AtomicU64::new(0);
static NEST_POINTS: AtomicU64 = AtomicU64::new(0);
static NEST_COUNT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
fn nested_work(cb: Cb) {
    let _ = cb;
    harness(|| {
        if DEPTH.with(|d| d.get()) >= 2 {
            return;
        }
        let c = NEST_COUNT.fetch_add(1, Relaxed);
        if c % NEST_EVERY.load(Relaxed).max(1) != 0 || c > 4000 {
            return;
        }
        DEPTH.with(|d| d.set(d.get() + 1));
        let t = {
            let l = NESTED.lock().unwrap();
            if l.is_empty() {
                None
            } else {
                Some(l[c as usize % l.len()].clone())
            }
        };
        // much work at every callback of everything is too much
        if let Some(t) = t.filter(|t| NEST_POINTS.fetch_add(t.size, Relaxed) < 60_000) {
            shared::probe("conversion inside a callback");
            let old = shared_phase();
            match (t.run)() {
                Ok(d) if d == t.want => {}
                Ok(_) => fail("concurrent:nested", &format!("{} inside a callback gives another answer than alone", t.what)),
                Err(s) => fail("concurrent:nested", &format!("{} inside a callback: {s:?}", t.what)),
            }
            shared::phase(&old);
        }
        DEPTH.with(|d| d.set(d.get() - 1));
    });
}
fn shared_phase() -> String {
    simcore::run::phase_text()
}

pub fn c10() {
    draw_heap();
    #[cfg(feature = "par")]
    draw_pool();
    let style = pweighted(&[4, 2, 3]);
    // callers that are jobs of one pool: a worker that waits for a part of one conversion may take
    // up another whole conversion meanwhile
    #[cfg(feature = "par")]
    let pooled = pchance(1, 2);
    #[cfg(not(feature = "par"))]
    let pooled = false;
    PARALLEL.store(pooled, Relaxed);
    let callers = 2 + plan(2) as usize;
    let small = if pooled && pchance(1, 3) { 100 } else { 24 };
    let mut work: Vec<Vec<Task10>> = vec![];
    let mut ctx = vec![];
    let first_type = plan(N_TYPES as u64 - 1);
    if style < 2 {
        for c in 0..callers {
            let k = 1 + plan(2);
            let v: Vec<Task10> = (0..k).map(|_| draw_task(small)).collect();
            for t in &v {
                log!("caller {c}: {}", t.what);
                ctx.push(t.what.clone());
            }
            work.push(v);
        }
    }
    nontrivial();
    if style == 1 {
        // conversions of types with behaviour run other conversions inside their callbacks
        let k = 1 + plan(2);
        let v: Vec<Arc<Task10>> = (0..k).map(|_| Arc::new(draw_task(12))).collect();
        for t in &v {
            log!("inside callbacks: {}", t.what);
        }
        *NESTED.lock().unwrap() = v;
        NEST_EVERY.store(1 + plan(6), Relaxed);
        let input = draw_input::<2, Led>(20);
        let op = plan(N_OPS - 1);
        let want = answer_alone(op_name(op), &|| perform::<2, Led>(op, &input));
        log!("host: {}", op_name(op));
        work[0].insert(
            0,
            Task10 {
                what: format!("{} of Led with conversions in its callbacks", op_name(op)),
                run: Box::new(move || {
                    set_hook(Some(nested_work));
                    let r = perform::<2, Led>(op, &input);
                    set_hook(None);
                    r
                }),
                want,
                size: 0,
            },
        );
    }
    let conf = sched::Conf {
        policy: [sched::Policy::Sticky, sched::Policy::Uniform, sched::Policy::Pct][plan(2) as usize],
        max_gap: [3u64, 15, 80, 400][plan(3) as usize],
        stalls: pchance(1, 3),
    };
    log!("scheduler {:?}, gap {}", conf.policy, conf.max_gap);
    if style == 2 {
        let t = plan(N_TYPES as u64 - 1);
        let input_fn: Box<dyn FnOnce() + Send> = for_type!(t, parts(t));
        sched::simulate(conf, input_fn);
        heap::check_all();
        return;
    }
    earlier(first_type);
    sched::simulate(conf, move || {
        sched::budget(400_000_000);
        let list = |v: Vec<Task10>| {
            for t in v {
                match (t.run)() {
                    Ok(d) if d == t.want => {}
                    Ok(_) => fail("concurrent:answer", &format!("{} gives another answer while others run", t.what)),
                    Err(s) => fail("concurrent:answer", &format!("{} while others run: {s:?}", t.what)),
                }
            }
        };
        if pooled {
            shared::probe("callers are jobs of a pool");
            #[cfg(feature = "par")]
            rayon::scope(|s| {
                for v in work {
                    s.spawn(move |_| list(v));
                }
            });
        } else {
            let hs: Vec<sched::Caller> = work.into_iter().map(|v| sched::spawn(move || list(v))).collect();
            for c in hs {
                c.join();
            }
        }
        sched::no_budget();
    });
    heap::check_all();
}
/// One iterator, split; every part is read by another thread, at the same time.
fn parts<const N: usize, P: SimPoint<N>>(t: u64) -> Box<dyn FnOnce() + Send> {
    let n = cap::<N>(draw_size(40, false));
    let (m, _) = draw_message::<N, P>(n);
    let all = match read::<N, P>(Path::Iter, &m) {
        Out::Ok(v) => v,
        o => fail("concurrent:alone", &format!("reading an intact message: {o:?}")),
    };
    let cuts = 1 + plan(2) as usize;
    let mut at: Vec<usize> = (0..cuts).map(|_| plan(n as u64) as usize).collect();
    at.sort();
    let inside = pchance(1, 3);
    log!("{n} points of {} read in parts cut at {at:?}: {}", P::NAME, describe(&m));
    earlier(t);
    Box::new(move || {
        sched::budget(400_000_000);
        let inp = input(&m);
        let it = match sut("open an iterator", move || PointCloudIterator::<N, P>::try_from(inp).ok()) {
            Ok(Some(it)) => it,
            r => fail("concurrent:alone", &format!("an intact message is refused ({})", r.is_ok())),
        };
        let mut hs = vec![];
        let mut rest = it;
        let mut from = 0;
        let mut start = 0;
        for (i, a) in at.iter().chain(std::iter::once(&all.len())).enumerate() {
            let len = a - from;
            from = *a;
            let (mine, others) = if i < at.len() {
                match sut("split", move || rest.split_at(len)) {
                    Ok((x, y)) => (x, Some(y)),
                    Err(s) => fail("concurrent:panic", &format!("splitting at {len}: {s:?}")),
                }
            } else {
                (rest, None)
            };
            let want: Vec<Bits<N>> = all[start..start + len].to_vec();
            start += len;
            hs.push(sched::spawn(move || {
                let mut mine = mine;
                let r = sut("read a part", move || {
                    if inside {
                        // split again where it is read
                        let k = Iterator::size_hint(&mine).0;
                        let (a, b) = mine.split_at(k / 2);
                        let mut v: Vec<P> = Iterator::collect(a);
                        v.extend(b);
                        v
                    } else {
                        let mut v = Vec::new();
                        while let Some(p) = Iterator::next(&mut mine) {
                            v.push(p);
                        }
                        v
                    }
                });
                match r {
                    Ok(v) => {
                        let b = bits_vec(&v);
                        let _ = sut("drop points", move || drop(v));
                        if b != want {
                            fail("concurrent:parts", &format!("part {i} of {} {}: {}", want.len(), P::NAME, first_diff(&b, &want)));
                        }
                    }
                    Err(s) => fail("concurrent:panic", &format!("reading part {i}: {s:?}")),
                }
            }));
            match others {
                Some(o) => rest = o,
                None => break,
            }
        }
        for c in hs {
            c.join();
        }
        sched::no_budget();
    })
}

// ---------------------------------------------------------------- C14

pub fn c14() {
    draw_heap();
    match pweighted(&[5, 3, 2]) {
        0 => match plan(3) {
            0 => costs::<3, ros_pointcloud2::points::PointXYZ>(),
            1 => costs::<1, One>(),
            2 => costs::<8, AllC>(),
            _ => costs::<36, Wide>(),
        },
        1 => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            for_type!(t, forged());
        }
        _ if cfg!(feature = "par") && pchance(1, 3) => match plan(2) {
            0 => taken_apart::<3, ros_pointcloud2::points::PointXYZ>(),
            1 => taken_apart::<1, One>(),
            _ => taken_apart::<8, AllC>(),
        },
        _ => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            for_type!(t, many_splits());
        }
    }
}
/// A cloud taken apart completely by splitting, and one eight times as large: what a split, a read
/// from a part and the drop of a part cost must not depend on how many splits were made before.
fn taken_apart<const N: usize, P: SimPoint<N>>() {
    let small = 60 + plan(60) as usize;
    let factor = 8usize;
    heap::configure(2, plan(7), false);
    let shape = plan(3);
    let keep = pchance(1, 2);
    let v = draw_values();
    let s = if pchance(1, 2) { native_schema::<N, P>().unwrap_or_else(c_schema::<N, P>) } else { draw_schema::<N, P>(false) };
    let make = |n: usize| encode(&points_of::<N, P>(n, v), &s, n as u32, 1);
    let (a, b) = (make(small), make(small * factor));
    log!("{} points of {} taken apart, shape {shape}, parts kept: {keep}: {}", small * factor, P::NAME, describe(&b));
    nontrivial();
    warm::<N, P>(Path::Iter);
    let run = |m: &PointCloud2Msg, n: usize| -> (u64, u64) {
        let h0 = heap::mark();
        let inp = input(m);
        let s0 = sched::steps() + simcore::moved::bytes() / 16;
        sched::budget(2_000_000_000);
        let r = sut("take a cloud apart", move || {
            let it = PointCloudIterator::<N, P>::try_from(inp).ok()?;
            let mut kept = Vec::with_capacity(n + 1);
            let mut todo = vec![it];
            let mut count = 0usize;
            while let Some(mut p) = todo.pop() {
                let k = Iterator::size_hint(&p).0;
                if k <= 1 {
                    if !keep {
                        count += usize::from(Iterator::next(&mut p).is_some());
                        drop(p);
                    } else {
                        kept.push(p);
                    }
                    continue;
                }
                let (x, y) = p.split_at(match shape {
                    0 => 1,
                    1 => k - 1,
                    2 => k / 2,
                    _ => 1 + k / 3,
                });
                todo.push(y);
                todo.push(x);
            }
            for p in kept.iter_mut() {
                count += usize::from(Iterator::next(p).is_some());
            }
            drop(kept);
            Some(count)
        });
        sched::no_budget();
        match r {
            Ok(Some(c)) if c == n => {}
            r => fail("cost:splits", &format!("{n} points of {} taken apart: {r:?} points are handed out", P::NAME)),
        }
        let h1 = heap::stats();
        if h1.live_n > h0.live_n {
            fail("cost:leak", &format!("{n} points of {} taken apart leave {} blocks", P::NAME, h1.live_n as i64 - h0.live_n as i64));
        }
        (sched::steps() + simcore::moved::bytes() / 16 - s0, h1.total_b - h0.total_b)
    };
    let _ = run(&a, small);
    let x = run(&a, small);
    let y = run(&b, small * factor);
    log!("steps and bytes: {x:?}, {factor} times as many points: {y:?}");
    let ctx = || format!("{small} points of {} taken apart by splitting: {x:?} steps and bytes, {factor} times as many: {y:?}", P::NAME);
    if y.0 > x.0 * (factor as u64 * 5 / 2) + 300_000 {
        fail("cost:steps", &format!("the effort grows faster than the cloud: {}", ctx()));
    }
    if y.1 > x.1 * (factor as u64 * 2) + 64 * 1024 {
        fail("cost:split-memory", &format!("the memory grows faster than the cloud: {}", ctx()));
    }
}
#[derive(Clone, Copy, Debug)]
struct Cost {
    steps: u64,
    bytes: u64,
    peak: u64,
    blocks: u64,
    splits: u64,
}
fn measured<const N: usize, P: SimPoint<N>>(op: u64, i: &Input<N>) -> Cost {
    let h0 = heap::mark();
    let s0 = sched::steps() + simcore::moved::bytes() / 16;
    let x0 = splits();
    sched::budget(2_000_000_000);
    let r = perform::<N, P>(op, i);
    sched::no_budget();
    if let Err(s) = r {
        fail("cost:panic", &format!("{} of {} points of {}: {s:?}", op_name(op), i.pts.len(), P::NAME));
    }
    let h1 = heap::stats();
    Cost {
        // a block move counts by its bytes
        steps: sched::steps() + simcore::moved::bytes() / 16 - s0,
        bytes: h1.total_b - h0.total_b,
        peak: h1.peak_b.saturating_sub(h0.live_b),
        blocks: h1.total_n - h0.total_n,
        splits: splits() - x0,
    }
}
/// How often work was divided (joins of the simulated pool).
fn splits() -> u64 {
    #[cfg(feature = "par")]
    {
        rayon_core::sim_joins()
    }
    #[cfg(not(feature = "par"))]
    0
}
/// The same operation on a cloud and on one eight times as large: at most proportional effort.
fn costs<const N: usize, P: SimPoint<N>>() {
    let op = loop {
        let o = plan(N_OPS - 1);
        if o != 11 {
            break o;
        }
    };
    let small = 60 + 4 * plan(if N > 8 { 15 } else { 60 }) as usize;
    let factor = 8;
    heap::configure(2, plan(7), false);
    let v = draw_values();
    let s = if pchance(1, 2) { native_schema::<N, P>().unwrap_or_else(c_schema::<N, P>) } else { draw_schema::<N, P>(false) };
    let rows = [1, 1, 4, small][plan(3) as usize];
    // the description may grow along with the points
    let described = if pchance(1, 3) { 20 + plan(60) as usize } else { 0 };
    let lead = plan(2) as usize;
    if described > 0 {
        shared::probe("cost: the description grows as well");
    }
    let make = |n: usize| {
        let pts = points_of::<N, P>(n, v);
        let rows = if rows == small { n } else { rows };
        let mut s = s.clone();
        let more = described * (n / small);
        for x in 0..more {
            let at = [0, s.fields.len() / 2, s.fields.len()][lead];
            s.fields.insert(at, SField { name: format!("channel_{x}"), dt: 2, offset: 0, count: 0, src: None });
        }
        Input { m: encode(&pts, &s, (n / rows) as u32, rows as u32), k: n / 2, k2: 3, pts }
    };
    let (a, b) = (make(small), make(small * factor));
    log!("{} for {small} and {} points of {}: {}", op_name(op), small * factor, P::NAME, describe(&b.m));
    nontrivial();
    let body = move || {
        // once to warm up whatever is set up lazily
        let _ = measured::<N, P>(op, &a);
        let x = measured::<N, P>(op, &a);
        let y = measured::<N, P>(op, &b);
        log!("small {x:?}, large {y:?}");
        let ctx = || format!("{} of {} points of {}: {x:?}, {factor} times as many: {y:?}", op_name(op), a.pts.len(), P::NAME);
        if y.steps > x.steps * (factor as u64 * 5 / 2) + 300_000 {
            fail("cost:steps", &format!("the effort grows faster than the cloud: {}", ctx()));
        }
        let splits = |c: &Cost| c.splits * (600 + 120 * N as u64 + 2 * spelt::<N, P>()) + 64 * 1024;
        if y.bytes > x.bytes * factor as u64 * 5 / 2 + splits(&y) || y.peak > x.peak * factor as u64 * 5 / 2 + splits(&y) {
            fail("cost:memory", &format!("the memory grows faster than the cloud: {}", ctx()));
        }
        let size = std::mem::size_of::<P>() as u64;
        for (c, i) in [(x, &a), (y, &b)] {
            let n = i.pts.len() as u64;
            let payload = i.m.data.len() as u64 + n * (size + 8 + 16 * N as u64);
            let per_split = 600 + 120 * N as u64 + 2 * spelt::<N, P>();
            if c.bytes > 24 * payload + c.splits * per_split + 64 * 1024 {
                fail("cost:memory", &format!("{} bytes allocated for {payload} bytes of message and points: {}", c.bytes, ctx()));
            }
            if c.peak > 12 * payload + c.splits * per_split + 64 * 1024 {
                fail("cost:peak", &format!("{} bytes in use at once for {payload} bytes of message and points: {}", c.peak, ctx()));
            }
        }
    };
    #[cfg(feature = "par")]
    if op >= FIRST_PAR {
        draw_pool();
        return scheduled(false, body);
    }
    let _ = FIRST_PAR;
    body()
}
/// Messages that claim more than they are.
fn forged<const N: usize, P: SimPoint<N>>() {
    let mut i = draw_input::<N, P>(200);
    let k = 1 + plan(1);
    for _ in 0..k {
        damage(&mut i.m);
    }
    if pchance(1, 2) {
        let nasty = [u32::MAX, 1 << 31, 1 << 16, 0x7FFF_FFFF, 1 << 24, 65_537];
        i.m.dimensions.width = nasty[fdraw(5) as usize];
        if fchance(1, 2) {
            i.m.dimensions.height = nasty[fdraw(5) as usize];
        }
        if fchance(1, 2) {
            i.m.point_step = [0u32, 1, 2, 1 << 16, u32::MAX, 16][fdraw(5) as usize];
        }
        shared::probe("fault:dimensions forged");
    }
    log!("{} reads {}", P::NAME, describe(&i.m));
    nontrivial();
    let path = PATHS[plan(PATHS.len() as u64 - 1) as usize];
    #[cfg(feature = "par")]
    let pooled = pchance(1, 4);
    let body = move || {
        // what is set up once and kept does not count
        warm::<N, P>(path);
        let h0 = heap::mark();
        let s0 = sched::steps();
        let x0 = splits();
        if sched::on() {
            sched::budget(8 * step_bound(i.m.data.len(), i.m.data.len(), i.m.fields.len(), N));
        }
        let r = read::<N, P>(path, &i.m);
        sched::no_budget();
        let h1 = heap::stats();
        let points = match &r {
            Out::Ok(v) => v.len() as u64,
            _ => 0,
        };
        let names: u64 = i.m.fields.iter().map(|f| f.name.len() as u64 + 40).sum();
        let payload = i.m.data.len() as u64 + names + points * (std::mem::size_of::<P>() as u64 + 16 * N as u64);
        let allowed = 24 * payload + 64 * 1024 + (splits() - x0) * (600 + 120 * N as u64 + 2 * spelt::<N, P>()) + 200 * N as u64;
        let used = h1.total_b - h0.total_b;
        if used > allowed || h1.refused > h0.refused {
            fail("cost:forged", &format!("{path:?} of {} by {} allocates {used} bytes ({} requests refused)", describe(&i.m), P::NAME, h1.refused - h0.refused));
        }
        if h1.live_n > h0.live_n && keeps_growing(|| drop(read::<N, P>(path, &i.m))) {
            fail("cost:leak", &format!("{path:?} of {} by {} leaves {} blocks", describe(&i.m), P::NAME, h1.live_n as i64 - h0.live_n as i64));
        }
        let _ = s0;
    };
    #[cfg(feature = "par")]
    if pooled {
        draw_pool();
        return scheduled(pchance(1, 3), body);
    }
    body()
}
fn warm<const N: usize, P: SimPoint<N>>(path: Path) {
    let pts = points_of::<N, P>(2, Values { mode: 0, salt: 0 });
    let m = encode(&pts, &c_schema::<N, P>(), 2, 1);
    let _ = read::<N, P>(path, &m);
}
/// Bytes of the names of a point.
fn spelt<const N: usize, P: SimPoint<N>>() -> u64 {
    P::SPEC.iter().map(|s| s.0.len() as u64).sum()
}
/// Deep and broad trees of splits, and reads past the end.
fn many_splits<const N: usize, P: SimPoint<N>>() {
    let n = 20 + cap::<N>(draw_size(if N > 8 { 120 } else { 800 }, false));
    let (m, pts) = draw_message::<N, P>(n);
    heap::configure(2, plan(7), false);
    let shape = plan(3);
    let mut depth = 10 + plan(120) as usize;
    if !cfg!(feature = "par") {
        // without shared data every part is a copy
        depth = depth.min((100 << 20) / m.data.len().max(1)).max(3);
    }
    log!("{n} points of {}, {depth} splits, shape {shape}: {}", P::NAME, describe(&m));
    nontrivial();
    warm::<N, P>(Path::Iter);
    let h0 = heap::mark();
    let inp = input(&m);
    sched::budget(40_000_000 + 8 * step_bound(m.data.len(), n, m.fields.len(), N));
    let split_b = std::sync::atomic::AtomicU64::new(0);
    let sb = &split_b;
    let r = sut("split many times", move || {
        let it = match PointCloudIterator::<N, P>::try_from(inp) {
            Ok(it) => it,
            Err(_) => return None,
        };
        let mut parts = vec![it];
        let mut done = 0usize;
        let mut count = 0usize;
        while done < depth {
            done += 1;
            let at = match shape {
                0 => parts.len() - 1,
                1 => 0,
                2 => done * 7 % parts.len(),
                _ => parts.len() / 2,
            };
            let p = parts.remove(at);
            let k = Iterator::size_hint(&p).0;
            let cut = match shape {
                0 => k.min(1),
                1 => k - k.min(1),
                _ => k / 2,
            };
            let (a, b) = p.split_at(cut);
            parts.insert(at, b);
            parts.insert(at, a);
        }
        sb.store(heap::stats().total_b, std::sync::atomic::Ordering::Relaxed);
        for p in &mut parts {
            while let Some(x) = Iterator::next(p) {
                count += 1;
                drop(x);
            }
            for _ in 0..3 {
                if Iterator::next(p).is_some() {
                    count += 1_000_000;
                }
            }
        }
        drop(parts);
        Some(count)
    });
    sched::no_budget();
    match r {
        Ok(Some(c)) if c == pts.len() => {}
        Ok(c) => fail("cost:splits", &format!("{depth} splits of {n} points of {}: {c:?} points are handed out", P::NAME)),
        Err(s) => fail("cost:panic", &format!("{depth} splits of {n} points of {}: {s:?}", P::NAME)),
    }
    let h1 = heap::stats();
    if cfg!(feature = "par") {
        let payload = m.data.len() as u64 + 64 * 1024;
        // a part costs its description, not its points
        let allowed = 4 * payload + depth as u64 * (1200 + 240 * N as u64 + 600 * 2 + 4 * spelt::<N, P>());
        let used = split_b.into_inner().saturating_sub(h0.total_b);
        if used > allowed {
            fail("cost:split-memory", &format!("{depth} splits of {n} points of {} ({} bytes) allocate {used} bytes", P::NAME, m.data.len()));
        }
        // reading the parts costs points, however many parts there are
        let used = h1.total_b - h0.total_b;
        let allowed = allowed + 24 * (m.data.len() as u64 + n as u64 * N as u64 * 16);
        if used > allowed {
            fail("cost:memory", &format!("{depth} splits of {n} points of {} ({} bytes) and reading the parts allocate {used} bytes", P::NAME, m.data.len()));
        }
    }
    if h1.live_n > h0.live_n {
        fail("cost:leak", &format!("{depth} splits of {n} points of {} leave {} blocks", P::NAME, h1.live_n as i64 - h0.live_n as i64));
    }
}
