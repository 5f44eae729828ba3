//! C01, C02, C13: parallel reads and writes under simulated pools and schedules.
use crate::common::*;
use crate::model::{decode_strict, Bits};
use crate::types::*;
use rayon::iter::plumbing::*;
use rayon::iter::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use simcore::heap::{self, harness};
use simcore::rng::mix2;
use simcore::run::{fail, sut_ok};
use simcore::{log, shared};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

const MAX: u64 = 700;

/// One number per point, so that all pipelines produce lists of numbers.
fn h<const N: usize>(b: &Bits<N>) -> u64 {
    let mut a = 0xcbf2_9ce4_8422_2325u64;
    for v in b {
        a = mix2(a, *v);
    }
    a
}
fn hp<const N: usize, P: SimPoint<N>>(p: P) -> u64 {
    let x = h(&p.bits());
    call(Cb::Consumer);
    x
}

fn seq<const N: usize, P: SimPoint<N>>(m: &PointCloud2Msg, n: usize) -> Vec<Bits<N>> {
    match read::<N, P>(Path::Iter, m) {
        Out::Ok(v) => {
            if v.len() != n {
                log!("the sequential read itself hands out {} points", v.len());
            }
            v
        }
        Out::Err { kind, .. } => fail("par:refused", &format!("sequential read of an intact message: {kind}; {}", describe(m))),
        Out::Stop(s) => fail("par:panic", &format!("sequential read: {s:?}")),
    }
}

fn check_list(class: &str, what: &str, got: &[u64], want: &[u64]) {
    if got == want {
        return;
    }
    let d = if got.len() != want.len() {
        format!("{} results instead of {}", got.len(), want.len())
    } else {
        let i = (0..got.len()).find(|i| got[*i] != want[*i]).unwrap_or(0);
        let at = want.iter().position(|x| *x == got[i]);
        format!("result {i} is wrong: it belongs to {at:?}")
    };
    fail(class, &format!("{what}: {d}"));
}
fn check_multi(class: &str, what: &str, mut got: Vec<u64>, mut want: Vec<u64>) {
    got.sort();
    want.sort();
    check_list(class, what, &got, &want);
}

pub fn c01() {
    draw_heap();
    draw_pool();
    if pchance(2, 5) {
        let t = plan(N_TYPES as u64 - 1);
        earlier(t);
        for_type!(t, plain_par());
    } else {
        let t = plan(N_FEW as u64 - 1);
        earlier(FEW[t as usize]);
        for_few!(t, rich_par());
    }
}

/// All types, the ordinary way to read in parallel.
fn plain_par<const N: usize, P: SimPoint<N>>() {
    let n = cap::<N>(draw_size(if N > 8 { 200 } else { MAX }, N <= 5));
    let (m, _) = draw_message::<N, P>(n);
    log!("{n} points of {}: {}", P::NAME, describe(&m));
    let want = seq::<N, P>(&m, n);
    let path = [Path::Par, Path::ParIndexed][plan(1) as usize];
    let pre = pchance(1, 2);
    if n > 1 {
        nontrivial();
    }
    scheduled_anywhere(pre, move || {
        CALLS_FROM.store(0, Relaxed);
        let got = match read::<N, P>(path, &m) {
            Out::Ok(v) => v,
            o => fail("par:refused", &format!("{path:?} of {}: {o:?}", describe(&m))),
        };
        if got != want {
            fail("par:points", &format!("{path:?} of {} {}: {}", n, P::NAME, first_diff(&got, &want)));
        }
        if got.len() != n {
            fail("par:count", &format!("{path:?} hands out {} of {n} points", got.len()));
        }
        conversions::<N, P>(n, 1);
        heap::check_all();
    });
}
/// Types with user conversions count them: every point is converted exactly `k` times.
fn conversions<const N: usize, P: SimPoint<N>>(n: usize, k: usize) {
    if P::NAME == "Far" || P::NAME == "Led" {
        let c = CALLS_FROM.load(Relaxed) as usize;
        if c != n * k {
            fail("par:conversions", &format!("{c} conversions for {n} points"));
        }
        shared::probe("conversions counted");
    }
}

struct Chop<'a> {
    parts: &'a Mutex<Vec<u64>>,
    salt: u64,
}
/// Splits anywhere (also at 0 and at the end), reads parts from either end.
impl<'a, T: Send> ProducerCallback<T> for Chop<'a>
where
    T: Into<u64>,
{
    type Output = ();
    fn callback<Pr: Producer<Item = T>>(self, p: Pr) {
        let total = self.salt as usize >> 32;
        go(p, total, self.salt as u32 as u64, self.parts);
        fn go<T: Send + Into<u64>, Pr: Producer<Item = T>>(p: Pr, len: usize, salt: u64, out: &Mutex<Vec<u64>>) {
            let r = mix2(salt, len as u64);
            if len > 0 && r % 4 != 0 || len > 40 {
                let at = match r >> 8 & 7 {
                    0 => 0,
                    1 => len,
                    _ => (r >> 16) as usize % (len + 1),
                };
                if !(at == 0 || at == len) || r >> 40 & 1 == 0 {
                    let (a, b) = p.split_at(at);
                    let mut lo = Vec::new();
                    let mut hi = Vec::new();
                    let (la, lb) = (Mutex::new(std::mem::take(&mut lo)), Mutex::new(std::mem::take(&mut hi)));
                    rayon::join(|| go(a, at, r, &la), || go(b, len - at, r ^ 77, &lb));
                    harness(|| {
                        let mut o = out.lock().unwrap();
                        o.extend(la.into_inner().unwrap());
                        o.extend(lb.into_inner().unwrap());
                    });
                    return;
                }
            }
            let mut it = p.into_iter();
            let mut v: Vec<u64> = Vec::new();
            if r >> 50 & 1 == 0 {
                while let Some(x) = it.next() {
                    v.push(x.into());
                }
            } else {
                let mut back = Vec::new();
                let mut k = r;
                loop {
                    k = mix2(k, 1);
                    if k & 1 == 0 {
                        match it.next() {
                            Some(x) => v.push(x.into()),
                            None => break,
                        }
                    } else {
                        match it.next_back() {
                            Some(x) => back.push(x.into()),
                            None => break,
                        }
                    }
                }
                v.extend(back.into_iter().rev());
            }
            harness(|| out.lock().unwrap().extend(v));
        }
    }
}

fn rich_par<const N: usize, P: SimPoint<N>>() {
    let n = cap::<N>(draw_size(MAX, false));
    let (m, _) = draw_message::<N, P>(n);
    let kind = plan(27);
    let k = plan((n as u64).max(8)) as usize;
    let k2 = plan(n as u64 + 2) as usize;
    let eaten = pchance(1, 4);
    log!("{n} points of {}, pipeline {kind} ({k}, {k2}): {}", P::NAME, describe(&m));
    let all = seq::<N, P>(&m, n);
    if all.len() != n {
        fail("par:count", &format!("{} of {n} points are handed out", all.len()));
    }
    let pre = pchance(1, 2);
    if n > 1 {
        nontrivial();
    }
    scheduled_anywhere(pre, move || {
        let inp = input(&m);
        let inp2 = input(&m);
        let want: Vec<u64> = all.iter().map(|b| h(b)).collect();
        CALLS_FROM.store(0, Relaxed);
        // partly consumed before it goes parallel, or as it is
        let (front, back) = if kind >= 24 || (eaten && !matches!(kind, 5 | 12)) { {
            let (a, b) = if eaten { (k % 4, k2 % 4) } else { (k, k2) };
            (a.min(n), b.min(n - a.min(n)))
        } } else { (0, 0) };
        let it = sut_ok("par:panic", "open a parallel iterator", move || {
            let mut it = PointCloudIterator::<N, P>::try_from(inp).ok()?;
            for _ in 0..front {
                let _ = Iterator::next(&mut it);
            }
            for _ in 0..back {
                let _ = DoubleEndedIterator::next_back(&mut it);
            }
            Some(it)
        });
        let it = match it {
            Some(it) => it,
            None => fail("par:refused", &format!("an intact message is refused: {}", describe(&m))),
        };
        let want: Vec<u64> = want[front..n - back].to_vec();
        CALLS_FROM.store(0, Relaxed);
        let n = want.len();
        let it2 = if matches!(kind, 5 | 12) {
            sut_ok("par:panic", "open a parallel iterator", move || PointCloudIterator::<N, P>::try_from(inp2).ok())
        } else {
            drop(inp2);
            None
        };
        let c = "par:points";
        let ph = "parallel pipeline";
        macro_rules! on {
            ($e:expr) => {
                sut_ok("par:panic", ph, || $e)
            };
        }
        let src = ParallelIterator::map(it, hp::<N, P>);
        match kind {
            0 => check_list(c, "map collect", &on!(src.collect::<Vec<u64>>()), &want),
            1 => {
                let v = on!({
                    let mut v = vec![1, 2, 3];
                    src.collect_into_vec(&mut v);
                    v
                });
                check_list(c, "collect_into_vec", &v, &want)
            }
            2 => {
                let w: Vec<u64> = want.iter().rev().copied().collect();
                check_list(c, "rev", &on!(src.rev().collect::<Vec<_>>()), &w)
            }
            3 => {
                let v = on!(src.enumerate().map(|(i, x)| mix2(i as u64, x)).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().enumerate().map(|(i, x)| mix2(i as u64, *x)).collect();
                check_list(c, "enumerate", &v, &w)
            }
            4 => {
                let v = on!(src.zip(0..k).map(|(x, i)| mix2(i as u64, x)).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().zip(0..k as u64).map(|(x, i)| mix2(i, *x)).collect();
                check_list(c, "zip with a range", &v, &w)
            }
            5 => {
                let src2 = ParallelIterator::map(it2.expect("second"), hp::<N, P>);
                let v = on!(src.zip(src2.rev()).map(|(x, y)| mix2(x, y)).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().zip(want.iter().rev()).map(|(x, y)| mix2(*x, *y)).collect();
                check_list(c, "zip with the reverse", &v, &w)
            }
            6 => {
                let v = on!(src.skip(k).take(k2).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().copied().skip(k).take(k2).collect();
                check_list(c, "skip take", &v, &w)
            }
            7 => {
                let z = 1 + k % 17;
                let v = on!(src.chunks(z).map(|c| c.iter().fold(c.len() as u64, |a, x| mix2(a, *x))).collect::<Vec<_>>());
                let w: Vec<u64> = want.chunks(z).map(|c| c.iter().fold(c.len() as u64, |a, x| mix2(a, *x))).collect();
                check_list(c, "chunks", &v, &w)
            }
            8 => {
                let z = 1 + k % 9;
                let v = on!(src.step_by(z).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().copied().step_by(z).collect();
                check_list(c, "step_by", &v, &w)
            }
            9 => {
                let v = on!(src.filter(|x| x % 3 != 0).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().copied().filter(|x| x % 3 != 0).collect();
                check_list(c, "filter", &v, &w)
            }
            10 => {
                let v = on!(src.flat_map_iter(|x| (0..x % 3).map(move |i| mix2(x, i))).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().flat_map(|x| { let x = *x; (0..x % 3).map(move |i| mix2(x, i)) }).collect();
                check_list(c, "flat_map_iter", &v, &w)
            }
            11 => {
                let v = on!(src.fold(|| (0u64, 0u64), |(c, s), x| (c + 1, s.wrapping_add(x))).reduce(|| (0, 0), |a, b| (a.0 + b.0, a.1.wrapping_add(b.1))));
                let w = want.iter().fold((0u64, 0u64), |(c, s), x| (c + 1, s.wrapping_add(*x)));
                if v != w {
                    fail(c, &format!("fold reduce saw {} of {} points", v.0, w.0));
                }
            }
            12 => {
                let src2 = ParallelIterator::map(it2.expect("second"), hp::<N, P>);
                let v = on!(src.interleave(src2.rev()).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().zip(want.iter().rev()).flat_map(|(a, b)| [*a, *b]).collect();
                check_list(c, "interleave", &v, &w)
            }
            13 => {
                let v = on!(src.with_min_len(1 + k % 7).with_max_len(1 + k % 13).collect::<Vec<_>>());
                check_list(c, "with_max_len", &v, &want)
            }
            14 => {
                let (a, b) = on!(src.partition::<Vec<_>, Vec<_>, _>(|x| x % 2 == 0));
                let (wa, wb): (Vec<u64>, Vec<u64>) = want.iter().copied().partition(|x| x % 2 == 0);
                check_list(c, "partition", &a, &wa);
                check_list(c, "partition", &b, &wb);
            }
            15 => {
                let (a, b): (Vec<u64>, Vec<u64>) = on!(src.map(|x| (x, !x)).unzip());
                check_list(c, "unzip", &a, &want);
                let w: Vec<u64> = want.iter().map(|x| !x).collect();
                check_list(c, "unzip", &b, &w);
            }
            16 => {
                // the plumbing itself: any split tree
                let out = Mutex::new(Vec::new());
                let salt = (n as u64) << 32 | (k as u64 * 131 + k2 as u64) & 0xFFFF_FFFF;
                on!(src.with_producer(Chop { parts: &out, salt }));
                check_list(c, "arbitrary splits", &out.into_inner().unwrap(), &want)
            }
            17 => {
                let v = on!(src.chain(rayon::iter::repeatn(7u64, k % 5)).rev().collect::<Vec<_>>());
                let mut w = want.clone();
                w.extend(std::iter::repeat(7).take(k % 5));
                w.reverse();
                check_list(c, "chain rev", &v, &w)
            }
            18 => {
                let v = on!(src.count());
                if v != n {
                    fail("par:count", &format!("count {v} of {n} points"));
                }
            }
            19 => {
                let out = Mutex::new(Vec::new());
                on!(src.for_each(|x| harness(|| out.lock().unwrap().push(x))));
                check_multi(c, "for_each", out.into_inner().unwrap(), want.clone())
            }
            20 => {
                let v = on!(src.enumerate().max_by_key(|(i, x)| (*x, *i)));
                let w = want.iter().copied().enumerate().max_by_key(|(i, x)| (*x, *i));
                if v != w {
                    fail(c, &format!("max_by_key {v:?} instead of {w:?}"));
                }
            }
            21 => {
                let other = want.clone();
                let e = on!(src.eq(other.into_par_iter()));
                if !e {
                    fail(c, "eq: the parallel and the sequential points differ");
                }
            }
            22 => {
                let v = on!(src.rev().enumerate().rev().map(|(i, x)| mix2(i as u64, x)).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().enumerate().map(|(i, x)| mix2((n - 1 - i) as u64, *x)).collect();
                check_list(c, "rev enumerate rev", &v, &w)
            }
            23 => {
                let v = on!(src.fold_chunks(1 + k % 11, || 0u64, |a, x| mix2(a, x)).collect::<Vec<_>>());
                let w: Vec<u64> = want.chunks(1 + k % 11).map(|c| c.iter().fold(0u64, |a, x| mix2(a, *x))).collect();
                check_list(c, "fold_chunks", &v, &w)
            }
            24 => check_list(c, "partly consumed, collect", &on!(src.collect::<Vec<_>>()), &want),
            25 => {
                let v = on!(src.enumerate().rev().map(|(i, x)| mix2(i as u64, x)).collect::<Vec<_>>());
                let w: Vec<u64> = want.iter().enumerate().rev().map(|(i, x)| mix2(i as u64, *x)).collect();
                check_list(c, "partly consumed, enumerate rev", &v, &w)
            }
            26 => {
                let ol = src.opt_len();
                let v = on!(src.filter_map(|x| if x % 5 == 0 { None } else { Some(x) }).collect::<std::collections::LinkedList<_>>());
                let v: Vec<u64> = v.into_iter().collect();
                let w: Vec<u64> = want.iter().copied().filter(|x| x % 5 != 0).collect();
                check_list(c, "partly consumed, filter_map", &v, &w);
                if ol != Some(n) {
                    fail("par:count", &format!("opt_len {ol:?} of {n} points"));
                }
            }
            _ => {
                let e = on!(src.map_init(|| 0u64, |s, x| { *s = s.wrapping_add(x); x }).panic_fuse().collect_vec_list());
                let v: Vec<u64> = e.into_iter().flatten().collect();
                check_list(c, "map_init collect_vec_list", &v, &want)
            }
        }
        if matches!(kind, 0..=3 | 7 | 9 | 10 | 13..=16 | 18 | 19) {
            conversions::<N, P>(n, 1);
        }
        heap::check_all();
    });
}

// ---------------------------------------------------------------- C13

pub fn c13() {
    draw_heap();
    draw_pool();
    let t = plan(N_FEW as u64 - 1);
    earlier(FEW[t as usize]);
    for_few!(t, cut_short());
}
fn sub_multiset(what: &str, got: &[u64], all: &[u64]) {
    let mut a: Vec<u64> = all.to_vec();
    a.sort();
    let mut g: Vec<u64> = got.to_vec();
    g.sort();
    let mut i = 0;
    for x in &g {
        while i < a.len() && a[i] < *x {
            i += 1;
        }
        if i >= a.len() || a[i] != *x {
            fail("cut:invented", &format!("{what} returned a point that the cloud does not have (or not so often)"));
        }
        i += 1;
    }
}

/// A consumer that becomes full at a time of its own choosing.
struct Fickle<'a> {
    left: &'a AtomicUsize,
    out: &'a Mutex<Vec<u64>>,
}
impl<'a> Consumer<u64> for Fickle<'a> {
    type Folder = FickleFolder<'a>;
    type Reducer = NoopReducer;
    type Result = ();
    fn split_at(self, _: usize) -> (Self, Self, NoopReducer) {
        (Fickle { left: self.left, out: self.out }, self, NoopReducer)
    }
    fn into_folder(self) -> FickleFolder<'a> {
        FickleFolder { left: self.left, out: self.out }
    }
    fn full(&self) -> bool {
        self.left.load(Relaxed) == 0
    }
}
impl<'a> UnindexedConsumer<u64> for Fickle<'a> {
    fn split_off_left(&self) -> Self {
        Fickle { left: self.left, out: self.out }
    }
    fn to_reducer(&self) -> NoopReducer {
        NoopReducer
    }
}
struct NoopReducer;
impl Reducer<()> for NoopReducer {
    fn reduce(self, _: (), _: ()) {}
}
struct FickleFolder<'a> {
    left: &'a AtomicUsize,
    out: &'a Mutex<Vec<u64>>,
}
impl<'a> Folder<u64> for FickleFolder<'a> {
    type Result = ();
    fn consume(self, x: u64) -> Self {
        let l = self.left.load(Relaxed);
        self.left.store(l.saturating_sub(1), Relaxed);
        harness(|| self.out.lock().unwrap().push(x));
        self
    }
    fn complete(self) {}
    fn full(&self) -> bool {
        self.left.load(Relaxed) == 0
    }
}

fn cut_short<const N: usize, P: SimPoint<N>>() {
    let n = cap::<N>(draw_size(MAX, false));
    let (m, _) = draw_message::<N, P>(n);
    let kind = plan(23);
    let k = plan((n as u64).max(4)) as usize;
    // predicates that match often, rarely, once, or never
    let hits = pweighted(&[2, 3, 3, 2]);
    let salt = plan(1 << 20);
    log!("{n} points of {}, search {kind} ({k}, hits {hits}): {}", P::NAME, describe(&m));
    let all = seq::<N, P>(&m, n);
    if all.len() != n {
        fail("cut:count", &format!("{} of {n} points are handed out", all.len()));
    }
    let pre = pchance(1, 2);
    if n > 1 {
        nontrivial();
    }
    scheduled_anywhere(pre, move || {
        let inp = input(&m);
        let w: Vec<u64> = all.iter().map(|b| h(b)).collect();
        let target = if n > 0 { w[k % n] } else { 1 };
        let modulus = 2 + salt % 60;
        let pred = move |x: &u64| match hits {
            0 => false,
            1 => *x == target,
            2 => mix2(*x, salt) % modulus == 0,
            _ => mix2(*x, salt) % 2 == 0,
        };
        CALLS_FROM.store(0, Relaxed);
        let ph = "search in parallel";
        macro_rules! on {
            ($e:expr) => {
                sut_ok("cut:panic", ph, || $e)
            };
        }
        macro_rules! src {
            () => {{
                let it = on!(PointCloudIterator::<N, P>::try_from(inp).ok());
                match it {
                    Some(it) => ParallelIterator::map(it, hp::<N, P>),
                    None => fail("cut:refused", &format!("an intact message is refused: {}", describe(&m))),
                }
            }};
        }
        macro_rules! usrc {
            () => {{
                match on!(inp.try_into_par_iter::<N, P>()) {
                    Ok(it) => ParallelIterator::map(it, hp::<N, P>),
                    Err(_) => fail("cut:refused", &format!("an intact message is refused: {}", describe(&m))),
                }
            }};
        }
        let first = w.iter().position(pred_ref(&pred));
        let last = w.iter().rposition(pred_ref(&pred));
        let any = first.is_some();
        let eq = |what: &str, a: Option<u64>, b: Option<u64>| {
            if a != b {
                fail("cut:answer", &format!("{what}: wrong answer ({} instead of {})", where_is(a, &w), where_is(b, &w)));
            }
        };
        match kind {
            0 => {
                let g = on!(usrc!().find_any(&pred));
                match g {
                    Some(x) if pred(&x) => sub_multiset("find_any", &[x], &w),
                    Some(_) => fail("cut:answer", "find_any returned a point that does not match"),
                    None if any => fail("cut:answer", "find_any missed a match"),
                    None => {}
                }
            }
            1 => eq("find_first", on!(usrc!().find_first(&pred)), first.map(|i| w[i])),
            2 => eq("find_last", on!(usrc!().find_last(&pred)), last.map(|i| w[i])),
            3 => {
                let g = on!(src!().position_any(|x| pred(&x)));
                match g {
                    Some(i) if i < n && pred(&w[i]) => {}
                    Some(i) => fail("cut:answer", &format!("position_any returned {i}, which does not match")),
                    None if any => fail("cut:answer", "position_any missed a match"),
                    None => {}
                }
            }
            4 => {
                let g = on!(src!().position_first(|x| pred(&x)));
                if g != first {
                    fail("cut:answer", &format!("position_first {g:?} instead of {first:?}"));
                }
            }
            5 => {
                let g = on!(src!().position_last(|x| pred(&x)));
                if g != last {
                    fail("cut:answer", &format!("position_last {g:?} instead of {last:?}"));
                }
            }
            6 => {
                let g = on!(usrc!().any(|x| pred(&x)));
                if g != any {
                    fail("cut:answer", &format!("any says {g}"));
                }
            }
            7 => {
                let g = on!(usrc!().all(|x| !pred(&x)));
                if g == any {
                    fail("cut:answer", &format!("all says {g}"));
                }
            }
            8 => {
                let g = on!(usrc!().take_any(k).collect::<Vec<_>>());
                if g.len() != k.min(n) {
                    fail("cut:count", &format!("take_any({k}) of {n} returned {}", g.len()));
                }
                sub_multiset("take_any", &g, &w);
            }
            9 => {
                let g = on!(usrc!().take_any_while(|x| !pred(x)).collect::<Vec<_>>());
                if g.iter().any(&pred) {
                    fail("cut:answer", "take_any_while returned a point after its condition failed");
                }
                sub_multiset("take_any_while", &g, &w);
                if !any && g.len() != n {
                    fail("cut:count", &format!("take_any_while lost points: {} of {n}", g.len()));
                }
            }
            10 => {
                let g = on!(usrc!().skip_any(k).collect::<Vec<_>>());
                if g.len() != n - k.min(n) {
                    fail("cut:count", &format!("skip_any({k}) of {n} left {}", g.len()));
                }
                sub_multiset("skip_any", &g, &w);
            }
            11 => {
                let g = on!(usrc!().skip_any_while(|x| !pred(x)).collect::<Vec<_>>());
                sub_multiset("skip_any_while", &g, &w);
                let a = w.iter().filter(|x| pred(x)).count();
                let b = g.iter().filter(|x| pred(x)).count();
                if a != b {
                    fail("cut:count", &format!("skip_any_while kept {b} of {a} points that it must keep"));
                }
            }
            12 => {
                let g = on!(usrc!().try_for_each(|x| if pred(&x) { Err(x) } else { Ok(()) }));
                match g {
                    Ok(()) if any => fail("cut:answer", "try_for_each missed an error"),
                    Err(x) if !pred(&x) || !w.contains(&x) => fail("cut:answer", "try_for_each invented an error"),
                    _ => {}
                }
            }
            13 => {
                let g = on!(usrc!().map(|x| if pred(&x) { Err(x) } else { Ok(x) }).collect::<Result<Vec<_>, u64>>());
                match g {
                    Ok(_) if any => fail("cut:answer", "collect into Result missed an error"),
                    Ok(v) => check_list("cut:points", "collect into Result", &v, &w),
                    Err(x) if !pred(&x) || !w.contains(&x) => fail("cut:answer", "collect into Result invented an error"),
                    _ => {}
                }
            }
            14 => {
                let g = on!(usrc!().map(|x| if pred(&x) { None } else { Some(x) }).while_some().collect::<Vec<_>>());
                if g.iter().any(&pred) {
                    fail("cut:answer", "while_some returned a point it must not");
                }
                sub_multiset("while_some", &g, &w);
                if !any {
                    check_list("cut:points", "while_some without an end", &g, &w);
                }
            }
            15 => {
                let g = on!(usrc!().try_fold(|| 0u64, |a, x| if pred(&x) { None } else { Some(a + 1) }).try_reduce(|| 0, |a, b| Some(a + b)));
                let want = if any { None } else { Some(n as u64) };
                if g != want {
                    fail("cut:answer", &format!("try_fold {g:?} instead of {want:?}"));
                }
            }
            16 => {
                let g = on!(usrc!().find_map_first(|x| if pred(&x) { Some(!x) } else { None }));
                eq("find_map_first", g.map(|x| !x), first.map(|i| w[i]));
            }
            17 => {
                let g = on!(usrc!().find_map_last(|x| if pred(&x) { Some(!x) } else { None }));
                eq("find_map_last", g.map(|x| !x), last.map(|i| w[i]));
            }
            18 => {
                let g = on!(usrc!().find_map_any(|x| if pred(&x) { Some(!x) } else { None }));
                match g {
                    Some(x) if pred(&!x) && w.contains(&!x) => {}
                    Some(_) => fail("cut:answer", "find_map_any invented a match"),
                    None if any => fail("cut:answer", "find_map_any missed a match"),
                    None => {}
                }
            }
            19 => {
                let out = Mutex::new(Vec::new());
                let left = AtomicUsize::new(k);
                let s = src!();
                on!(s.drive(Fickle { left: &left, out: &out }));
                let g = out.into_inner().unwrap();
                sub_multiset("a consumer that becomes full", &g, &w);
                if g.len() < k.min(n) {
                    fail("cut:count", &format!("a consumer that wanted {k} of {n} points got {}", g.len()));
                }
            }
            20 => {
                let g = on!(src!().enumerate().find_last(|(_, x)| pred(x)));
                let want = last.map(|i| (i, w[i]));
                if g != want {
                    fail("cut:answer", &format!("enumerate find_last {:?} instead of {:?}", g.map(|x| x.0), last));
                }
            }
            21 => {
                // the end of the cloud searched from behind
                let g = on!(src!().rev().skip(k).position_first(|x| pred(&x)));
                let want = w.iter().rev().skip(k).position(pred_ref(&pred));
                if g != want {
                    fail("cut:answer", &format!("rev skip position_first {g:?} instead of {want:?}"));
                }
            }
            22 => {
                // take a prefix, then search in it
                let g = on!(src!().take(k).find_first(&pred));
                eq("take find_first", g, w.iter().take(k).copied().find(|x| pred(x)));
            }
            _ => {
                let g: Vec<usize> = on!(src!().positions(|x| pred(&x)).collect());
                let want: Vec<usize> = w.iter().enumerate().filter(|(_, x)| pred(x)).map(|(i, _)| i).collect();
                if g != want {
                    fail("cut:answer", &format!("positions: {} found, {} wanted", g.len(), want.len()));
                }
            }
        }
        if P::NAME == "Far" {
            let c = CALLS_FROM.load(Relaxed) as usize;
            if c > n {
                fail("cut:repeated", &format!("{c} conversions of {n} points"));
            }
        }
        heap::check_all();
    });
}
fn pred_ref<'a, F: Fn(&u64) -> bool + 'a>(f: &'a F) -> impl Fn(&u64) -> bool + 'a {
    move |x| f(x)
}
trait PosRef {
    fn rposition(&self, f: impl Fn(&u64) -> bool) -> Option<usize>;
}
impl PosRef for std::slice::Iter<'_, u64> {
    fn rposition(&self, f: impl Fn(&u64) -> bool) -> Option<usize> {
        let s = self.as_slice();
        (0..s.len()).rev().find(|i| f(&s[*i]))
    }
}
fn where_is(x: Option<u64>, w: &[u64]) -> String {
    match x {
        None => "none".into(),
        Some(x) => match w.iter().position(|y| *y == x) {
            Some(i) => format!("point {i}"),
            None => "no point of the cloud".into(),
        },
    }
}

// ---------------------------------------------------------------- C02

pub fn c02() {
    draw_heap();
    draw_pool();
    if pchance(2, 5) {
        let t = plan(N_TYPES as u64 - 1);
        earlier(t);
        for_type!(t, par_write_plain());
    } else {
        let t = plan(N_FEW as u64 - 1);
        earlier(FEW[t as usize]);
        for_few!(t, par_write());
    }
}

fn same_message<const N: usize, P: SimPoint<N>>(par: PointCloud2Msg, want: &[Bits<N>], what: &str) {
    // the sequential writer of the same points, read by the definition
    let s = export(write_ok::<N, P>(Write::Vec, want));
    let p = export(par);
    if p.dimensions.width as u64 * p.dimensions.height as u64 != want.len() as u64 {
        fail("parwrite:count", &format!("{what}: {} x {} points instead of {}", p.dimensions.width, p.dimensions.height, want.len()));
    }
    let spec = P::SPEC;
    let a = decode_strict(&p, &spec);
    let b = decode_strict(&s, &spec);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b {
                fail("parwrite:points", &format!("{what} of {}: {}", P::NAME, first_diff(&a, &b)));
            }
        }
        (Err(e), Ok(_)) => fail("parwrite:message", &format!("{what} of {}: {e}; {}", P::NAME, describe(&p))),
        // a writer that is wrong in every path is another property
        _ => {}
    }
    if p.fields.len() != s.fields.len() || p.fields.iter().zip(&s.fields).any(|(a, b)| a.name != b.name || a.datatype != b.datatype || a.count != b.count) {
        fail("parwrite:message", &format!("{what} of {}: other fields than the sequential writer", P::NAME));
    }
}

fn par_write_plain<const N: usize, P: SimPoint<N>>() {
    let n = cap::<N>(draw_size(MAX, true));
    let pts = draw_points::<N, P>(n);
    log!("write {n} points of {} in parallel", P::NAME);
    let pre = pchance(1, 2);
    if n > 1 {
        nontrivial();
    }
    scheduled_anywhere(pre, move || {
        let m = write_ok::<N, P>(Write::Par, &pts);
        same_message::<N, P>(m, &pts, "a parallel write");
        heap::check_all();
    });
}

/// Which of `n` points a filter keeps when it keeps whole clusters of them and here and there one alone.
fn clusters(n: usize) -> Vec<bool> {
    let mut k = vec![false; n];
    let mut i = 0;
    while i < n {
        let rest = (n - i) as u64;
        let len = 1 + match plan(3) {
            0 => plan(3).min(rest - 1),
            1 => plan(rest.min(100) - 1),
            _ => plan(rest - 1),
        } as usize;
        match plan(3) {
            0 => {}
            1 => k[i..i + len].fill(true),
            2 => k[i + plan(len as u64 - 1) as usize] = true,
            _ => {
                for j in 0..1 + plan(3) as usize {
                    k[i + (j * 37) % len] = true;
                }
            }
        }
        i += len;
    }
    k
}

fn par_write<const N: usize, P: SimPoint<N>>() {
    let kind = plan(18);
    // what a filter keeps is seldom spread evenly: a cluster needs room
    let n = cap::<N>(if kind > 15 && pchance(1, 2) { 1 + plan(6000) as usize } else { draw_size(MAX, false) });
    let pts = draw_points::<N, P>(n);
    let kept = if kind > 15 { clusters(n) } else { vec![] };
    let k = plan((n as u64).max(6)) as usize;
    log!("write {n} points of {} from source {kind} ({k})", P::NAME);
    let pre = pchance(1, 2);
    if n > 1 {
        nontrivial();
    }
    scheduled_anywhere(pre, move || {
        let src: Vec<P> = make_vec(&pts);
        let idx: Vec<Bits<N>> = pts.clone();
        let keep = |b: &Bits<N>| h(b) % 3 != 0;
        type R = Result<PointCloud2Msg, MsgConversionError>;
        let sp = &pts;
        let kp = &kept;
        let some = |b: Vec<Bits<N>>| -> Vec<Bits<N>> { b.into_iter().enumerate().filter(|(i, _)| kp[*i]).map(|(_, b)| b).collect() };
        let (r, want): (R, Vec<Bits<N>>) = {
            macro_rules! on {
                ($e:expr) => {
                    sut_ok("parwrite:panic", "write in parallel", || PointCloud2Msg::try_from_par_iter($e))
                };
            }
            match kind {
                0 => (on!(src.into_par_iter()), idx),
                1 => (on!((0..n).into_par_iter().map(|i| P::make(sp[i]))), idx),
                2 => (on!(src.into_par_iter().filter(|p| keep(&p.bits()))), idx.into_iter().filter(|b| keep(b)).collect()),
                3 => (
                    on!(src.into_par_iter().flat_map_iter(|p| {
                        let b = p.bits();
                        (0..h(&b) % 3).map(move |_| P::make(b))
                    })),
                    idx.into_iter().flat_map(|b| (0..h(&b) % 3).map(move |_| b)).collect(),
                ),
                4 => {
                    let second = make_vec::<N, P>(&pts);
                    let mut w = idx.clone();
                    w.extend(&idx);
                    (on!(src.into_par_iter().chain(second)), w)
                }
                5 => (on!(src.into_par_iter().rev()), idx.into_iter().rev().collect()),
                6 => (on!(src.into_par_iter().zip(0..k).map(|(p, _)| p)), idx.into_iter().take(k).collect()),
                7 => (on!(src.into_par_iter().skip(k % 7).step_by(1 + k % 4)), idx.into_iter().skip(k % 7).step_by(1 + k % 4).collect()),
                8 => (on!(src.into_par_iter().with_max_len(1)), idx),
                9 => (on!(src.into_par_iter().chunks(1 + k % 6).flatten()), idx),
                10 => (on!(src.into_par_iter().fold(Vec::new, |mut v, p| { v.push(p); v }).flatten()), idx),
                11 => {
                    let vv: Vec<Vec<P>> = heap::tracked(|| {
                        let mut it = src.into_iter();
                        let mut vv = vec![];
                        let mut j = k;
                        loop {
                            let c: Vec<P> = it.by_ref().take(j % 9).collect();
                            if c.is_empty() && j % 9 != 0 {
                                break;
                            }
                            vv.push(c);
                            j += 5;
                        }
                        vv
                    });
                    (on!(vv.into_par_iter().flatten()), idx)
                }
                12 => {
                    // nested parallelism inside the source
                    (on!((0..n).into_par_iter().map(|i| {
                        let (a, b) = rayon::join(|| P::make(sp[i]), || h(&sp[i]));
                        if b == 0 { P::make(sp[i]) } else { a }
                    })), idx)
                }
                13 => {
                    // read, transform, write in one go
                    let m = write_ok::<N, P>(Write::Vec, &pts);
                    drop(src);
                    match sut_ok("parwrite:panic", "read in parallel", move || m.try_into_par_iter::<N, P>()) {
                        Ok(it) => (on!(it.filter(|p| keep(&p.bits()))), idx.into_iter().filter(|b| keep(b)).collect()),
                        Err(_) => fail("parwrite:refused", "the library refuses its own message"),
                    }
                }
                14 => (on!(src.into_par_iter().filter_map(|p| if keep(&p.bits()) { Some(p) } else { None }).chain(rayon::iter::empty())), idx.into_iter().filter(|b| keep(b)).collect()),
                16 => (on!(src.into_par_iter().enumerate().filter(|(i, _)| kp[*i]).map(|(_, p)| p)), some(idx)),
                17 => (on!((0..n).into_par_iter().flat_map_iter(|i| kp[i].then(|| P::make(sp[i])))), some(idx)),
                18 => {
                    // one task of the source makes a whole cluster, the next one nothing or one point
                    let mut runs: Vec<(usize, usize)> = vec![];
                    for i in 0..n {
                        if kp[i] {
                            match runs.last_mut() {
                                Some(r) if r.1 == i => r.1 = i + 1,
                                _ => runs.push((i, i + 1)),
                            }
                        }
                    }
                    (on!(runs.into_par_iter().flat_map_iter(|(a, b)| (a..b).map(|i| P::make(sp[i])))), some(idx))
                }
                _ => (on!(src.into_par_iter().interleave(rayon::iter::empty()).panic_fuse().map_with(0u32, |_, p| p)), idx),
            }
        };
        match r {
            Ok(m) => same_message::<N, P>(m, &want, "a parallel write"),
            Err(e) => fail("parwrite:refused", &format!("writing {} points failed: {}", want.len(), err_of(e).0)),
        }
        heap::check_all();
    });
}
