//! C09: writing from streams that end, resume, stall, lie about their length, call back into the
//! library, are fed by other threads, or break off.
use crate::common::*;
use crate::model::*;
use crate::types::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use simcore::heap::{self, harness};
use simcore::run::{self, fail, sut, Stop};
use simcore::{log, sched, shared};
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- a stream

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hint {
    Exact,
    Nothing,
    Short,
    WideUpper,
    /// true, and far above what will come
    HighUpper(u32),
    /// larger than the truth: breaks the rules for size hints, which must cost no safety
    TooLong(usize),
    UpperTooShort,
    Changing,
}
#[derive(Clone, Debug)]
struct Script {
    /// the stream says "no more" once in front of these elements, and goes on when asked again
    gaps: Vec<usize>,
    /// breaks off (panics) when asked for these elements the first time
    breaks: Vec<usize>,
    hint: Hint,
    stalls: bool,
    nest_every: u64,
}
/// What a stream has done so far, as seen by the harness.
#[derive(Default)]
struct Seen {
    at: usize,
    pulls: u64,
    gaps_done: usize,
    breaks_done: usize,
    /// elements handed out in this write before the stream first ended
    yielded: usize,
    ended: bool,
    after_end: u64,
    dropped: bool,
}
struct Src<const N: usize, P> {
    pts: Arc<Vec<Bits<N>>>,
    script: Arc<Script>,
    seen: Arc<Mutex<Seen>>,
    p: PhantomData<fn() -> P>,
}
impl<const N: usize, P> Drop for Src<N, P> {
    fn drop(&mut self) {
        harness(|| self.seen.lock().unwrap_or_else(|e| e.into_inner()).dropped = true);
    }
}
impl<const N: usize, P: SimPoint<N>> Src<N, P> {
    fn step(&mut self) -> Option<P> {
        let (s, b) = harness(|| {
            let mut s = self.seen.lock().unwrap();
            s.pulls += 1;
            if self.script.stalls && s.pulls % 3 == 0 {
                drop(s);
                sched::point();
                s = self.seen.lock().unwrap();
            }
            let nest = self.script.nest_every;
            if nest != 0 && s.pulls % nest == 0 {
                drop(s);
                nested();
                s = self.seen.lock().unwrap();
            }
            if self.script.breaks.get(s.breaks_done) == Some(&s.at) {
                s.breaks_done += 1;
                let n = s.pulls;
                return (Some(n), None);
            }
            if self.script.gaps.get(s.gaps_done) == Some(&s.at) {
                s.gaps_done += 1;
                s.ended = true;
                return (None, None);
            }
            if s.ended {
                s.after_end += 1;
            }
            let b = self.pts.get(s.at).copied();
            if b.is_some() {
                s.at += 1;
                if !s.ended {
                    s.yielded += 1;
                }
            } else {
                s.ended = true;
            }
            (None, b)
        });
        if let Some(n) = s {
            shared::probe("stream broke off");
            run::inject_panic(n);
        }
        b.map(P::make)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        harness(|| {
            let s = self.seen.lock().unwrap();
            // up to the next gap
            let end = self.script.gaps.get(s.gaps_done).copied().unwrap_or(self.pts.len());
            let left = end.saturating_sub(s.at);
            match self.script.hint {
                Hint::Exact => (left, Some(left)),
                Hint::Nothing => (0, None),
                Hint::Short => (left / 2, None),
                Hint::WideUpper => (0, Some(usize::MAX)),
                Hint::HighUpper(k) => (left / 2, Some(left + (1usize << k))),
                Hint::TooLong(k) => (left + k, Some(left + k)),
                Hint::UpperTooShort => (0, Some(left / 3)),
                Hint::Changing => (if s.pulls % 2 == 0 { left } else { 0 }, if s.pulls % 2 == 0 { None } else { Some(left + 7) }),
            }
        })
    }
}
impl<const N: usize, P: SimPoint<N>> Iterator for Src<N, P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        self.step()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint()
    }
}
/// The same stream with its own idea of internal iteration.
struct Own<const N: usize, P>(Src<N, P>);
impl<const N: usize, P: SimPoint<N>> Iterator for Own<N, P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        self.0.step()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
    fn fold<B, F: FnMut(B, P) -> B>(mut self, init: B, mut f: F) -> B {
        // two at a time
        let mut a = init;
        loop {
            let Some(x) = self.0.step() else { return a };
            let y = self.0.step();
            a = f(a, x);
            match y {
                Some(y) => a = f(a, y),
                None => return a,
            }
        }
    }
    fn nth(&mut self, n: usize) -> Option<P> {
        for _ in 0..n {
            self.0.step()?;
        }
        self.0.step()
    }
}
/// Starting the stream is work of its own.
struct Lazy<const N: usize, P>(Src<N, P>, bool);
impl<const N: usize, P: SimPoint<N>> IntoIterator for Lazy<N, P> {
    type Item = P;
    type IntoIter = Src<N, P>;
    fn into_iter(self) -> Src<N, P> {
        if self.1 {
            harness(nested);
        }
        self.0
    }
}

// ---------------------------------------------------------------- conversions inside a stream

static NESTED_OK: AtomicU64 = AtomicU64::new(0);
/// A whole read and write of other points, while a write is under way.
fn nested() {
    let k = NESTED_OK.fetch_add(1, Relaxed);
    if k > 300 {
        return;
    }
    shared::probe("library used inside a stream");
    let phase = run::phase_text();
    let v = Values { mode: 0, salt: k };
    let a = points_of::<3, ros_pointcloud2::points::PointXYZ>((k % 5) as usize, v);
    let b = points_of::<4, Tail>((k % 3) as usize, v);
    let m = match write::<3, ros_pointcloud2::points::PointXYZ>([Write::Vec, Write::IterVec][(k % 2) as usize], &a) {
        Ok(Ok(m)) => export(m),
        r => fail("stream:nested", &format!("a write inside a stream: {:?}", r.map(|r| r.err()))),
    };
    if decode_strict(&m, &ros_pointcloud2::points::PointXYZ::SPEC).ok() != Some(a.clone()) {
        fail("stream:nested", &format!("a write inside a stream gives {}", describe(&m)));
    }
    if Out::Ok(a) != read::<3, ros_pointcloud2::points::PointXYZ>(if k % 2 == 0 { Path::Vec } else { Path::Iter }, &m) {
        fail("stream:nested", "a read inside a stream gives other points");
    }
    match write::<4, Tail>(Write::IterMap, &b) {
        Ok(Ok(m)) => {
            let m = export(m);
            if decode_strict(&m, &Tail::SPEC).ok() != Some(b) {
                fail("stream:nested", &format!("a write inside a stream gives {}", describe(&m)));
            }
        }
        r => fail("stream:nested", &format!("a write inside a stream: {:?}", r.map(|r| r.err()))),
    }
    shared::phase(&phase);
}

fn warm_here<const N: usize, P: SimPoint<N>>() {
    warm_up::<3, ros_pointcloud2::points::PointXYZ>();
    warm_up::<4, Tail>();
    warm_up::<N, P>();
}

// ---------------------------------------------------------------- drawing

fn draw_script(n: usize, sizes: bool) -> Script {
    let mut gaps = vec![];
    if pchance(2, 5) {
        for _ in 0..=plan(2) {
            gaps.push(plan(n as u64) as usize);
        }
        gaps.sort();
    }
    let mut breaks = vec![];
    if fchance(2, 5) {
        for _ in 0..=fdraw(1) {
            breaks.push(fdraw(n as u64) as usize);
        }
        breaks.sort();
    }
    let hint = if !sizes {
        Hint::Exact
    } else {
        match pweighted(&[3, 2, 2, 1, 3, 2, 2, 3]) {
            0 => Hint::Exact,
            1 => Hint::Nothing,
            2 => Hint::Short,
            3 => Hint::WideUpper,
            4 => Hint::TooLong(1 + plan(999) as usize),
            5 => Hint::UpperTooShort,
            6 => Hint::Changing,
            _ => Hint::HighUpper(prange(8, 62) as u32),
        }
    };
    Script { gaps, breaks, hint, stalls: pchance(1, 3), nest_every: if pchance(1, 3) { 1 + plan(20) } else { 0 } }
}
fn faults_of(s: &Script) {
    match s.hint {
        Hint::TooLong(_) | Hint::UpperTooShort => shared::probe("fault:wrong size hint"),
        Hint::Exact => {}
        _ => shared::probe("stream: vague size hint"),
    }
    if !s.gaps.is_empty() {
        shared::probe("fault:stream ends and resumes");
    }
}

/// How a write takes from the stream.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Whole,
    Boxed,
    Borrowed,
    Take(usize),
    Own,
    Lazy,
    Peekable,
    Filter,
    StepBy(usize),
    Chain,
    FlatMap,
    FromFn,
    MapWhile(usize),
    Fuse,
    TakeRef(usize),
    Inspect,
}

fn text<const N: usize, P: SimPoint<N>>(n: usize, s: &Script) -> String {
    format!("stream of {n} points of {} {s:?}", P::NAME)
}

// ---------------------------------------------------------------- runs

pub fn c09() {
    draw_heap();
    let style = pweighted(&[6, 3, 2, 3]);
    match style {
        0 => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            let b: Box<dyn FnOnce() + Send> = for_type!(t, history());
            anywhere(b)
        }
        1 => {
            let t = plan(N_FEW as u64 - 1);
            earlier(FEW[t as usize]);
            let b: Box<dyn FnOnce() + Send> = for_few!(t, adapters());
            anywhere(b)
        }
        2 => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            let b: Box<dyn FnOnce() + Send> = for_type!(t, relay());
            anywhere(b)
        }
        _ => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            for_type!(t, fed())
        }
    }
    heap::check_all();
}
fn anywhere(b: Box<dyn FnOnce() + Send>) {
    match plan(2) {
        0 => b(),
        _ => {
            // with another stream written at the same time
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            let o: Box<dyn FnOnce() + Send> = for_type!(t, history());
            let c = draw_sched(true);
            sched::simulate(c, move || {
                sched::budget(400_000_000);
                let x = sched::spawn(b);
                let y = sched::spawn(o);
                x.join();
                y.join();
                sched::no_budget();
            })
        }
    }
}

fn ledger() -> i64 {
    LED_NEW.load(Relaxed) - LED_DROP.load(Relaxed)
}
/// Whether anything but this task uses the checked heap or the ledger.
fn alone() -> bool {
    !sched::on()
}
/// Judges the result of one write against what the stream handed out.
fn judge<const N: usize, P: SimPoint<N>>(
    r: Result<Result<PointCloud2Msg, MsgConversionError>, Stop>,
    want: &[Bits<N>],
    broke: bool,
    live0: u64,
    led0: i64,
    what: &dyn Fn() -> String,
) {
    match r {
        Ok(Ok(m)) => {
            if broke {
                fail("stream:swallowed", &format!("{}: the stream broke off, yet there is a message of {} points", what(), m.dimensions.width));
            }
            let m = export(m);
            match decode_strict(&m, &P::SPEC) {
                Ok(p) if p == want => {}
                Ok(p) => fail("stream:points", &format!("{}: {}", what(), first_diff(&p, want))),
                Err(e) => fail("stream:message", &format!("{}: {e}: {}", what(), describe(&m))),
            }
            if let Err(e) = well_formed(&m, &P::SPEC, want.len()) {
                fail("stream:message", &format!("{}: {e}", what()));
            }
        }
        Ok(Err(e)) => fail("stream:error", &format!("{}: {}", what(), err_of(e).0)),
        Err(Stop::Injected(_)) if broke => shared::probe("break reached the caller"),
        Err(s) => fail("stream:panic", &format!("{}: {s:?}", what())),
    }
    if alone() {
        let l = heap::stats().live_n;
        if l > live0 {
            fail("stream:leak", &format!("{}: {} blocks are left{}", what(), l as i64 - live0 as i64, if broke { " after it broke off" } else { "" }));
        }
        let d = ledger() - led0;
        if d != 0 {
            fail("stream:drops", &format!("{}: {d} points more constructed than dropped", what()));
        }
    }
}

/// One stream, written in several messages until it is exhausted.
fn history<const N: usize, P: SimPoint<N>>() -> Box<dyn FnOnce() + Send> {
    let n = cap::<N>(draw_size(if N > 8 { 60 } else { 200 }, N <= 4));
    let pts = Arc::new(draw_points::<N, P>(n));
    let script = draw_script(n, true);
    let writes: Vec<Form> = (0..=plan(3))
        .map(|_| match pweighted(&[2, 4, 4, 2]) {
            0 => Form::Boxed,
            1 => Form::Borrowed,
            2 => Form::Take(plan(n as u64 + 2) as usize),
            _ => Form::TakeRef(plan(n as u64 + 2) as usize),
        })
        .collect();
    log!("{} written as {writes:?}", text::<N, P>(n, &script));
    faults_of(&script);
    nontrivial();
    Box::new(move || {
        let what0 = text::<N, P>(n, &script);
        let seen = Arc::new(Mutex::new(Seen::default()));
        let script = Arc::new(script);
        let mut src = Some(Src::<N, P> { pts: pts.clone(), script: script.clone(), seen: seen.clone(), p: PhantomData });
        if alone() {
            sched::budget(400_000_000);
        }
        for (j, f) in writes.iter().enumerate() {
            let Some(mut s) = src.take() else { break };
            let (at, gaps, breaks) = {
                let mut x = seen.lock().unwrap();
                x.yielded = 0;
                x.ended = false;
                x.after_end = 0;
                x.pulls = 0;
                (x.at, x.gaps_done, x.breaks_done)
            };
            // what this write must take
            let end = script.gaps.get(gaps).copied().unwrap_or(n).max(at);
            let limit = match f {
                Form::Take(k) | Form::TakeRef(k) => *k,
                _ => usize::MAX,
            };
            let len = (end - at).min(limit);
            let brk = script.breaks.get(breaks).copied();
            // a take of k does not ask for the element after the last
            let broke = match brk {
                Some(b) => b < at + len || (b == at + len && len < limit),
                None => false,
            };
            let want = &pts[at..at + len];
            if alone() {
                warm_here::<N, P>();
            }
            let (live0, led0) = (heap::stats().live_n, ledger());
            let what = || format!("write {j} ({f:?}) from element {at} of {what0}");
            let mut r = None;
            let mut back = None;
            match f {
                Form::Boxed => {
                    let b: Box<dyn Iterator<Item = P>> = harness(|| Box::new(s));
                    r = Some(sut("write a boxed stream", move || PointCloud2Msg::try_from_iter::<N, P>(b)));
                }
                Form::Borrowed => {
                    r = Some(sut("write a borrowed stream", || PointCloud2Msg::try_from_iter::<N, P>(&mut s)));
                    back = Some(s);
                }
                Form::Take(k) => {
                    r = Some(sut("write a part of a stream", || PointCloud2Msg::try_from_iter::<N, P>(s.by_ref().take(*k))));
                    back = Some(s);
                }
                Form::TakeRef(k) => {
                    let mut t = (&mut s).take(*k);
                    r = Some(sut("write a part of a stream", || {
                        let d: &mut dyn Iterator<Item = P> = &mut t;
                        PointCloud2Msg::try_from_iter::<N, P>(d)
                    }));
                    back = Some(s);
                }
                _ => {}
            }
            if let Some(r) = r {
                judge::<N, P>(r, want, broke, live0, led0, &what);
            }
            {
                let x = seen.lock().unwrap();
                let taken = x.at - at;
                if broke {
                    let b = brk.unwrap_or(0);
                    if taken > b - at {
                        fail("stream:consumed", &format!("{}: {taken} elements are taken although it broke off after {}", what(), b - at));
                    }
                } else if taken != len {
                    fail("stream:consumed", &format!("{}: {taken} elements are taken out of the stream for {len} points", what()));
                }
                if x.after_end > 0 {
                    fail("stream:consumed", &format!("{}: {} elements were taken after the stream had ended", what(), x.after_end));
                }
                if back.is_none() && !x.dropped {
                    fail("stream:leak", &format!("{}: the stream is not released", what()));
                }
            }
            src = back;
        }
        if alone() {
            sched::no_budget();
        }
    })
}

/// One stream through std's adapters, without boxes in between.
fn adapters<const N: usize, P: SimPoint<N>>() -> Box<dyn FnOnce() + Send> {
    let n = cap::<N>(draw_size(200, false));
    let pts = Arc::new(draw_points::<N, P>(n));
    let form = match plan(12) {
        0 => Form::Whole,
        1 => Form::Own,
        2 => Form::Lazy,
        3 => Form::Peekable,
        4 => Form::Filter,
        5 => Form::StepBy(1 + plan(4) as usize),
        6 => Form::Chain,
        7 => Form::FlatMap,
        8 => Form::FromFn,
        9 => Form::MapWhile(plan(n as u64) as usize),
        10 => Form::Fuse,
        11 => Form::Inspect,
        _ => Form::Boxed,
    };
    let mut script = draw_script(n, !matches!(form, Form::StepBy(_) | Form::Chain));
    if matches!(form, Form::Chain | Form::StepBy(_) | Form::FlatMap) {
        // these adapters ask an ended stream again, or hide where it ended
        script.gaps.clear();
    }
    log!("{} through {form:?}", text::<N, P>(n, &script));
    faults_of(&script);
    nontrivial();
    Box::new(move || {
        let what = || format!("{} through {form:?}", text::<N, P>(n, &script));
        let seen = Arc::new(Mutex::new(Seen::default()));
        let s = Src::<N, P> { pts: pts.clone(), script: Arc::new(script.clone()), seen: seen.clone(), p: PhantomData };
        let end = script.gaps.first().copied().unwrap_or(n);
        let all = &pts[..end];
        let keep = |b: &Bits<N>| (b[0] ^ (b[0] >> 7)) % 3 != 0;
        // which points, and whether the stream is asked for the element it breaks at
        let mut limit = end;
        let mut want: Vec<Bits<N>> = match form {
            Form::Filter => all.iter().filter(|b| keep(b)).copied().collect(),
            Form::StepBy(k) => {
                // steps of k: the element after the last taken one is asked for up to its end
                all.iter().step_by(k).copied().collect()
            }
            Form::Chain => all.iter().chain(all.iter()).copied().collect(),
            Form::FlatMap => all.iter().flat_map(|b| std::iter::repeat(*b).take((b[0] % 3) as usize)).copied_list(),
            Form::MapWhile(k) => {
                limit = if k < end { k } else { end };
                all[..limit].to_vec()
            }
            _ => all.to_vec(),
        };
        let broke = match script.breaks.first() {
            Some(b) => match form {
                Form::MapWhile(k) => *b <= k.min(end),
                _ => *b <= limit,
            },
            None => false,
        };
        if broke {
            want.clear();
        }
        if alone() {
            warm_here::<N, P>();
        }
        let (live0, led0) = (heap::stats().live_n, ledger());
        if alone() {
            sched::budget(400_000_000);
        }
        let again = Src::<N, P> {
            pts: pts.clone(),
            script: Arc::new(Script { gaps: vec![], breaks: vec![], ..script.clone() }),
            seen: Arc::new(Mutex::new(Seen::default())),
            p: PhantomData,
        };
        let mut count = 0usize;
        let r = sut("write a stream", move || match form {
            Form::Whole => PointCloud2Msg::try_from_iter(s),
            Form::Own => PointCloud2Msg::try_from_iter(Own(s)),
            Form::Lazy => PointCloud2Msg::try_from_iter(Lazy(s, true)),
            Form::Peekable => {
                let mut p = s.peekable();
                let _ = p.peek();
                PointCloud2Msg::try_from_iter(p)
            }
            Form::Filter => PointCloud2Msg::try_from_iter(s.filter(move |p| keep(&p.bits()))),
            Form::StepBy(k) => PointCloud2Msg::try_from_iter(s.step_by(k)),
            Form::Chain => PointCloud2Msg::try_from_iter(s.chain(again)),
            Form::FlatMap => PointCloud2Msg::try_from_iter(s.flat_map(|p| {
                let b = p.bits();
                std::iter::repeat_with(move || P::make(b)).take((b[0] % 3) as usize)
            })),
            Form::FromFn => {
                let mut s = s;
                PointCloud2Msg::try_from_iter(std::iter::from_fn(move || s.next()))
            }
            Form::MapWhile(k) => PointCloud2Msg::try_from_iter(s.map_while(move |p| {
                count += 1;
                if count > k {
                    None
                } else {
                    Some(p)
                }
            })),
            Form::Fuse => PointCloud2Msg::try_from_iter(s.fuse()),
            Form::Inspect => PointCloud2Msg::try_from_iter(s.inspect(|p| {
                let _ = p.bits();
                sched::point();
            })),
            _ => {
                let b: Box<dyn Iterator<Item = P>> = harness(|| Box::new(s));
                PointCloud2Msg::try_from_iter(b)
            }
        });
        if alone() {
            sched::no_budget();
        }
        judge::<N, P>(r, &want, broke, live0, led0, &what);
        if !seen.lock().unwrap().dropped {
            fail("stream:leak", &format!("{}: the stream is not released", what()));
        }
    })
}
trait CopiedList<T> {
    fn copied_list(self) -> Vec<T>;
}
impl<T, I: Iterator<Item = T>> CopiedList<T> for I {
    fn copied_list(self) -> Vec<T> {
        self.collect()
    }
}

/// A stream that reads another message while it is written: chains of read - change - write.
fn relay<const N: usize, P: SimPoint<N>>() -> Box<dyn FnOnce() + Send> {
    let n = cap::<N>(draw_size(if N > 8 { 40 } else { 150 }, false));
    let (m, pts) = draw_message::<N, P>(n);
    let hops = 1 + plan(2);
    let part = plan(n as u64 + 1) as usize;
    let mode = plan(3);
    let brk = if fchance(1, 3) { Some(fdraw(n as u64) as usize) } else { None };
    log!("{n} points of {} relayed {hops} times, mode {mode}, part {part}, break {brk:?}: {}", P::NAME, describe(&m));
    nontrivial();
    Box::new(move || {
        let mut m = m;
        let mut want = pts;
        if alone() {
            sched::budget(400_000_000);
        }
        for hop in 0..hops {
            let brk = if hop == 0 { brk } else { None };
            let what = || format!("hop {hop} of {} points of {} (mode {mode}, part {part}, break {brk:?}): {}", want.len(), P::NAME, describe(&m));
            if alone() {
                warm_here::<N, P>();
            }
            let (live0, led0) = (heap::stats().live_n, ledger());
            let inp = input(&m);
            let asked = AtomicI64::new(0);
            let map = |p: P| {
                let k = asked.fetch_add(1, Relaxed);
                if brk.map_or(false, |b| b as i64 == k) {
                    shared::probe("stream broke off");
                    run::inject_panic(k as u64);
                }
                p
            };
            let r = sut("relay a message", || -> Result<PointCloud2Msg, MsgConversionError> {
                let mut it = PointCloudIterator::<N, P>::try_from(inp)?;
                match mode {
                    0 => PointCloud2Msg::try_from_iter(Iterator::map(it, map)),
                    1 => PointCloud2Msg::try_from_iter(Iterator::map(Iterator::take(it.by_ref(), part), map)),
                    2 => {
                        let k = part.min(Iterator::size_hint(&it).0);
                        let (a, b) = it.split_at(k);
                        PointCloud2Msg::try_from_iter(Iterator::map(Iterator::chain(b, a), map))
                    }
                    _ => PointCloud2Msg::try_from_iter(Iterator::map(Iterator::step_by(it, part.max(1)), map)),
                }
            });
            let next: Vec<Bits<N>> = match mode {
                0 => want.clone(),
                1 => want[..part.min(want.len())].to_vec(),
                2 => {
                    let k = part.min(want.len());
                    want[k..].iter().chain(&want[..k]).copied().collect()
                }
                _ => want.iter().step_by(part.max(1)).copied().collect(),
            };
            let broke = brk.map_or(false, |b| b < next.len());
            let mut kept = None;
            let r = match r {
                Ok(Ok(x)) => {
                    let c = harness(|| x.clone());
                    kept = Some(c);
                    Ok(Ok(x))
                }
                r => r,
            };
            judge::<N, P>(r, &next, broke, live0, led0, &what);
            match kept {
                Some(mut k) => {
                    scrub(&mut k);
                    m = k;
                }
                None => break,
            }
            want = next;
        }
        if alone() {
            sched::no_budget();
        }
    })
}

// ---------------------------------------------------------------- fed by other threads

struct Feed<const N: usize> {
    q: Mutex<VecDeque<Bits<N>>>,
    cap: usize,
    /// set when there may be something new for the reader / for the writer
    items: AtomicBool,
    room: AtomicBool,
    closed: AtomicBool,
    died: AtomicBool,
    taken: AtomicU64,
}
struct Tap<const N: usize, P> {
    feed: Arc<Feed<N>>,
    p: PhantomData<fn() -> P>,
}
impl<const N: usize, P: SimPoint<N>> Iterator for Tap<N, P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        let x = harness(|| loop {
            let f = &self.feed;
            if let Some(b) = f.q.lock().unwrap().pop_front() {
                f.taken.fetch_add(1, SeqCst);
                f.room.store(true, SeqCst);
                return Ok(Some(b));
            }
            if f.died.load(SeqCst) {
                return Err(());
            }
            if f.closed.load(SeqCst) {
                return Ok(None);
            }
            f.items.store(false, SeqCst);
            shared::probe("stream waits for its producer");
            sched::block(&f.items, false);
        });
        match x {
            Ok(b) => b.map(P::make),
            Err(()) => run::inject_panic(1),
        }
    }
}
/// A stream whose points come from another thread through a bounded queue.
fn fed<const N: usize, P: SimPoint<N>>() {
    let n = cap::<N>(draw_size(if N > 8 { 40 } else { 120 }, false));
    let pts = draw_points::<N, P>(n);
    let cap = 1 + plan(5) as usize;
    let die = if fchance(1, 4) { Some(fdraw(n as u64) as usize) } else { None };
    let writers = 1 + plan(1) as usize;
    let cut: Vec<usize> = if writers == 1 { vec![usize::MAX] } else { vec![plan(n as u64) as usize, usize::MAX] };
    log!("{n} points of {} from another thread, queue of {cap}, producer dies {die:?}, taken as {cut:?}", P::NAME);
    nontrivial();
    let c = draw_sched(true);
    sched::simulate(c, move || {
        sched::budget(400_000_000);
        let feed = Arc::new(Feed::<N> {
            q: Mutex::new(VecDeque::new()),
            cap,
            items: AtomicBool::new(false),
            room: AtomicBool::new(true),
            closed: AtomicBool::new(false),
            died: AtomicBool::new(false),
            taken: AtomicU64::new(0),
        });
        let f = feed.clone();
        let produced = pts.clone();
        let stop = Arc::new(AtomicBool::new(false));
        let stopped = stop.clone();
        let producer = sched::spawn(move || {
            for (i, b) in produced.iter().enumerate() {
                if die == Some(i) {
                    shared::probe("fault:producer died");
                    f.died.store(true, SeqCst);
                    f.items.store(true, SeqCst);
                    return;
                }
                sched::point();
                while f.q.lock().unwrap().len() >= f.cap {
                    if stopped.load(SeqCst) {
                        return;
                    }
                    f.room.store(false, SeqCst);
                    sched::block(&f.room, false);
                }
                f.q.lock().unwrap().push_back(*b);
                f.items.store(true, SeqCst);
            }
            f.closed.store(true, SeqCst);
            f.items.store(true, SeqCst);
        });
        let consumer = sched::spawn(move || {
            let mut tap = Tap::<N, P> { feed: feed.clone(), p: PhantomData };
            let mut at = 0;
            for (j, k) in cut.iter().enumerate() {
                let what = || format!("write {j} of {k} points from another thread ({n} points of {}, producer dies {die:?})", P::NAME);
                let len = (pts.len() - at).min(*k);
                let broke = die.map_or(false, |d| d < pts.len() && (d < at + len || (d == at + len && len < *k)));
                let r = if *k == usize::MAX {
                    sut("write from another thread", || PointCloud2Msg::try_from_iter::<N, P>(&mut tap))
                } else {
                    sut("write from another thread", || PointCloud2Msg::try_from_iter::<N, P>(tap.by_ref().take(*k)))
                };
                judge::<N, P>(r, &pts[at..at + len], broke, 0, 0, &what);
                let taken = feed.taken.load(SeqCst) as usize;
                if broke {
                    break;
                }
                if taken != at + len {
                    fail("stream:consumed", &format!("{}: {taken} points are taken out of the stream for {}", what(), at + len));
                }
                at += len;
            }
            stop.store(true, SeqCst);
            feed.room.store(true, SeqCst);
        });
        producer.join();
        consumer.join();
        sched::no_budget();
    });
}
