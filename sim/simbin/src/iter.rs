//! C03: one point iterator, any history of operations on it and on the parts split off it.
use crate::common::*;
use crate::model::Bits;
use crate::types::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use simcore::heap;
use simcore::run::{fail, sut, sut_ok, Stop};
use simcore::{log, sched, shared};
use std::collections::VecDeque;

struct Part<const N: usize, P: SimPoint<N>> {
    it: PointCloudIterator<N, P>,
    left: VecDeque<Bits<N>>,
    /// once it said None it must stay so
    ended: bool,
}

pub fn c03() {
    draw_heap();
    // types with user conversions (18, 19) more often
    let t = if pchance(1, 5) { 18 + plan(1) } else { plan(N_TYPES as u64 - 1) };
    earlier(t);
    for_type!(t, history());
}

/// The points in order: what was encoded, or - if the reader decodes values differently, which is
/// another property - what one full read of the same cloud says.
pub fn identity<const N: usize, P: SimPoint<N>>(m: &PointCloud2Msg, pts: &[Bits<N>]) -> Vec<Bits<N>> {
    let base = match read::<N, P>(Path::Iter, m) {
        Out::Ok(v) => v,
        Out::Err { kind, .. } => fail("iter:refused", &format!("an intact message of {} is refused: {kind}; {}", P::NAME, describe(m))),
        Out::Stop(s) => fail("iter:panic", &format!("reading {}: {s:?}", describe(m))),
    };
    if base.len() != pts.len() {
        return pts.to_vec();
    }
    let sorted = |v: &[Bits<N>]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    let distinct = |v: &[Bits<N>]| {
        let mut v = sorted(v);
        v.dedup();
        v.len()
    };
    if sorted(&base) == sorted(pts) || distinct(&base) < distinct(pts) {
        pts.to_vec()
    } else {
        shared::probe("identity taken from a full read");
        base
    }
}

fn history<const N: usize, P: SimPoint<N>>() {
    let n = match pweighted(&[40, 60, 20, 10, 1]) {
        0 => plan(4) as usize,
        1 => plan(24) as usize,
        2 => plan(150) as usize,
        3 => plan(1200) as usize,
        // counters of 16 bits do not suffice
        _ if pchance(1, 4) => 65_500 + plan(600) as usize,
        _ => cap::<N>(draw_size(1200, true)),
    };
    let (m, pts) = draw_message::<N, P>(n);
    log!("{} points of {}: {}", n, P::NAME, describe(&m));
    let pts = identity::<N, P>(&m, &pts);
    sched::budget(step_bound(m.data.len() * 8, n * 8, m.fields.len(), N) * 4);
    let inp = input(&m);
    let it = match sut_ok("iter:panic", "open an iterator", move || PointCloudIterator::<N, P>::try_from(inp)) {
        Ok(it) => it,
        Err(e) => fail("iter:refused", &format!("{}: {}", err_of(e).0, describe(&m))),
    };
    let mut parts = vec![Part { it, left: pts.into_iter().collect(), ended: false }];
    let ops = 1 + plan(24);
    if n > 0 {
        nontrivial();
    }
    for _ in 0..ops {
        if parts.is_empty() {
            break;
        }
        let k = plan(parts.len() as u64 - 1) as usize;
        step(&mut parts, k);
        heap::check_all();
    }
    // drain what is left, from either end
    while let Some(p) = parts.pop() {
        let back = pchance(1, 3);
        finish(p, back);
    }
    sched::no_budget();
}

fn got<const N: usize, P: SimPoint<N>>(p: Option<P>) -> Option<Bits<N>> {
    let b = p.as_ref().map(|p| heap::harness(|| p.bits()));
    drop(p);
    b
}
fn cmp<const N: usize>(what: &str, have: Option<Bits<N>>, want: Option<Bits<N>>, left: usize) {
    if have != want {
        fail(
            "iter:point",
            &format!("{what}: got {:x?} where {:x?} was next ({left} points were left)", have, want),
        );
    }
}
/// len and size_hint must count what is still to come.
fn lengths<const N: usize, P: SimPoint<N>>(p: &Part<N, P>, what: &str) {
    let h = sut_ok("iter:panic", "size_hint", || Iterator::size_hint(&p.it));
    if h != (p.left.len(), Some(p.left.len())) {
        fail("iter:length", &format!("after {what}: size_hint {h:?} with {} points to come", p.left.len()));
    }
    #[cfg(feature = "par")]
    {
        let l = sut_ok("iter:panic", "len", || ExactSizeIterator::len(&p.it));
        if l != p.left.len() {
            fail("iter:length", &format!("after {what}: len {l} with {} points to come", p.left.len()));
        }
        let l = sut_ok("iter:panic", "len", || rayon::iter::IndexedParallelIterator::len(&p.it));
        let o = sut_ok("iter:panic", "opt_len", || rayon::iter::ParallelIterator::opt_len(&p.it));
        if l != p.left.len() || o != Some(l) {
            fail("iter:length", &format!("after {what}: parallel len {l}, opt_len {o:?} with {} points to come", p.left.len()));
        }
    }
}

/// How far to skip: mostly around the end, at times as far as there are numbers.
fn far(n: usize) -> usize {
    match plan(23) {
        0 => usize::MAX - plan(n as u64 + 2) as usize,
        1 => (1usize << [31, 32, 62, 63][plan(3) as usize]) + plan(2) as usize,
        2 => usize::MAX,
        _ => plan(n as u64 + 2) as usize,
    }
}
fn step<const N: usize, P: SimPoint<N>>(parts: &mut Vec<Part<N, P>>, k: usize) {
    let full = cfg!(feature = "par");
    let op = pweighted(&[
        6, 3, 3, 4, 2, 2, 1, 1, 1, 1, // any configuration
        if full { 6 } else { 0 },
        if full { 2 } else { 0 },
        if full { 2 } else { 0 },
        if full { 1 } else { 0 },
        if full { 1 } else { 0 },
        1,
    ]);
    let p = &mut parts[k];
    let n = p.left.len();
    match op {
        0 => {
            let g = sut_ok("iter:panic", "next", || got(Iterator::next(&mut p.it)));
            log!("part {k}: next of {n}");
            cmp("next", g, p.left.pop_front(), n);
        }
        1 => {
            let j = far(n);
            log!("part {k}: nth({j}) of {n}");
            let g = sut_ok("iter:panic", "nth", || got(Iterator::nth(&mut p.it, j)));
            let w = p.left.get(j).copied();
            p.left.drain(..j.saturating_add(1).min(n));
            cmp("nth", g, w, n);
        }
        2 => {
            log!("part {k}: lengths at {n}");
            lengths(p, "nothing");
        }
        3 => {
            // split, also after partial consumption
            let at = if pchance(1, 4) { [0, n][plan(1) as usize] } else { plan(n as u64) as usize };
            log!("part {k}: split {n} at {at}");
            let p = parts.remove(k);
            let it = p.it;
            if pchance(1, 30) {
                // beyond the end: refused, or nothing is behind the end
                let at = n.saturating_add(1).saturating_add(if pchance(1, 2) { plan(3) as usize } else { far(n) });
                shared::probe("op: split beyond the end");
                let (a, b) = match sut("split_at beyond the end", move || it.split_at(at)) {
                    Ok(x) => x,
                    Err(Stop::Panic(_)) => return,
                    Err(s) => fail("iter:split", &format!("split of {n} points at {at}: {s:?}")),
                };
                parts.insert(k, Part { it: b, left: Default::default(), ended: false });
                parts.insert(k, Part { it: a, left: p.left, ended: false });
                lengths(&parts[k], "a split beyond the end (left)");
                lengths(&parts[k + 1], "a split beyond the end (right)");
                return;
            }
            let (a, b) = sut_ok("iter:panic", "split_at", move || it.split_at(at));
            let mut l = p.left;
            let r = l.split_off(at);
            parts.insert(k, Part { it: b, left: r, ended: false });
            parts.insert(k, Part { it: a, left: l, ended: false });
            shared::probe(if at == 0 || at == n { "op: split at an end" } else { "op: split inside" });
            if pchance(1, 2) {
                lengths(&parts[k], "a split (left)");
                lengths(&parts[k + 1], "a split (right)");
            }
            return;
        }
        4 => {
            let j = plan(n as u64 + 1) as usize;
            log!("part {k}: by_ref().take({j}) of {n}");
            let it = &mut p.it;
            let v = sut_ok("iter:panic", "take", || Iterator::collect::<Vec<P>>(Iterator::take(Iterator::by_ref(it), j)));
            let w: Vec<Bits<N>> = p.left.drain(..j.min(n)).collect();
            same_list("take", &v, &w);
        }
        5 => {
            // search forward by reference
            let j = plan(n as u64) as usize;
            log!("part {k}: find number {j} of {n}");
            let it = &mut p.it;
            let mut seen = 0usize;
            let g = sut_ok("iter:panic", "find", || {
                got(Iterator::find(Iterator::by_ref(it), |_| {
                    seen += 1;
                    seen > j
                }))
            });
            let w = p.left.get(j).copied();
            p.left.drain(..(j + 1).min(n));
            cmp("find", g, w, n);
        }
        6 => {
            // stop in the middle of a fold
            let j = plan(n as u64) as usize;
            log!("part {k}: try_fold stopping after {j} of {n}");
            let it = &mut p.it;
            let mut v: Vec<Bits<N>> = Vec::with_capacity(n + 2);
            let _ = sut_ok("iter:panic", "try_fold", || {
                Iterator::try_fold(it, 0usize, |c, x| {
                    if v.len() < v.capacity() {
                        v.push(heap::harness(|| x.bits()));
                    }
                    if c == j { Err(()) } else { Ok(c + 1) }
                })
            });
            let w: Vec<Bits<N>> = p.left.drain(..(j + 1).min(n)).collect();
            same_bits("try_fold", &v, &w);
        }
        7 => {
            // a conversion that panics in the middle of a pull
            let back = full && pchance(1, 2);
            log!("part {k}: pull of {n} that panics");
            arm_panic(1);
            let it = &mut p.it;
            let r = sut("pull that panics", || {
                #[cfg(feature = "par")]
                if back {
                    return got(DoubleEndedIterator::next_back(it));
                }
                got(Iterator::next(it))
            });
            disarm_panic();
            match r {
                Err(Stop::Panic(t)) => fail("iter:panic", &t),
                Err(_) => {
                    shared::probe("op: panic in a pull");
                    // the point being converted may be lost, nothing else
                    let h = sut_ok("iter:panic", "size_hint", || Iterator::size_hint(&p.it));
                    if h.0 + 1 == n {
                        if back { p.left.pop_back() } else { p.left.pop_front() };
                    }
                    lengths(p, "a panicking pull");
                }
                // types without user conversions do not panic
                Ok(g) => cmp("pull", g, if back { p.left.pop_back() } else { p.left.pop_front() }, n),
            }
            let _ = back;
        }
        8 => {
            log!("part {k}: dropped with {n} left");
            let p = parts.remove(k);
            sut_ok("iter:panic", "drop an iterator", move || drop(p.it));
            return;
        }
        9 => {
            log!("part {k}: read through an adaptor at {n}");
            let p = parts.remove(k);
            adaptor(p);
            return;
        }
        #[cfg(feature = "par")]
        10 => {
            log!("part {k}: next_back of {n}");
            let g = sut_ok("iter:panic", "next_back", || got(DoubleEndedIterator::next_back(&mut p.it)));
            cmp("next_back", g, p.left.pop_back(), n);
        }
        #[cfg(feature = "par")]
        11 => {
            let j = far(n);
            log!("part {k}: nth_back({j}) of {n}");
            let g = sut_ok("iter:panic", "nth_back", || got(DoubleEndedIterator::nth_back(&mut p.it, j)));
            let w = if j < n { p.left.get(n - 1 - j).copied() } else { None };
            p.left.truncate(n.saturating_sub(j.saturating_add(1)));
            cmp("nth_back", g, w, n);
        }
        #[cfg(feature = "par")]
        12 => {
            let j = plan(n as u64 + 1) as usize;
            log!("part {k}: by_ref().rev().take({j}) of {n}");
            let it = &mut p.it;
            let v = sut_ok("iter:panic", "rev", || {
                Iterator::collect::<Vec<P>>(Iterator::take(Iterator::rev(Iterator::by_ref(it)), j))
            });
            let mut w = vec![];
            for _ in 0..j.min(n) {
                w.extend(p.left.pop_back());
            }
            same_list("rev", &v, &w);
        }
        #[cfg(feature = "par")]
        13 => {
            let j = plan(n as u64) as usize;
            log!("part {k}: position / rposition number {j} of {n}");
            let it = &mut p.it;
            let back = pchance(1, 2);
            let mut seen = 0usize;
            let g = sut_ok("iter:panic", "position", || {
                let f = |_: P| {
                    seen += 1;
                    seen > j
                };
                if back {
                    Iterator::rposition(it, f)
                } else {
                    Iterator::position(it, f)
                }
            });
            let w = if j < n { Some(if back { n - 1 - j } else { j }) } else { None };
            if back {
                p.left.truncate(n.saturating_sub(j + 1));
            } else {
                p.left.drain(..(j + 1).min(n));
            }
            if g != w {
                fail("iter:position", &format!("position {g:?} instead of {w:?}"));
            }
        }
        #[cfg(feature = "par")]
        14 => {
            // from both ends in turn until nothing is left
            log!("part {k}: both ends of {n}");
            for i in 0..n + 2 {
                let at = p.left.len();
                if i % 2 == 0 {
                    let g = sut_ok("iter:panic", "next", || got(Iterator::next(&mut p.it)));
                    cmp("next (both ends)", g, p.left.pop_front(), at);
                } else {
                    let g = sut_ok("iter:panic", "next_back", || got(DoubleEndedIterator::next_back(&mut p.it)));
                    cmp("next_back (both ends)", g, p.left.pop_back(), at);
                }
            }
        }
        _ => {
            // pull beyond the end, again and again
            log!("part {k}: {n} pulls and more");
            for _ in 0..n + 3 {
                let at = p.left.len();
                let g = sut_ok("iter:panic", "next", || got(Iterator::next(&mut p.it)));
                cmp("next (to the end)", g, p.left.pop_front(), at);
            }
        }
    }
    if parts[k].left.is_empty() {
        parts[k].ended = true;
        shared::probe("op: used after the end");
    }
    if pchance(1, 3) {
        lengths(&parts[k], "an operation");
    }
}

fn same_bits<const N: usize>(what: &str, v: &[Bits<N>], w: &[Bits<N>]) {
    if v != w {
        fail("iter:point", &format!("{what}: {}", first_diff(v, w)));
    }
}
fn same_list<const N: usize, P: SimPoint<N>>(what: &str, v: &[P], w: &[Bits<N>]) {
    same_bits(what, &bits_vec(v), w)
}

/// Consumes a part through the standard adaptors that rely on the iterator's own methods.
fn adaptor<const N: usize, P: SimPoint<N>>(p: Part<N, P>) {
    let Part { it, left, .. } = p;
    let w: Vec<Bits<N>> = left.into_iter().collect();
    let n = w.len();
    let full = cfg!(feature = "par");
    match pweighted(&[2, 2, 2, 2, 2, 2, 2, 2, if full { 3 } else { 0 }, if full { 3 } else { 0 }]) {
        0 => {
            let c = sut_ok("iter:panic", "count", move || Iterator::count(it));
            if c != n {
                fail("iter:count", &format!("count {c} with {n} points left"));
            }
        }
        1 => {
            let g = sut_ok("iter:panic", "last", move || got(Iterator::last(it)));
            cmp("last", g, w.last().copied(), n);
        }
        2 => {
            let k = 1 + plan(5) as usize;
            let v = sut_ok("iter:panic", "step_by", move || Iterator::collect::<Vec<P>>(Iterator::step_by(it, k)));
            let w: Vec<_> = w.into_iter().step_by(k).collect();
            same_list("step_by", &v, &w);
        }
        3 => {
            let k = plan(n as u64 + 1) as usize;
            let v = sut_ok("iter:panic", "skip", move || Iterator::collect::<Vec<P>>(Iterator::skip(it, k)));
            let w: Vec<_> = w.into_iter().skip(k).collect();
            same_list("skip", &v, &w);
        }
        4 => {
            let v = sut_ok("iter:panic", "fold", move || {
                Iterator::fold(it, Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                })
            });
            same_list("fold", &v, &w);
        }
        5 => {
            let v = sut_ok("iter:panic", "peekable", move || {
                let mut pk = Iterator::peekable(it);
                let _ = pk.peek();
                Iterator::collect::<Vec<P>>(pk)
            });
            same_list("peekable", &v, &w);
        }
        6 => {
            let v = sut_ok("iter:panic", "fuse and zip", move || {
                Iterator::map(Iterator::zip(Iterator::fuse(it), 0u32..), |(p, _)| p).collect::<Vec<P>>()
            });
            same_list("zip", &v, &w);
        }
        7 => {
            let v = sut_ok("iter:panic", "enumerate", move || {
                let mut v = Vec::new();
                for (i, p) in Iterator::enumerate(it) {
                    if i == v.len() {
                        v.push(p);
                    }
                }
                v
            });
            same_list("enumerate", &v, &w);
        }
        #[cfg(feature = "par")]
        8 => {
            let v = sut_ok("iter:panic", "rfold", move || {
                DoubleEndedIterator::rfold(it, Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                })
            });
            let w: Vec<_> = w.into_iter().rev().collect();
            same_list("rfold", &v, &w);
        }
        #[cfg(feature = "par")]
        9 => {
            // enumerate from the back uses the reported length
            let (v, i) = sut_ok("iter:panic", "enumerate from the back", move || {
                let mut v = Vec::new();
                let mut i = Vec::new();
                for (k, p) in Iterator::rev(Iterator::enumerate(it)) {
                    v.push(p);
                    i.push(k);
                }
                (v, i)
            });
            let w: Vec<_> = w.into_iter().rev().collect();
            same_list("enumerate().rev()", &v, &w);
            if !i.iter().copied().eq((0..n).rev()) {
                fail("iter:position", &format!("enumerate().rev() numbers {:?}", &i[..i.len().min(8)]));
            }
        }
        _ => unreachable!(),
    }
}

fn finish<const N: usize, P: SimPoint<N>>(p: Part<N, P>, back: bool) {
    let Part { mut it, left, .. } = p;
    let mut w: Vec<Bits<N>> = left.into_iter().collect();
    let n = w.len();
    #[cfg(feature = "par")]
    if back {
        let v = sut_ok("iter:panic", "drain from the back", || {
            let mut v = Vec::new();
            while let Some(p) = DoubleEndedIterator::next_back(&mut it) {
                v.push(p);
            }
            v
        });
        w.reverse();
        same_list("drain from the back", &v, &w);
        let g = sut_ok("iter:panic", "next", || got(Iterator::next(&mut it)));
        cmp("next after the end", g, None, 0);
        let g = sut_ok("iter:panic", "next_back", || got(DoubleEndedIterator::next_back(&mut it)));
        cmp("next_back after the end", g, None, 0);
        return;
    }
    let _ = back;
    w.truncate(n);
    let v = sut_ok("iter:panic", "drain", || Iterator::collect::<Vec<P>>(Iterator::by_ref(&mut it)));
    same_list("drain", &v, &w);
    let g = sut_ok("iter:panic", "next", || got(Iterator::next(&mut it)));
    cmp("next after the end", g, None, 0);
}
