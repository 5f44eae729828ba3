//! C05, C06, C07, C12: what messages say, what readers make of them, what writers put into them.
use crate::common::*;
use crate::damage::damage;
use crate::model::*;
use crate::types::*;
use ros_pointcloud2::prelude::*;
use simcore::heap;
use simcore::run::{fail, Stop};
use simcore::{log, sched, shared};

const MAX: u64 = 260;

fn any_path() -> Path {
    PATHS[plan(PATHS.len() as u64 - 1) as usize]
}
fn is_parallel(_p: Path) -> bool {
    #[cfg(feature = "par")]
    {
        matches!(_p, Path::Par | Path::ParIndexed)
    }
    #[cfg(not(feature = "par"))]
    false
}
/// Part of the runs work on a simulated pool, the others inline.
fn maybe_scheduled(f: impl FnOnce() + Send + 'static) {
    #[cfg(feature = "par")]
    if pchance(1, 4) {
        draw_pool();
        return scheduled_anywhere(pchance(1, 4), f);
    }
    f()
}

/// A message somebody sent: written by the library, by a foreign node in this schema, or in any schema.
fn source<const N: usize, P: SimPoint<N>>(max: u64) -> PointCloud2Msg {
    let n = cap::<N>(draw_size(max, false));
    if pchance(1, 5) {
        let pts = draw_points::<N, P>(n);
        let w = WRITES[plan(WRITES.len() as u64 - 1) as usize];
        // a writer that fails is another property
        if let Ok(Ok(m)) = write::<N, P>(w, &pts) {
            return export(m);
        }
    }
    draw_message::<N, P>(n).0
}

// ---------------------------------------------------------------- C05

pub fn c05() {
    draw_heap();
    let t = plan(N_TYPES as u64 - 1);
    earlier(t);
    for_type!(t, damaged());
}
fn damaged<const N: usize, P: SimPoint<N>>() {
    let mut m = source::<N, P>(MAX);
    let hops = 1 + pweighted(&[4, 2, 1]);
    let before = msg_digest(&m);
    for _ in 0..hops {
        for _ in 0..1 + plan(1) {
            damage(&mut m);
        }
    }
    log!("{} reads {}", P::NAME, describe(&m));
    if msg_digest(&m) != before {
        nontrivial();
    }
    let all = pchance(1, 2);
    let one = any_path();
    let (p2, f2) = (plan(2) as u32, plan(u32::MAX as u64));
    maybe_scheduled(move || {
        let e = expect::<N>(&m, &P::SPEC);
        let paths: Vec<Path> = if all { PATHS.to_vec() } else { vec![one] };
        for path in paths {
            if sched::on() {
                sched::budget(8 * step_bound(m.data.len(), m.data.len(), m.fields.len(), N));
            }
            let a = judge::<N, P>(path, &m, &e);
            // the answer must not depend on what the memory around held
            heap::configure(p2, f2, true);
            let b = judge::<N, P>(path, &m, &e);
            if a != b {
                fail("damage:memory", &format!("{path:?} of {} by {} gives different points when the heap holds other bytes", describe(&m), P::NAME));
            }
        }
        sched::no_budget();
        heap::check_all();
    });
}
/// One read of a damaged message: an error, or what the message says.
fn judge<const N: usize, P: SimPoint<N>>(path: Path, m: &PointCloud2Msg, e: &Expected<N>) -> Out<N> {
    let live = heap::stats();
    let o = read::<N, P>(path, m);
    match &o {
        Out::Stop(Stop::Panic(p)) => fail("damage:panic", &format!("{path:?} of {} by {} panics: {p}", describe(m), P::NAME)),
        Out::Stop(s) => fail("damage:panic", &format!("{path:?} of {} by {}: {s:?}", describe(m), P::NAME)),
        Out::Err { .. } => shared::probe("damage refused"),
        Out::Ok(v) => match &e.points {
            None => fail("damage:accepted", &format!("{path:?} of {} by {} yields {} points although: {}", describe(m), P::NAME, v.len(), e.why)),
            Some(w) => {
                shared::probe("damaged message read as it stands");
                if v.len() != w.len() {
                    fail("damage:points", &format!("{path:?} of {} by {} yields {} points", describe(m), P::NAME, v.len()));
                }
                for (i, (a, b)) in v.iter().zip(w).enumerate() {
                    for f in 0..N {
                        if !e.open[f] && a[f] != b[f] {
                            fail(
                                "damage:points",
                                &format!("{path:?} of {} by {}: point {i} field {} is {:#x}, the message says {:#x}", describe(m), P::NAME, P::SPEC[f].0, a[f], b[f]),
                            );
                        }
                    }
                }
            }
        },
    }
    let now = heap::stats();
    if now.live_n > live.live_n && keeps_growing(|| drop(read::<N, P>(path, m))) {
        fail("damage:leak", &format!("{path:?} of {} by {}: {} blocks are left behind", describe(m), P::NAME, now.live_n as i64 - live.live_n as i64));
    }
    o
}

// ---------------------------------------------------------------- C06

pub fn c06() {
    draw_heap();
    let t = plan(N_TYPES as u64 - 1);
    earlier(t);
    for_type!(t, agree());
}
fn agree<const N: usize, P: SimPoint<N>>() {
    let mut m = source::<N, P>(MAX);
    let k = pweighted(&[4, 3, 1]);
    for _ in 0..k {
        damage(&mut m);
    }
    log!("{} reads {} on every path", P::NAME, describe(&m));
    nontrivial();
    maybe_scheduled(move || {
        let mut first: Option<(Path, Out<N>)> = None;
        for path in PATHS {
            let o = read::<N, P>(path, &m);
            if let Some((fp, fo)) = &first {
                let same = match (fo, &o) {
                    (Out::Ok(a), Out::Ok(b)) => a == b,
                    (Out::Err { .. }, Out::Err { .. }) => true,
                    (Out::Stop(_), Out::Stop(_)) => true,
                    _ => false,
                };
                if !same {
                    let d = match (fo, &o) {
                        (Out::Ok(a), Out::Ok(b)) => first_diff(b, a),
                        (a, b) => format!("{} against {}", short(b), short(a)),
                    };
                    fail("paths:differ", &format!("{path:?} and {fp:?} of {} by {}: {d}", describe(&m), P::NAME));
                }
            } else {
                match &o {
                    Out::Ok(_) => shared::probe("all paths succeed"),
                    _ => shared::probe("all paths fail"),
                }
                first = Some((path, o));
            }
        }
        heap::check_all();
    });
}
fn short<const N: usize>(o: &Out<N>) -> String {
    match o {
        Out::Ok(v) => format!("{} points", v.len()),
        Out::Err { kind, .. } => format!("error {kind}"),
        Out::Stop(s) => format!("{s:?}"),
    }
}

// ---------------------------------------------------------------- C07

pub fn c07() {
    draw_heap();
    let t = plan(N_TYPES as u64 - 1);
    earlier(t);
    for_type!(t, fleet());
}
struct Publisher {
    schema: Schema,
    version: u64,
}
/// Several publishers with their own schemas feed one reader; schemas change while messages are on
/// their way, messages are lost, doubled and overtake each other.
fn fleet<const N: usize, P: SimPoint<N>>() {
    let np = 1 + plan(3) as usize;
    let mut pubs: Vec<Publisher> = (0..np).map(|_| Publisher { schema: new_schema::<N, P>(), version: 0 }).collect();
    let mut wire: Vec<(u64, PointCloud2Msg, String)> = vec![];
    let mut now = 0u64;
    let rounds = 1 + plan(4);
    for _ in 0..rounds {
        let k = plan(np as u64 - 1) as usize;
        if fchance(1, 4) {
            pubs[k].schema = new_schema::<N, P>();
            pubs[k].version += 1;
            shared::probe("fault:schema changed while running");
        }
        let n = cap::<N>(draw_size(90, false));
        let n = if pubs[k].schema.step > 1000 { n % 40 } else { n };
        let pts = draw_points::<N, P>(n);
        let (w, h) = draw_rows(n);
        let mut m = encode(&pts, &pubs[k].schema, w, h);
        m.dense = dense_of(pchance(1, 2));
        now += 1 + plan(99);
        let id = format!("publisher {k} version {}", pubs[k].version);
        if fchance(1, 12) {
            shared::probe("fault:message lost");
            continue;
        }
        if fchance(1, 12) {
            shared::probe("fault:message doubled");
            wire.push((now + fdraw(300), m.clone(), id.clone()));
        }
        let late = if fchance(1, 3) { fdraw(300) } else { 0 };
        if late > 0 {
            shared::probe("fault:message delayed");
        }
        wire.push((now + late, m, id));
    }
    wire.sort_by_key(|x| x.0);
    shared::get().sim_time_us += wire.last().map_or(0, |x| x.0);
    if !wire.is_empty() {
        nontrivial();
    }
    let paths: Vec<Path> = wire.iter().map(|_| any_path()).collect();
    maybe_scheduled(move || {
        for ((t, m, id), path) in wire.into_iter().zip(paths) {
            log!("t={t} {id} {path:?}: {} reads {}", P::NAME, describe(&m));
            received::<N, P>(&m, path, &id);
        }
        heap::check_all();
    });
}
fn new_schema<const N: usize, P: SimPoint<N>>() -> Schema {
    let mut s = draw_schema::<N, P>(true);
    // some publishers do not know all fields
    if pchance(1, 5) {
        let most = if pchance(1, 4) { s.fields.len() as u64 } else { (N as u64).min(3) };
        let k = 1 + plan(most - 1) as usize;
        for _ in 0..k {
            if s.fields.is_empty() {
                break;
            }
            let i = plan(s.fields.len() as u64 - 1) as usize;
            if pchance(1, 2) {
                s.fields.remove(i);
            } else {
                let name = similar_name(&s.fields[i].name.clone(), PLAN);
                if !s.fields.iter().any(|f| f.name == name) && !P::SPEC.iter().any(|f| f.0 == name) {
                    s.fields[i].name = name;
                }
            }
        }
        shared::probe("schema: lacks fields");
    }
    s
}
fn received<const N: usize, P: SimPoint<N>>(m: &PointCloud2Msg, path: Path, id: &str) {
    let e = expect::<N>(m, &P::SPEC);
    let o = read::<N, P>(path, m);
    let ctx = || format!("{path:?} of {} from {id} by {}", describe(m), P::NAME);
    match (&o, &e.points) {
        (Out::Stop(s), _) => fail("schema:panic", &format!("{}: {s:?}", ctx())),
        (Out::Ok(v), None) => fail("schema:accepted", &format!("{} yields {} points although fields are missing: {:?}", ctx(), v.len(), e.missing)),
        (Out::Err { kind, missing }, None) => {
            shared::probe("missing fields reported");
            if !e.missing.is_empty() && path != Path::Vec {
                let mut w = e.missing.clone();
                w.sort();
                match missing {
                    Some(v) if *v == w => {}
                    Some(v) => fail("schema:missing", &format!("{}: reports {v:?} missing instead of {w:?}", ctx())),
                    None => fail("schema:missing", &format!("{}: reports {kind} instead of naming {w:?}", ctx())),
                }
            }
        }
        (Out::Err { kind, .. }, Some(_)) => {
            if !(e.err_allowed && m.data.is_empty()) {
                fail("schema:refused", &format!("{}: {kind}", ctx()));
            }
        }
        (Out::Ok(v), Some(w)) => {
            if v != w {
                let d = if v.len() == w.len() {
                    let i = (0..v.len()).find(|i| v[*i] != w[*i]).unwrap_or(0);
                    let f = (0..N).find(|f| v[i][*f] != w[i][*f]).unwrap_or(0);
                    format!("point {i}, field {} is {:#x}, published was {:#x}", P::SPEC[f].0, v[i][f], w[i][f])
                } else {
                    format!("{} points, published were {}", v.len(), w.len())
                };
                fail("schema:value", &format!("{}: {d}", ctx()));
            }
        }
    }
    let _ = is_parallel(path);
}

// ---------------------------------------------------------------- C12

pub fn c12() {
    draw_heap();
    let t = plan(N_TYPES as u64 - 1);
    earlier(t);
    for_type!(t, written());
}
fn written<const N: usize, P: SimPoint<N>>() {
    let rounds = 1 + plan(2);
    let mut jobs = vec![];
    for _ in 0..rounds {
        let n = cap::<N>(draw_size(if N > 8 { 60 } else { 400 }, N <= 4));
        let pts = draw_points::<N, P>(n);
        let w = WRITES[plan(WRITES.len() as u64 - 1) as usize];
        // an interruption before it: a callback that panics or an allocation that fails
        let fault = if fchance(1, 4) { Some((fchance(1, 2), 1 + fdraw(12), WRITES[plan(WRITES.len() as u64 - 1) as usize])) } else { None };
        jobs.push((pts, w, fault));
    }
    nontrivial();
    maybe_scheduled(move || {
        for (pts, w, fault) in jobs {
            if let Some((panics, at, fw)) = fault {
                if panics {
                    arm_panic(at);
                } else {
                    heap::arm_failure(at, 0);
                }
                let few = &pts[..pts.len().min(20)];
                let r = write::<N, P>(fw, few);
                disarm_panic();
                heap::disarm();
                match r {
                    Err(Stop::Panic(p)) => fail("written:panic", &format!("an interrupted {fw:?} panics: {p}")),
                    Err(_) => shared::probe("fault:write interrupted"),
                    // what is returned all the same must be complete
                    Ok(Ok(m)) => inspect::<N, P>(m, few, fw),
                    Ok(Err(_)) => {}
                }
            }
            log!("{w:?} of {} points of {}", pts.len(), P::NAME);
            let m = write_ok::<N, P>(w, &pts);
            inspect::<N, P>(m, &pts, w);
        }
        heap::check_all();
    });
}
fn inspect<const N: usize, P: SimPoint<N>>(m: PointCloud2Msg, pts: &[Bits<N>], w: Write) {
    let m = export(m);
    let spec = P::SPEC;
    if let Err(e) = well_formed::<N>(&m, &spec, pts.len()) {
        fail("written:malformed", &format!("{w:?} of {} points of {}: {e}; {}", pts.len(), P::NAME, describe(&m)));
    }
    match decode_strict::<N>(&m, &spec) {
        Ok(v) => {
            if v != pts {
                fail("written:points", &format!("{w:?} of {}: by the definition {}; {}", P::NAME, first_diff(&v, pts), describe(&m)));
            }
        }
        Err(e) => fail("written:malformed", &format!("{w:?} of {} points of {}: {e}; {}", pts.len(), P::NAME, describe(&m))),
    }
}
