//! C04: a simulated ROS network. Publishers, bridges, relays and subscribers on lossy links, clocks
//! that jump, nodes that crash; the messages travel as the real message structs of each ROS library.
use crate::common::*;
use crate::model::*;
use crate::types::*;
use byteorder::{BigEndian, LittleEndian};
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{Denseness, Endian, PointCloud2MsgBuilder};
use simcore::heap::{self, harness, tracked};
use simcore::run::{fail, sut, Stop};
use simcore::{log, shared};
use std::collections::BTreeMap;

type Jazzy = ros2_interfaces_jazzy::sensor_msgs::msg::PointCloud2;
type R2r = r2r::sensor_msgs::msg::PointCloud2;
type Ros1 = rosrust_msg::sensor_msgs::PointCloud2;

/// What everybody must see of a cloud, whatever it is wrapped in.
#[derive(Clone, PartialEq, Debug)]
struct Meta {
    /// None once a message type without sequence numbers was on the way
    seq: Option<u32>,
    sec: i32,
    nanosec: u32,
    frame: String,
    width: u32,
    height: u32,
    fields: Vec<(String, u32, u8, u32)>,
    big: bool,
    step: u32,
    row: u32,
    data: Vec<u8>,
    dense: bool,
}
fn meta_of(m: &PointCloud2Msg) -> Meta {
    Meta {
        seq: Some(m.header.seq),
        sec: m.header.stamp.sec,
        nanosec: m.header.stamp.nanosec,
        frame: m.header.frame_id.clone(),
        width: m.dimensions.width,
        height: m.dimensions.height,
        fields: m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
        big: matches!(m.endian, Endian::Big),
        step: m.point_step,
        row: m.row_step,
        data: m.data.clone(),
        dense: matches!(m.dense, Denseness::Dense),
    }
}
/// The first difference, if there is one.
fn differs(got: &Meta, want: &Meta) -> Option<String> {
    macro_rules! cmp {
        ($($f:ident $n:literal),*) => { $( if got.$f != want.$f { return Some(format!("{} is {:?} instead of {:?}", $n, got.$f, want.$f)); } )* };
    }
    if let (Some(a), Some(b)) = (got.seq, want.seq) {
        if a != b {
            return Some(format!("the sequence number is {a} instead of {b}"));
        }
    }
    cmp!(sec "the seconds of the stamp", nanosec "the nanoseconds of the stamp", frame "the frame", width "the width", height "the height",
         fields "the field list", big "the big endian flag", step "the point step", row "the row step", dense "the dense flag");
    if got.data.len() != want.data.len() {
        return Some(format!("the data is {} bytes long instead of {}", got.data.len(), want.data.len()));
    }
    let i = (0..got.data.len()).find(|i| got.data[*i] != want.data[*i])?;
    Some(format!("data byte {i} is {:#x} instead of {:#x}", got.data[i], want.data[i]))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Jazzy,
    R2r,
    Ros1,
}
const KINDS: [Kind; 3] = [Kind::Jazzy, Kind::R2r, Kind::Ros1];

/// What is on the wire.
#[derive(Clone)]
enum Wire {
    Jazzy { cdr: Vec<u8>, big: bool },
    R2r(R2r),
    Ros1(Ros1),
}
macro_rules! ros2_meta {
    ($m:expr) => {
        Meta {
            seq: None,
            sec: $m.header.stamp.sec,
            nanosec: $m.header.stamp.nanosec,
            frame: $m.header.frame_id.clone(),
            width: $m.width,
            height: $m.height,
            fields: $m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
            big: $m.is_bigendian,
            step: $m.point_step,
            row: $m.row_step,
            data: $m.data.clone(),
            dense: $m.is_dense,
        }
    };
}
fn ros1_meta(m: &Ros1) -> Meta {
    Meta {
        seq: Some(m.header.seq),
        sec: m.header.stamp.sec as i32,
        nanosec: m.header.stamp.nsec,
        frame: m.header.frame_id.clone(),
        width: m.width,
        height: m.height,
        fields: m.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect(),
        big: m.is_bigendian,
        step: m.point_step,
        row: m.row_step,
        data: m.data.clone(),
        dense: m.is_dense,
    }
}
fn cdr(m: &Jazzy, big: bool) -> Vec<u8> {
    let r = if big { cdr_encoding::to_vec::<_, BigEndian>(m) } else { cdr_encoding::to_vec::<_, LittleEndian>(m) };
    match r {
        Ok(v) => v,
        Err(e) => simcore::run::harness_error(&format!("cdr: {e:?}")),
    }
}
fn uncdr(b: &[u8], big: bool) -> Jazzy {
    let r = if big { cdr_encoding::from_bytes::<Jazzy, BigEndian>(b) } else { cdr_encoding::from_bytes::<Jazzy, LittleEndian>(b) };
    match r {
        Ok(v) => v.0,
        Err(e) => simcore::run::harness_error(&format!("cdr: {e:?}")),
    }
}

/// The node gives its message to a publisher of this kind. None: the node crashed while it did.
fn send(kind: Kind, m: PointCloud2Msg, meta: &mut Meta, who: &str) -> Option<Wire> {
    let what = || format!("{who} sends {kind:?}");
    macro_rules! conv {
        ($t:ty) => {
            match sut("convert to a ROS message", move || <$t>::from(m)) {
                Ok(x) => x,
                Err(Stop::AllocFailed) => return None,
                Err(s) => fail("hop:panic", &format!("{}: {s:?}", what())),
            }
        };
    }
    let (w, seen) = match kind {
        Kind::Jazzy => {
            let x = conv!(Jazzy);
            let seen = ros2_meta!(x);
            let big = fchance(1, 3);
            let b = cdr(&x, big);
            let _ = sut("drop a ROS message", move || drop(x));
            (Wire::Jazzy { cdr: b, big }, seen)
        }
        Kind::R2r => {
            let x = conv!(R2r);
            let seen = ros2_meta!(x);
            let c = x.clone();
            let _ = sut("drop a ROS message", move || drop(x));
            (Wire::R2r(c), seen)
        }
        Kind::Ros1 => {
            let x = conv!(Ros1);
            let seen = ros1_meta(&x);
            let c = x.clone();
            let _ = sut("drop a ROS message", move || drop(x));
            (Wire::Ros1(c), seen)
        }
    };
    if let Some(d) = differs(&seen, meta) {
        fail("hop:changed", &format!("{}: {d}", what()));
    }
    if kind != Kind::Ros1 {
        meta.seq = None;
    }
    Some(w)
}
/// A node gets a message from its ROS library and turns it into the library's message.
fn receive(w: &Wire, meta: &Meta, who: &str) -> Option<PointCloud2Msg> {
    macro_rules! conv {
        ($x:expr) => {{
            let x = $x;
            match sut("convert from a ROS message", move || PointCloud2Msg::from(x)) {
                Ok(m) => m,
                Err(Stop::AllocFailed) => return None,
                Err(s) => fail("hop:panic", &format!("{who} receives: {s:?}")),
            }
        }};
    }
    let m = match w {
        Wire::Jazzy { cdr, big } => {
            let x = tracked(|| uncdr(cdr, *big));
            // a node that looks at the header only
            let hd = HeaderMsg::from(x.header.clone());
            let ts = TimeMsg::from(x.header.stamp.clone());
            header_seen(&hd, &ts, meta, who);
            conv!(x)
        }
        Wire::R2r(x) => conv!(tracked(|| x.clone())),
        Wire::Ros1(x) => {
            let ts = TimeMsg::from(x.header.stamp);
            if (ts.sec, ts.nanosec) != (meta.sec, meta.nanosec) {
                fail("hop:header", &format!("{who} reads stamp {}.{} instead of {}.{}", ts.sec, ts.nanosec, meta.sec, meta.nanosec));
            }
            conv!(tracked(|| x.clone()))
        }
    };
    let seen = meta_of(&m);
    if let Some(d) = differs(&seen, meta) {
        fail("hop:changed", &format!("{who} receives: {d}"));
    }
    Some(m)
}
fn header_seen(h: &HeaderMsg, t: &TimeMsg, meta: &Meta, who: &str) {
    if (h.stamp.sec, h.stamp.nanosec, &h.frame_id) != (meta.sec, meta.nanosec, &meta.frame) || (t.sec, t.nanosec) != (meta.sec, meta.nanosec) {
        fail(
            "hop:header",
            &format!("{who} reads header {:?} and stamp {:?} instead of {}.{} {:?}", h, t, meta.sec, meta.nanosec, meta.frame),
        );
    }
}

#[derive(Clone)]
struct Envelope<const N: usize> {
    id: usize,
    meta: Meta,
    pts: Vec<Bits<N>>,
    /// its publisher describes it in a way no reader has to accept
    odd: bool,
    wire: Wire,
}
#[derive(Clone, Debug)]
enum Role {
    Publisher,
    /// forwards what it gets, as the library's message
    Bridge,
    /// reads the points and publishes them anew
    Relay,
    Subscriber,
}
struct Node {
    role: Role,
    up: bool,
    /// this node's clock minus the true time, microseconds
    clock: i64,
    delay: u64,
    out: Vec<usize>,
    kind: Kind,
}
enum Event<const N: usize> {
    Publish(usize),
    Deliver(usize, Envelope<N>),
    Crash(usize),
    Restart(usize),
    Partition(usize),
    Heal(usize),
    ClockJump(usize),
}

pub fn c04() {
    draw_heap();
    let t = plan(N_TYPES as u64 - 1);
    earlier(t);
    for_type!(t, network());
}

fn network<const N: usize, P: SimPoint<N>>() {
    // a chain or a small tree: publisher(s) -> bridges and relays -> subscriber(s)
    let hops = plan(3) as usize;
    let subs = 1 + plan(1) as usize;
    let pubs = 1 + plan(1) as usize;
    let mut nodes: Vec<Node> = vec![];
    let kind = || KINDS[plan(2) as usize];
    for _ in 0..pubs {
        nodes.push(Node { role: Role::Publisher, up: true, clock: 0, delay: 0, out: vec![], kind: kind() });
    }
    for _ in 0..hops {
        let role = if pchance(1, 4) { Role::Relay } else { Role::Bridge };
        nodes.push(Node { role, up: true, clock: 0, delay: plan(20_000), out: vec![], kind: kind() });
    }
    for _ in 0..subs {
        nodes.push(Node { role: Role::Subscriber, up: true, clock: 0, delay: 0, out: vec![], kind: Kind::Jazzy });
    }
    let first = pubs;
    for i in 0..pubs {
        nodes[i].out = if hops > 0 { vec![first] } else { (first..first + subs).collect() };
    }
    for i in 0..hops {
        let me = first + i;
        let mut out = if i + 1 < hops { vec![me + 1] } else { (first + hops..first + hops + subs).collect() };
        // a direct tap for a subscriber
        if i + 1 < hops && pchance(1, 4) {
            out.push(first + hops);
        }
        nodes[me].out = out;
    }
    for n in &nodes {
        log!("{:?} sending {:?} to {:?}", n.role, n.kind, n.out);
    }
    // the life of the network
    let sends = 1 + plan(4) as usize;
    let mut life: Vec<(u64, Event<N>)> = vec![];
    let mut t = 0;
    for _ in 0..sends {
        t += 1 + plan(100_000);
        life.push((t, Event::Publish(plan(pubs as u64 - 1) as usize)));
    }
    let end = t;
    let faults = fdraw(4);
    for _ in 0..faults {
        let at = fdraw(end);
        let who = fdraw(nodes.len() as u64 - 1) as usize;
        match fdraw(2) {
            0 => {
                life.push((at, Event::Crash(who)));
                life.push((at + 1 + fdraw(60_000), Event::Restart(who)));
            }
            1 => {
                life.push((at, Event::Partition(who)));
                life.push((at + 1 + fdraw(60_000), Event::Heal(who)));
            }
            _ => life.push((at, Event::ClockJump(who))),
        }
    }
    // after all faults have ended one more cloud must get through everywhere
    let quiet = life.iter().map(|e| e.0).max().unwrap_or(0) + 100_000;
    life.push((quiet, Event::Publish(0)));
    let body = move || run_network::<N, P>(nodes, life, quiet, sends + 1);
    if pchance(1, 3) {
        draw_pool();
        scheduled(pchance(1, 4), body)
    } else {
        body()
    }
}

fn run_network<const N: usize, P: SimPoint<N>>(mut nodes: Vec<Node>, life: Vec<(u64, Event<N>)>, quiet: u64, _sends: usize) {
    let mut q: BTreeMap<(u64, u64), Event<N>> = BTreeMap::new();
    let mut order = 0u64;
    for (t, e) in life {
        q.insert((t, order), e);
        order += 1;
    }
    let mut cut = vec![false; nodes.len()];
    let mut next_id = 0;
    let mut last_id = usize::MAX;
    let mut delivered = 0usize;
    let mut got_last = vec![false; nodes.len()];
    let mut now = 0;
    while let Some((&(t, o), _)) = q.iter().next() {
        let e = q.remove(&(t, o)).unwrap();
        now = t;
        let calm = t >= quiet;
        // outgoing messages of this event: (from, envelope)
        let mut outbox: Vec<(usize, Envelope<N>)> = vec![];
        match e {
            Event::Crash(n) => {
                if nodes[n].up {
                    nodes[n].up = false;
                    shared::probe("fault:node crashed");
                    log!("t={t} node {n} crashes");
                }
            }
            Event::Restart(n) => {
                nodes[n].up = true;
                nodes[n].clock = 0;
            }
            Event::Partition(n) => {
                cut[n] = true;
                shared::probe("fault:node partitioned");
                log!("t={t} node {n} is cut off");
            }
            Event::Heal(n) => cut[n] = false,
            Event::ClockJump(n) => {
                let j = match fdraw(4) {
                    0 => -(fdraw(1 << 30) as i64) * 1_000_000,
                    1 => fdraw(1 << 31) as i64 * 1_000_000,
                    2 => i32::MAX as i64 * 1_000_000 + 999_999,
                    3 => i32::MIN as i64 * 1_000_000,
                    _ => fdraw(2_000_000) as i64 - 1_000_000,
                };
                nodes[n].clock = j;
                shared::probe("fault:clock jump");
            }
            Event::Publish(n) => {
                if !nodes[n].up {
                    shared::probe("publisher was down");
                    continue;
                }
                let id = next_id;
                next_id += 1;
                if calm {
                    last_id = id;
                }
                let (mut m, pts) = new_cloud::<N, P>();
                // stamped by the clock of the node
                let us = t as i64 + nodes[n].clock;
                m.header = harness(draw_header);
                if plan(2) > 0 {
                    m.header.stamp = TimeMsg { sec: us.div_euclid(1_000_000) as i32, nanosec: (us.rem_euclid(1_000_000) * 1000) as u32 };
                }
                m.header.seq = if plan(3) == 0 { u32::MAX } else { id as u32 };
                let odd = pchance(1, 7);
                if odd {
                    misdescribe(&mut m);
                }
                let mut meta = meta_of(&m);
                log!("t={t} node {n} publishes cloud {id}: {} stamp {}.{}", describe(&m), meta.sec, meta.nanosec);
                let inp = input(&m);
                if let Some(w) = send(nodes[n].kind, inp, &mut meta, &format!("publisher {n}")) {
                    outbox.push((n, Envelope { id, meta, pts, odd, wire: w }));
                }
            }
            Event::Deliver(n, env) => {
                if !nodes[n].up || cut[n] {
                    shared::probe("fault:lost at a node that is down");
                    continue;
                }
                nontrivial();
                // the node may run out of memory while it handles the message: it crashes
                let oom = t + 60_000 < quiet && fchance(1, 20);
                if oom {
                    heap::arm_failure(1 + fdraw(3), 0);
                }
                let who = format!("{:?} {n}", nodes[n].role).to_lowercase();
                let m = receive(&env.wire, &env.meta, &who);
                let mut died = m.is_none();
                if let Some(m) = m {
                    match nodes[n].role {
                        Role::Publisher => {}
                        Role::Bridge => {
                            let mut meta = env.meta.clone();
                            match send(nodes[n].kind, m, &mut meta, &who) {
                                Some(w) => outbox.push((n, Envelope { meta, wire: w, ..env.clone() })),
                                None => died = true,
                            }
                        }
                        Role::Relay | Role::Subscriber => {
                            heap::disarm();
                            let c = harness(|| m.clone());
                            let _ = sut("drop message", move || drop(m));
                            if env.odd {
                                shared::probe("misdescribed cloud delivered");
                            } else {
                                read_back::<N, P>(&c, &env, &who);
                            }
                            if let Role::Relay = nodes[n].role {
                                let wr = WRITES[plan(WRITES.len() as u64 - 1) as usize];
                                let mut fresh = export(write_ok::<N, P>(wr, &env.pts));
                                fresh.header = c.header.clone();
                                let mut meta = meta_of(&fresh);
                                meta.seq = env.meta.seq;
                                let inp = input(&fresh);
                                match send(nodes[n].kind, inp, &mut meta, &who) {
                                    Some(w) => outbox.push((n, Envelope { meta, wire: w, odd: false, ..env.clone() })),
                                    None => died = true,
                                }
                            } else {
                                delivered += 1;
                                log!("t={t} {who} reads cloud {} of {} points", env.id, env.pts.len());
                                if env.id == last_id {
                                    got_last[n] = true;
                                }
                            }
                        }
                    }
                }
                heap::disarm();
                if died {
                    shared::probe("fault:node out of memory");
                    nodes[n].up = false;
                    q.insert((t + 1 + fdraw(30_000), order), Event::Restart(n));
                    order += 1;
                }
            }
        }
        for (from, env) in outbox {
            for to in nodes[from].out.clone() {
                if !calm && cut[from] {
                    shared::probe("fault:message lost");
                    continue;
                }
                if !calm && fchance(1, 10) {
                    shared::probe("fault:message lost");
                    continue;
                }
                let mut at = t + 1 + nodes[from].delay + fdraw(1000);
                if !calm && fchance(1, 5) {
                    at += fdraw(300_000);
                    shared::probe("fault:message delayed");
                }
                q.insert((at, order), Event::Deliver(to, env.clone()));
                order += 1;
                if !calm && fchance(1, 10) {
                    shared::probe("fault:message doubled");
                    q.insert((at + fdraw(200_000), order), Event::Deliver(to, env.clone()));
                    order += 1;
                }
            }
        }
    }
    shared::get().sim_time_us += now;
    if delivered > 0 {
        shared::probe_add("clouds delivered", delivered as u64);
    }
    for (i, n) in nodes.iter().enumerate() {
        if matches!(n.role, Role::Subscriber) && last_id != usize::MAX && !got_last[i] && n.up {
            fail("hop:lost", &format!("cloud {last_id}, published after all faults had ended, never reached subscriber {i}"));
        }
    }
    heap::check_all();
}

/// A new cloud of a node that uses the library, or of one that does not.
fn new_cloud<const N: usize, P: SimPoint<N>>() -> (PointCloud2Msg, Vec<Bits<N>>) {
    let n = cap::<N>(draw_size(if N > 8 { 40 } else { 160 }, false));
    let (mut m, pts) = if pchance(3, 5) {
        let pts = draw_points::<N, P>(n);
        let w = WRITES[plan(WRITES.len() as u64 - 1) as usize];
        log!("written with {w:?}");
        (export(write_ok::<N, P>(w, &pts)), pts)
    } else {
        draw_message::<N, P>(n)
    };
    // a node that puts its message together by hand
    let plain = m.dimensions.height == 1 && n > 0 && m.fields.iter().all(|f| f.count == 1 && (1..=8).contains(&f.datatype));
    let size: u64 = m.fields.iter().map(|f| dt_size(f.datatype) as u64).sum();
    if plain && size <= m.point_step as u64 && pchance(1, 3) {
        m.header = draw_header();
        m.dense = dense_of(pchance(1, 2));
        m = built(m);
    }
    // an organised cloud
    if m.dimensions.height <= 1 && pchance(1, 3) {
        let (w, h) = draw_rows(n);
        m.dimensions.width = w;
        m.dimensions.height = h;
        m.row_step = w * m.point_step;
    }
    if pchance(1, 2) {
        m.dense = dense_of(pchance(1, 2));
    }
    (m, pts)
}

/// A publisher that fills in parts of its message carelessly. What it sends may be unreadable;
/// it still has to arrive as it was sent.
fn misdescribe(m: &mut PointCloud2Msg) {
    let f = plan(m.fields.len().max(1) as u64 - 1) as usize;
    match plan(13) {
        0 => m.row_step = 0,
        1 => m.row_step = m.row_step.wrapping_add(1 + plan(64) as u32),
        2 => m.row_step = m.point_step,
        3 => m.dimensions = dims(m.dimensions.height, m.dimensions.width),
        4 => m.dimensions = dims(plan(3) as u32, 0),
        5 => {
            m.data.pop();
        }
        6 => m.data.extend([0xa5, 0, 1]),
        7 => m.fields.clear(),
        8 => {
            if let Some(f) = m.fields.get_mut(f) {
                f.datatype = [0, 9, 255][plan(2) as usize];
                f.count = [0, 1, 3, u32::MAX][plan(3) as usize];
            }
        }
        9 => {
            // described again, the same or another way
            if let Some(again) = m.fields.get(f) {
                let mut again = again.clone();
                if plan(1) > 0 {
                    again.offset = again.offset.wrapping_add(4);
                    again.datatype = 1 + again.datatype % 8;
                }
                let at = if plan(1) > 0 { f + 1 } else { plan(m.fields.len() as u64) as usize };
                m.fields.insert(at, again);
            }
        }
        10 => {
            if let Some(f) = m.fields.get_mut(f) {
                f.name.clear();
            }
        }
        11 => m.fields.reverse(),
        12 => m.point_step = [0, 1, m.point_step + 1, u32::MAX][plan(3) as usize],
        _ => {
            if let Some(f) = m.fields.get_mut(f) {
                f.offset = u32::MAX;
                f.name.push('\u{fc}');
            }
        }
    }
    shared::probe("misdescribed cloud published");
}

fn read_back<const N: usize, P: SimPoint<N>>(m: &PointCloud2Msg, env: &Envelope<N>, who: &str) {
    let k = 1 + plan(1);
    for _ in 0..k {
        let path = PATHS[plan(PATHS.len() as u64 - 1) as usize];
        match read::<N, P>(path, m) {
            Out::Ok(v) => {
                if v != env.pts {
                    fail("delivered:points", &format!("{who} reads cloud {} with {path:?} as {}: {}; {}", env.id, P::NAME, first_diff(&v, &env.pts), describe(m)));
                }
            }
            Out::Err { kind, .. } => fail("delivered:refused", &format!("{who} cannot read cloud {} with {path:?} as {}: {kind}; {}", env.id, P::NAME, describe(m))),
            Out::Stop(s) => fail("delivered:panic", &format!("{who} reading cloud {} with {path:?} as {}: {s:?}; {}", env.id, P::NAME, describe(m))),
        }
    }
}

/// The same message, made with the library's builder.
fn built(m: PointCloud2Msg) -> PointCloud2Msg {
    let want = meta_of(&m);
    let inp = input(&m);
    let b = sut("build a message", move || {
        PointCloud2MsgBuilder::new()
            .header(inp.header)
            .width(inp.dimensions.width)
            .fields(inp.fields)
            .endian(matches!(inp.endian, Endian::Big))
            .point_step(inp.point_step)
            .row_step(inp.row_step)
            .data(inp.data)
            .dense(matches!(inp.dense, Denseness::Dense))
            .build()
    });
    match b {
        Ok(Ok(x)) => {
            let c = harness(|| x.clone());
            let _ = sut("drop message", move || drop(x));
            if let Some(d) = differs(&meta_of(&c), &want) {
                fail("built:changed", &format!("a node builds {}: {d}", describe(&m)));
            }
            c
        }
        Ok(Err(e)) => fail("built:refused", &format!("a node builds {}: {}", describe(&m), err_of(e).0)),
        Err(s) => fail("built:panic", &format!("a node builds {}: {s:?}", describe(&m))),
    }
}
