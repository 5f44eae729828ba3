//! Shared by all workloads: drawing clouds and environments, calling the library, recording.
#![allow(dead_code)]
use crate::model::{encode, Bits, SField, Schema};
use crate::types::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};
use simcore::choice::{self, St};
use simcore::heap::{self, harness, tracked};
use simcore::rng::mix2;
use simcore::run::{self, fail, sut, Stop};
use simcore::{log, sched, shared};
use std::sync::atomic::Ordering::Relaxed;

pub const PLAN: St = St::Plan;
pub const SCHED: St = St::Sched;
pub const FAULT: St = St::Fault;

pub fn plan(max: u64) -> u64 {
    choice::draw(PLAN, max)
}
pub fn pchance(num: u64, den: u64) -> bool {
    choice::chance(PLAN, num, den)
}
pub fn pweighted(w: &[u64]) -> usize {
    choice::weighted(PLAN, w)
}
pub fn prange(lo: u64, hi: u64) -> u64 {
    choice::range(PLAN, lo, hi)
}
pub fn fdraw(max: u64) -> u64 {
    choice::draw(FAULT, max)
}
pub fn fchance(num: u64, den: u64) -> bool {
    choice::chance(FAULT, num, den)
}

/// The heap of this run.
pub fn draw_heap() {
    let placement = pweighted(&[3, 2, 1]) as u32;
    let fill = plan(u32::MAX as u64);
    let slack = pchance(1, 2);
    heap::configure(placement, fill, slack);
    shared::probe(["heap:guard page after blocks", "heap:guard page before blocks", "heap:canaries only"][placement as usize]);
}

pub struct SizeProfile {
    pub max_small: u64,
    pub big: bool,
}
/// A cloud size. Small numbers are likely; thousands of points, and more than 2^16, are possible.
/// Points of very many fields come in smaller clouds.
pub fn cap<const N: usize>(n: usize) -> usize {
    if N > 8 && n > 2500 {
        500 + n % 2000
    } else {
        n
    }
}
pub fn draw_size(max: u64, huge: bool) -> usize {
    let n = match pweighted(&[24, 36, 36, 24, 12, if huge { 5 } else { 1 }]) {
        0 => plan(3.min(max)),
        1 => plan(16.min(max)),
        2 => plan(80.min(max)),
        3 => plan(300.min(max)),
        4 => plan(max),
        _ => {
            let far = plan(23);
            if far < 3 {
                65_500 + plan(600)
            } else if far == 3 && huge {
                // parts that begin, end and are longer than 2^16
                131_000 + plan(70_000)
            } else {
                let top = 256u64 << plan(5);
                (top / 2 + plan(top / 2)).max(max.min(300))
            }
        }
    };
    if n == 0 {
        shared::probe("cloud: empty");
    } else if n == 1 {
        shared::probe("cloud: one point");
    } else if n > 1000 && n < 65_500 {
        shared::probe("cloud: thousands of points");
    } else if n > 65_535 {
        shared::probe("cloud: more than 65535 points");
    }
    if n > 3000 {
        // guard pages would take too long
        heap::configure(2, n, false);
    }
    n as usize
}

fn special(dt: u8, k: u64) -> u64 {
    match dt {
        F32 => [0x7FC0_0001, 0xFFC1_2345, 0x7F80_0000, 0xFF80_0000, 0x8000_0000, 1, 0x7F7F_FFFF, 0x7F80_0001, 0, 0x3F80_0000][(k % 10) as usize],
        F64 => [
            0x7FF8_0000_0000_0001,
            0xFFF8_1234_5678_9ABC,
            0x7FF0_0000_0000_0000,
            0x8000_0000_0000_0000,
            1,
            0x7FEF_FFFF_FFFF_FFFF,
            0xFFF0_0000_0000_0000,
            0x7FF0_0000_0000_0001,
            0,
            0x3FF0_0000_0000_0000,
        ][(k % 10) as usize],
        _ => [0, u64::MAX, 1, 0x8080_8080_8080_8080, 0x7F7F_7F7F_7F7F_7F7F, 0x00FF_00FF_00FF_00FF, 2, 0x0102_0304_0506_0708][(k % 8) as usize],
    }
}
#[derive(Clone, Copy)]
pub struct Values {
    pub mode: u64,
    pub salt: u64,
}
pub fn draw_values() -> Values {
    // now and then a cloud of equal, or of a few different points
    let mode = pweighted(&[8, 16, 12, 1, 2]) as u64;
    let salt = if mode == 0 { 0 } else { plan(u32::MAX as u64) };
    Values { mode, salt }
}
pub fn value(v: Values, i: usize, f: usize, dt: u8) -> u64 {
    let h = mix2(v.salt, (i as u64) << 8 | f as u64);
    let raw = match v.mode {
        0 => {
            let k = (i * 10 + f + 1) as u64;
            match dt {
                F32 => (k as f32).to_bits() as u64,
                F64 => (k as f64).to_bits(),
                _ => k,
            }
        }
        1 => h,
        3 => {
            if v.salt % 2 == 0 {
                0
            } else {
                special(dt, v.salt >> 1)
            }
        }
        4 => {
            let k = mix2(v.salt, i as u64) % 3;
            mix2(v.salt ^ k, f as u64)
        }
        _ => {
            if h % 3 == 0 {
                special(dt, h >> 8)
            } else {
                h >> 3
            }
        }
    };
    raw & dt_mask(dt)
}
pub fn draw_points<const N: usize, P: SimPoint<N>>(n: usize) -> Vec<Bits<N>> {
    let v = draw_values();
    points_of::<N, P>(n, v)
}
pub fn points_of<const N: usize, P: SimPoint<N>>(n: usize, v: Values) -> Vec<Bits<N>> {
    let spec = P::SPEC;
    (0..n)
        .map(|i| {
            let mut b = [0; N];
            for f in 0..N {
                b[f] = value(v, i, f, spec[f].1);
            }
            b
        })
        .collect()
}
/// Real points in the checked heap.
pub fn make_vec<const N: usize, P: SimPoint<N>>(b: &[Bits<N>]) -> Vec<P> {
    tracked(|| b.iter().map(|x| P::make(*x)).collect())
}
pub fn bits_vec<const N: usize, P: SimPoint<N>>(v: &[P]) -> Vec<Bits<N>> {
    harness(|| v.iter().map(|p| p.bits()).collect())
}

/// The message layout C gives the struct (what a C++ publisher with PCL-like structs sends).
pub fn c_schema<const N: usize, P: SimPoint<N>>() -> Schema {
    let spec = P::SPEC;
    let mut o = 0u32;
    let mut fields = vec![];
    for (k, (name, dt)) in spec.iter().enumerate() {
        let sz = dt_size(*dt) as u32;
        o = o.div_ceil(sz) * sz;
        fields.push(SField { name: name.to_string(), dt: *dt, offset: o, count: 1, src: Some(k) });
        o += sz;
    }
    Schema { fields, step: (o as usize).max(1) as u32, big: false, junk: 0 }
}
/// A name that is close to this one and yet another.
pub fn similar_name(n: &str, st: St) -> String {
    let d = |max: u64| choice::draw(st, max);
    let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
    let cs: Vec<char> = n.chars().collect();
    let out: String = match d(13) {
        0 => format!("{n}_"),
        1 => format!("_{n}"),
        2 => cs.iter().map(|c| flip(*c)).collect(),
        3 if !cs.is_empty() => {
            let k = d(cs.len() as u64 - 1) as usize;
            cs.iter().enumerate().map(|(i, c)| if i == k { flip(*c) } else { *c }).collect()
        }
        4 => format!("{n} "),
        5 => format!(" {n}"),
        6 => format!("{n}\0"),
        7 if cs.len() > 1 => cs[..cs.len() - 1].iter().collect(),
        8 if cs.len() > 1 => cs[1..].iter().collect(),
        9 => format!("{n}{n}"),
        10 => format!("{n}{}", d(9)),
        11 if cs.len() > 1 => cs.iter().rev().collect(),
        12 => String::new(),
        _ => format!("/{n}"),
    };
    if out == n {
        format!("{n}~")
    } else {
        out
    }
}
/// `room`: there are so few points that each may be long.
/// Any schema a publisher in a mixed fleet may use: order, gaps, extra fields, padding, byte order.
/// Every field of the reader is present with its datatype unless dropped.
pub fn draw_schema<const N: usize, P: SimPoint<N>>(room: bool) -> Schema {
    let spec = P::SPEC;
    let style = pweighted(&[2, 2, 2, 5, 3, 2]);
    let mut s = c_schema::<N, P>();
    match style {
        // exactly what the library writes from a vector: the memory layout of the struct
        0 => {
            if let Some(n) = native_schema::<N, P>() {
                s = n;
            }
        }
        // packed in order
        1 => {
            let mut o = 0;
            for f in s.fields.iter_mut() {
                f.offset = o;
                o += dt_size(f.dt) as u32;
            }
            s.step = o;
        }
        2 => {}
        // what a description of fields and the gaps in front of them adds up to
        5 => {
            if std::mem::size_of::<P>() > 0 {
                s = summed_schema::<N, P>();
            }
        }
        // the memory layout of the struct but for one detail
        4 => {
            if let Some(n) = native_schema::<N, P>() {
                s = n;
            }
            near_miss(&mut s);
        }
        _ => {
            // free: order, gaps, extra fields
            let mut fs: Vec<SField> = spec
                .iter()
                .enumerate()
                .map(|(k, (n, dt))| SField { name: n.to_string(), dt: *dt, offset: 0, count: 1, src: Some(k) })
                .collect();
            // a description of hundreds of fields
            let crowd = room && pchance(1, 40);
            let extra = if crowd { 250 + plan(20) } else { pweighted(&[4, 3, 2, 1]) as u64 };
            if crowd {
                shared::probe("schema: more than 250 fields");
            }
            for x in 0..extra {
                let dt = prange(1, 8) as u8;
                let near = plan(N as u64 - 1) as usize;
                // names close to the wanted ones
                let name = match plan(2) {
                    _ if crowd => format!("extra{x}"),
                    0 => format!("extra{x}"),
                    _ => similar_name(spec[near].0, PLAN),
                };
                // arrays, empty fields and datatypes this reader does not know belong to others
                let (dt, count) = match pweighted(&[8, 1, 1, 1]) {
                    1 => (dt, 2 + plan(40) as u32),
                    2 => (dt, 0),
                    3 => ([0, 9, 10, 127, 128, 255][plan(5) as usize], 1),
                    _ => (dt, 1),
                };
                if dt == 0 || dt > 8 || count != 1 {
                    shared::probe("schema: extra field of another kind");
                }
                if fs.iter().any(|f| f.name == name) {
                    continue;
                }
                let at = plan(fs.len() as u64) as usize;
                fs.insert(at, SField { name, dt, offset: 0, count, src: None });
            }
            if pchance(1, 2) {
                for i in (1..fs.len()).rev() {
                    let j = i - plan(i as u64) as usize;
                    fs.swap(i, j);
                }
            }
            // memory order may differ from the order of description
            let mut mem: Vec<usize> = (0..fs.len()).collect();
            if pchance(1, 3) {
                for i in (1..mem.len()).rev() {
                    let j = i - plan(i as u64) as usize;
                    mem.swap(i, j);
                }
            }
            let aligned = pchance(1, 2);
            let mut o = 0u32;
            for &i in &mem {
                let sz = (dt_size(fs[i].dt) as u32).max(1);
                if !(crowd && fs[i].src.is_none()) {
                    o += pweighted(&[5, 1, 1, 1, 1]) as u32;
                }
                if aligned {
                    o = o.div_ceil(sz) * sz;
                }
                if pchance(1, 24) {
                    o += 250;
                }
                if room && pchance(1, 60) {
                    o += 65_530 + plan(9) as u32;
                    shared::probe("schema: offsets beyond 65535");
                }
                fs[i].offset = o;
                o += sz * fs[i].count;
            }
            s.fields = fs;
            s.step = o;
        }
    }
    if pchance(1, 3) {
        s.step += prange(1, 20) as u32;
    }
    s.big = pchance(1, 3);
    s.junk = if pchance(1, 2) { 1 + plan(1 << 20) } else { 0 };
    if s.big {
        shared::probe("schema: big endian");
    }
    s
}
/// The declaration as a running sum of gaps and sizes: the memory layout for structs laid out in
/// declaration order, and a publisher's own business for all others.
pub fn summed_schema<const N: usize, P: SimPoint<N>>() -> Schema {
    let (mut o, mut end) = (0u32, 0u32);
    let mut fields = vec![];
    for k in 0..N {
        let at = P::OFFSETS[k] as u32;
        let sz = dt_size(P::SPEC[k].1) as u32;
        o += at.saturating_sub(end);
        fields.push(SField { name: P::SPEC[k].0.to_string(), dt: P::SPEC[k].1, offset: o, count: 1, src: Some(k) });
        o += sz;
        end = at + sz;
    }
    let size = std::mem::size_of::<P>() as u32;
    o += size.saturating_sub(end);
    if o != size {
        shared::probe("schema: the sum of a reordered declaration");
    }
    Schema { fields, step: o.max(1), big: false, junk: 0 }
}
/// One detail that sets a publisher's layout apart from the reader's.
fn near_miss(s: &mut Schema) {
    let n = s.fields.len();
    let i = plan(n as u64 - 1) as usize;
    let j = plan(n as u64 - 1) as usize;
    match plan(6) {
        // space in front of a field
        0 => {
            let by = prange(1, 9) as u32;
            let from = s.fields[i].offset;
            s.fields.iter_mut().filter(|f| f.offset >= from).for_each(|f| f.offset += by);
            s.step += by;
        }
        // two fields of one size trade places in memory
        1 if dt_size(s.fields[i].dt) == dt_size(s.fields[j].dt) => {
            let o = s.fields[i].offset;
            s.fields[i].offset = s.fields[j].offset;
            s.fields[j].offset = o;
        }
        // or in the description
        2 => s.fields.swap(i, j),
        // a field more
        3 | 4 => {
            let dt = prange(1, 8) as u8;
            let name = similar_name(&s.fields[i].name.clone(), PLAN);
            if !s.fields.iter().any(|f| f.name == name) {
                let offset = s.step;
                s.step += dt_size(dt) as u32;
                let at = if pchance(1, 2) { n } else { j };
                s.fields.insert(at, SField { name, dt, offset, count: 1, src: None });
            }
        }
        // a field at the end of the point
        5 => {
            let sz = dt_size(s.fields[i].dt) as u32;
            s.fields[i].offset = s.step;
            s.step += sz;
        }
        _ => s.step += prange(1, 64) as u32,
    }
}
/// The layout the type itself declares, as a schema (the raw copy paths trigger on it).
pub fn native_schema<const N: usize, P: SimPoint<N>>() -> Option<Schema> {
    let fields = (0..N)
        .map(|k| SField { name: P::SPEC[k].0.to_string(), dt: P::SPEC[k].1, offset: P::OFFSETS[k] as u32, count: 1, src: Some(k) })
        .collect();
    Some(Schema { fields, step: std::mem::size_of::<P>() as u32, big: false, junk: 0 })
}

/// Overwrites the bytes no field covers (copied struct padding is not defined and differs per build).
pub fn scrub(m: &mut PointCloud2Msg) {
    let step = m.point_step as usize;
    if step == 0 {
        return;
    }
    let mut used = vec![false; step];
    for f in &m.fields {
        for k in 0..dt_size(f.datatype) {
            if let Some(u) = used.get_mut(f.offset as usize + k) {
                *u = true;
            }
        }
    }
    for (i, b) in m.data.iter_mut().enumerate() {
        if !used[i % step] {
            *b = 0;
        }
    }
}

pub fn draw_header() -> HeaderMsg {
    let sec = match pweighted(&[3, 2, 1, 1, 1, 1]) {
        0 => plan(1000) as i32,
        1 => 1_700_000_000 + plan(1_000_000) as i32,
        2 => -(plan(1000) as i32) - 1,
        3 => i32::MAX - plan(2) as i32,
        4 => i32::MIN + plan(2) as i32,
        _ => plan(u32::MAX as u64) as u32 as i32,
    };
    let nanosec = match pweighted(&[2, 2, 1, 1, 1]) {
        0 => plan(1000) as u32,
        1 => plan(999_999_999) as u32,
        2 => u32::MAX - plan(3) as u32,
        3 => 999_999_998 + plan(4) as u32,
        _ => plan(u32::MAX as u64) as u32,
    };
    let frame = match pweighted(&[3, 1, 1, 1, 6]) {
        0 => "lidar".to_string(),
        1 => String::new(),
        2 => "map/föß/\u{1F680}".to_string(),
        3 => "f".repeat(1 + plan(300) as usize),
        _ => {
            const ODD: [&str; 18] = [
                "/", "/velodyne", "//robot1//os_sensor", "velodyne/", " lidar", "lidar ", "\tlidar\n", "LiDAR_Link", "lidar\0", "\0", "~lidar",
                "./a/../b", "base link", "0", "null", "\"q\\", "\u{FEFF}map", "e\u{301}",
            ];
            ODD[plan(ODD.len() as u64 - 1) as usize].to_string()
        }
    };
    let seq = match pweighted(&[4, 1, 1, 1]) {
        0 => plan(u32::MAX as u64) as u32,
        1 => 0,
        2 => u32::MAX,
        _ => 1 << plan(31),
    };
    HeaderMsg { seq, stamp: TimeMsg { sec, nanosec }, frame_id: frame }
}

pub fn msg_digest(m: &PointCloud2Msg) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    let s = format!(
        "{:?}|{:?}|{:?}|{:?}|{}|{}|{:?}",
        m.header, m.dimensions, m.fields, m.endian, m.point_step, m.row_step, m.dense
    );
    shared::fnv(&mut h, s.as_bytes());
    shared::fnv(&mut h, &m.data);
    h
}
pub fn describe(m: &PointCloud2Msg) -> String {
    let fs: Vec<String> = m.fields.iter().map(|f| format!("{}:{}@{}x{}", f.name, f.datatype, f.offset, f.count)).collect();
    format!(
        "{}x{} step {} row {} {:?} data {} fields [{}]",
        m.dimensions.width,
        m.dimensions.height,
        m.point_step,
        m.row_step,
        m.endian,
        m.data.len(),
        fs.join(" ")
    )
}
/// A copy of the message in the checked heap.
pub fn input(m: &PointCloud2Msg) -> PointCloud2Msg {
    tracked(|| {
        let mut c = m.clone();
        // exactly as long as its contents, so that the block ends where the data ends
        c.data = c.data.into_boxed_slice().into_vec();
        c
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out<const N: usize> {
    Ok(Vec<Bits<N>>),
    Err { kind: String, missing: Option<Vec<String>> },
    Stop(Stop),
}
pub fn err_of(e: MsgConversionError) -> (String, Option<Vec<String>>) {
    let r = harness(|| {
        let kind = match &e {
            MsgConversionError::FieldsNotFound(v) => {
                let mut v: Vec<String> = v.iter().map(|s| s.as_str().to_owned()).collect();
                v.sort();
                ("FieldsNotFound".to_string(), Some(v))
            }
            o => (format!("{o:?}").chars().take(80).collect(), None),
        };
        kind
    });
    drop(e);
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Path {
    Vec,
    Iter,
    IterNext,
    Direct,
    #[cfg(feature = "par")]
    Par,
    #[cfg(feature = "par")]
    ParIndexed,
    #[cfg(feature = "par")]
    DirectRev,
    /// split at a drawn place first
    Split,
}
#[cfg(feature = "par")]
pub const PATHS: [Path; 8] =
    [Path::Vec, Path::Iter, Path::IterNext, Path::Direct, Path::Par, Path::ParIndexed, Path::DirectRev, Path::Split];
#[cfg(not(feature = "par"))]
pub const PATHS: [Path; 5] = [Path::Vec, Path::Iter, Path::IterNext, Path::Direct, Path::Split];

/// Steps an operation over this much data may take. Measured cost is below a tenth of it.
pub fn step_bound(data: usize, points: usize, fields: usize, n: usize) -> u64 {
    400_000 + 60 * data as u64 + (points as u64) * (2_000 + 800 * n as u64) + 6_000 * (fields as u64 + n as u64)
}

/// Reads a message on one path. The points come back as bit patterns.
pub fn read<const N: usize, P: SimPoint<N>>(path: Path, m: &PointCloud2Msg) -> Out<N> {
    let inp = input(m);
    let real = (m.dimensions.width as u128 * m.dimensions.height as u128).min(m.data.len() as u128 + 1) as usize;
    if !sched::on() {
        sched::budget(step_bound(m.data.len(), real, m.fields.len(), N));
    }
    let at = if path == Path::Split && real > 0 { plan(real as u64) as usize } else { 0 };
    let r = sut(PHASES_R[path as usize], move || -> Result<Vec<P>, MsgConversionError> {
        match path {
            Path::Vec => inp.try_into_vec::<N, P>(),
            Path::Iter => Ok(inp.try_into_iter::<N, P>()?.collect()),
            Path::IterNext => {
                let mut it = inp.try_into_iter::<N, P>()?;
                let mut v = Vec::new();
                while let Some(p) = it.next() {
                    v.push(p);
                }
                Ok(v)
            }
            Path::Direct => {
                let it = PointCloudIterator::<N, P>::try_from(inp)?;
                Ok(Iterator::collect(it))
            }
            Path::Split => {
                let it = PointCloudIterator::<N, P>::try_from(inp)?;
                let n = Iterator::size_hint(&it).0;
                let (a, b) = it.split_at(at.min(n));
                let mut v: Vec<P> = Iterator::collect(a);
                v.extend(b);
                Ok(v)
            }
            #[cfg(feature = "par")]
            Path::DirectRev => {
                let it = PointCloudIterator::<N, P>::try_from(inp)?;
                let mut v: Vec<P> = Iterator::collect(Iterator::rev(it));
                v.reverse();
                Ok(v)
            }
            #[cfg(feature = "par")]
            Path::Par => Ok(inp.try_into_par_iter::<N, P>()?.collect()),
            #[cfg(feature = "par")]
            Path::ParIndexed => {
                let it = PointCloudIterator::<N, P>::try_from(inp)?;
                let mut v = Vec::new();
                rayon::iter::IndexedParallelIterator::collect_into_vec(it, &mut v);
                Ok(v)
            }
        }
    });
    let out = match r {
        Ok(Ok(v)) => {
            let b = bits_vec(&v);
            let _ = sut("drop points", move || drop(v));
            Out::Ok(b)
        }
        Ok(Err(e)) => {
            let (kind, missing) = err_of(e);
            Out::Err { kind, missing }
        }
        Err(s) => Out::Stop(s),
    };
    if !sched::on() {
        sched::no_budget();
    }
    out
}
const PHASES_R: [&str; 8] = [
    "read into a vector",
    "read with an iterator",
    "read with next()",
    "read with a point iterator",
    #[cfg(feature = "par")]
    "read in parallel",
    #[cfg(feature = "par")]
    "read in parallel (indexed)",
    #[cfg(feature = "par")]
    "read from the back",
    "read in two parts",
    #[cfg(not(feature = "par"))]
    "",
    #[cfg(not(feature = "par"))]
    "",
    #[cfg(not(feature = "par"))]
    "",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Write {
    Vec,
    IterVec,
    IterMap,
    #[cfg(feature = "par")]
    Par,
}
#[cfg(feature = "par")]
pub const WRITES: [Write; 4] = [Write::Vec, Write::IterVec, Write::IterMap, Write::Par];
#[cfg(not(feature = "par"))]
pub const WRITES: [Write; 3] = [Write::Vec, Write::IterVec, Write::IterMap];

pub fn write<const N: usize, P: SimPoint<N>>(w: Write, pts: &[Bits<N>]) -> Result<Result<PointCloud2Msg, String>, Stop> {
    let v: Vec<P> = make_vec(pts);
    if !sched::on() {
        sched::budget(step_bound(pts.len() * std::mem::size_of::<P>(), pts.len(), N, N));
    }
    let r = sut("write a message", move || match w {
        Write::Vec => PointCloud2Msg::try_from_vec(v),
        Write::IterVec => PointCloud2Msg::try_from_iter(v),
        Write::IterMap => {
            let mut it = v.into_iter();
            PointCloud2Msg::try_from_iter(std::iter::from_fn(move || it.next()))
        }
        #[cfg(feature = "par")]
        Write::Par => PointCloud2Msg::try_from_par_iter(rayon::iter::IntoParallelIterator::into_par_iter(v)),
    });
    if !sched::on() {
        sched::no_budget();
    }
    r.map(|r| r.map_err(|e| err_of(e).0))
}
/// Writes, and treats anything but success as a violation.
pub fn write_ok<const N: usize, P: SimPoint<N>>(w: Write, pts: &[Bits<N>]) -> PointCloud2Msg {
    match write::<N, P>(w, pts) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => fail("write:error", &format!("{w:?} of {} points of {} failed: {e}", pts.len(), P::NAME)),
        Err(s) => fail("write:panic", &format!("{w:?} of {} points of {}: {s:?}", pts.len(), P::NAME)),
    }
}
/// Gives a message written by the library to the harness (out of the checked heap).
pub fn export(m: PointCloud2Msg) -> PointCloud2Msg {
    let mut c = harness(|| m.clone());
    let _ = sut("drop message", move || drop(m));
    scrub(&mut c);
    c
}

pub fn first_diff<const N: usize>(a: &[Bits<N>], b: &[Bits<N>]) -> String {
    if a.len() != b.len() {
        return format!("{} points instead of {}", a.len(), b.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let f = (0..N).find(|f| x[*f] != y[*f]).unwrap_or(0);
            return format!("point {i} field #{f}: {:#x} instead of {:#x}", x[f], y[f]);
        }
    }
    "equal".into()
}
pub fn hash_points<const N: usize>(p: &[Bits<N>]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for x in p {
        for v in x {
            shared::fnv_u64(&mut h, *v);
        }
    }
    h
}
pub fn nontrivial() {
    shared::get().nontrivial = 1;
}

/// The machine of this run: pool size, scheduling policy, preemption, stalls.
pub fn draw_sched(preempt: bool) -> sched::Conf {
    let policy = match pweighted(&[3, 3, 2]) {
        0 => sched::Policy::Sticky,
        1 => sched::Policy::Uniform,
        _ => sched::Policy::Pct,
    };
    let max_gap = if preempt { [0u64, 20, 200, 2000][pweighted(&[2, 3, 3, 2])] } else { 0 };
    let stalls = pchance(1, 3);
    sched::Conf { policy, max_gap, stalls }
}
#[cfg(feature = "par")]
pub fn draw_pool() -> usize {
    let n = [1usize, 2, 3, 4, 8, 16, 64][pweighted(&[2, 4, 3, 4, 3, 2, 1])];
    let nested = pchance(2, 3);
    let fake = plan(4);
    rayon_core::sim_configure(n, nested, fake);
    POOL.store(n, Relaxed);
    log!("pool of {n} workers");
    n
}
/// Runs the rest of the simulation under the scheduler.
pub fn scheduled(preempt: bool, f: impl FnOnce() + Send + 'static) {
    let c = draw_sched(preempt);
    log!("scheduler {:?}, preemption gap up to {}, stalls {}", c.policy, c.max_gap, c.stalls);
    sched::simulate(c, f);
}

/// The same, with the work done where a caller may happen to be: outside of every pool, or in a job
/// of one already.
#[cfg(feature = "par")]
pub fn scheduled_anywhere(preempt: bool, f: impl FnOnce() + Send + 'static) {
    let place = pweighted(&[6, 2, 1, 1, 1]);
    let threads = [1usize, 2, 5][plan(2) as usize];
    if place > 0 {
        log!("the caller is a job of a pool ({place}, {threads})");
        shared::probe("caller inside a pool");
    }
    scheduled(preempt, move || {
        match place {
            0 => f(),
            1 => match rayon::ThreadPoolBuilder::new().num_threads(threads).build() {
                Ok(p) => p.install(f),
                Err(_) => fail("harness", "no pool"),
            },
            2 => {
                rayon::join(f, || sched::point());
            }
            3 => {
                rayon::join(|| sched::point(), f);
            }
            _ => rayon::scope(|s| {
                s.spawn(|_| sched::point());
                s.spawn(move |_| f());
            }),
        }
    });
}

pub fn dims(w: u32, h: u32) -> CloudDimensions {
    CloudDimensions { width: w, height: h }
}
/// Splits n points into rows.
pub fn draw_rows(n: usize) -> (u32, u32) {
    if n == 0 {
        return [(0, 0), (0, 1), (1, 0), (0, 7), (640, 0)][pweighted(&[3, 3, 1, 1, 1])];
    }
    if pchance(1, 2) {
        return (n as u32, 1);
    }
    let d: Vec<usize> = (1..=n.min(4096)).filter(|d| n % d == 0).collect();
    let h = d[plan(d.len() as u64 - 1) as usize];
    if h > 1 {
        shared::probe("cloud: several rows");
    }
    ((n / h) as u32, h as u32)
}
pub fn endian_of(big: bool) -> Endian {
    if big {
        Endian::Big
    } else {
        Endian::Little
    }
}
pub fn dense_of(d: bool) -> Denseness {
    if d {
        Denseness::Dense
    } else {
        Denseness::Sparse
    }
}
pub fn stop_text(s: &Stop) -> String {
    format!("{s:?}")
}
pub fn violated(class: &str, detail: String) -> ! {
    fail(class, &detail)
}

/// An intact message of n points in a layout any publisher may use.
pub fn draw_message<const N: usize, P: SimPoint<N>>(n: usize) -> (PointCloud2Msg, Vec<Bits<N>>) {
    let pts = draw_points::<N, P>(n);
    let s = match plan(3) {
        0 => summed_schema::<N, P>(),
        1 => native_schema::<N, P>().unwrap_or_else(c_schema::<N, P>),
        _ => draw_schema::<N, P>(n <= 40),
    };
    let (w, h) = draw_rows(n);
    let mut m = crate::model::encode(&pts, &s, w, h);
    if pchance(1, 3) {
        m.dense = Denseness::Sparse;
    }
    if pchance(1, 8) {
        m.header = draw_header();
    }
    (m, pts)
}


static POOL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// Whether repeating this goes on leaving blocks behind. What is set up once - in the process or in
/// every thread - and kept for later is nobody's leak.
pub fn keeps_growing(f: impl Fn()) -> bool {
    let w = POOL.load(Relaxed);
    let mut grown = 0;
    for _ in 0..3 * w + 8 {
        let a = heap::stats().live_n;
        f();
        grown += usize::from(heap::stats().live_n > a);
    }
    grown > w + 2
}
/// Uses every kind of conversion of this type once on this thread.
pub fn warm_up<const N: usize, P: SimPoint<N>>() {
    let pts = points_of::<N, P>(2, Values { mode: 0, salt: 0 });
    let m = encode(&pts, &c_schema::<N, P>(), 2, 1);
    let _ = read::<N, P>(Path::Iter, &m);
    let _ = read::<N, P>(Path::Vec, &m);
    let v: Vec<P> = make_vec(&pts);
    if let Ok(Ok(m)) = sut("write a vector", move || PointCloud2Msg::try_from_vec(v)) {
        drop(export(m));
    }
    let v: Vec<P> = make_vec(&pts);
    if let Ok(Ok(m)) = sut("write an iterator", move || PointCloud2Msg::try_from_iter(v)) {
        drop(export(m));
    }
}

/// What this process did with the library before: conversions of this and of other types that
/// succeeded, failed, were given up half-way or broke off. Nothing later may depend on it.
pub fn earlier(t: u64) {
    if !pchance(1, 5) {
        return;
    }
    for _ in 0..1 + plan(3) {
        let other = match plan(2) {
            0 => plan(N_TYPES as u64 - 1),
            1 => t,
            _ => {
                let k = kin(t);
                k[plan(k.len() as u64 - 1) as usize]
            }
        };
        shared::probe("earlier use of the library");
        for_type!(other, episode());
    }
    nontrivial();
}
fn episode<const N: usize, P: SimPoint<N>>() {
    let n = plan(40) as usize;
    let what = plan(7);
    log!("earlier: {what} with {n} points of {}", P::NAME);
    match what {
        0 | 1 => {
            let (m, _) = draw_message::<N, P>(n);
            let _ = read::<N, P>(PATHS[plan(PATHS.len() as u64 - 1) as usize], &m);
        }
        2 | 3 => {
            let pts = draw_points::<N, P>(n);
            if let Ok(Ok(m)) = write::<N, P>(WRITES[plan(WRITES.len() as u64 - 1) as usize], &pts) {
                drop(export(m));
            }
        }
        4 => {
            // refused
            let (mut m, _) = draw_message::<N, P>(n);
            m.fields.pop();
            let _ = read::<N, P>(PATHS[plan(PATHS.len() as u64 - 1) as usize], &m);
        }
        5 => {
            // given up half-way
            let (m, _) = draw_message::<N, P>(n);
            let (inp, k) = (input(&m), plan(n as u64) as usize);
            sched::budget(step_bound(m.data.len(), n, m.fields.len(), N));
            let _ = sut("an iterator given up", move || {
                if let Ok(mut it) = PointCloudIterator::<N, P>::try_from(inp) {
                    for _ in 0..k {
                        drop(Iterator::next(&mut it));
                    }
                }
            });
            sched::no_budget();
        }
        6 => {
            // a conversion that breaks off
            let (m, _) = draw_message::<N, P>(n);
            arm_panic(1 + plan(n as u64 + 2));
            let _ = read::<N, P>(PATHS[plan(PATHS.len() as u64 - 1) as usize], &m);
            disarm_panic();
        }
        _ => {
            // a stream that breaks off
            let pts = draw_points::<N, P>(n);
            let v: Vec<P> = make_vec(&pts);
            let k = plan(n as u64) as usize;
            sched::budget(step_bound(n * 64, n, N, N));
            let r = sut("a stream that breaks off", move || {
                PointCloud2Msg::try_from_iter(v.into_iter().enumerate().map(move |(i, p)| {
                    if i == k {
                        simcore::run::inject_panic(k as u64);
                    }
                    p
                }))
            });
            sched::no_budget();
            if let Ok(Ok(m)) = r {
                drop(export(m));
            }
        }
    }
}
