//! C11: clouds and points stored through their serialised form, on a disk that loses, tears and
//! garbles what was not flushed, below a program that crashes and restarts.
use crate::common::*;
use crate::damage::damage;
use crate::model::Bits;
use crate::types::*;
use byteorder::{BigEndian, LittleEndian};
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};
use serde::de::DeserializeOwned;
use serde::Serialize;
use simcore::heap::{self, harness};
use simcore::run::{fail, sut, Stop};
use simcore::{log, shared};

// ---------------------------------------------------------------- the disk

const SECTOR: usize = 512;
struct Disk {
    durable: Vec<u8>,
    cache: Vec<u8>,
    dirty: Vec<bool>,
    capacity: usize,
    /// a log device: what survives is a prefix
    in_order: bool,
}
impl Disk {
    fn sectors(n: usize) -> usize {
        n.div_ceil(SECTOR)
    }
    /// Appends; may write less than asked or fail.
    fn write(&mut self, b: &[u8]) -> Result<usize, &'static str> {
        if fchance(1, 60) {
            shared::probe("fault:disk write error");
            return Err("I/O error");
        }
        let room = self.capacity.saturating_sub(self.cache.len());
        let mut n = b.len().min(room);
        if n == 0 && !b.is_empty() {
            shared::probe("fault:disk full");
            return Err("no space left on device");
        }
        if n > 1 && fchance(1, 8) {
            n = 1 + fdraw(n as u64 - 2) as usize;
            shared::probe("fault:short disk write");
        }
        let from = self.cache.len() / SECTOR;
        self.cache.extend_from_slice(&b[..n]);
        self.dirty.resize(Self::sectors(self.cache.len()), true);
        for d in &mut self.dirty[from..] {
            *d = true;
        }
        Ok(n)
    }
    fn sync(&mut self) -> Result<(), &'static str> {
        if fchance(1, 30) {
            shared::probe("fault:disk sync error");
            // some pages were written, the others are forgotten
            self.flush_some();
            return Err("I/O error");
        }
        self.durable = self.cache.clone();
        self.dirty.iter_mut().for_each(|d| *d = false);
        Ok(())
    }
    fn flush_some(&mut self) {
        if self.in_order {
            let extra = (self.cache.len() - self.durable.len()) as u64;
            let keep = self.durable.len() + fdraw(extra) as usize;
            if keep < self.cache.len() {
                shared::probe("fault:lost disk write");
            }
            self.durable = self.cache[..keep].to_vec();
            return;
        }
        let mut torn = self.durable.clone();
        let keep_len = match fdraw(2) {
            0 => self.cache.len(),
            1 => self.durable.len(),
            _ => self.durable.len() + fdraw((self.cache.len() - self.durable.len()) as u64) as usize,
        };
        torn.resize(keep_len.max(self.durable.len()), 0);
        for s in 0..Self::sectors(torn.len()) {
            if s < self.dirty.len() && self.dirty[s] {
                let (a, b) = (s * SECTOR, ((s + 1) * SECTOR).min(torn.len()));
                // bytes that were durable before stay what they are
                let a2 = a.max(self.durable.len());
                if a2 >= b {
                    continue;
                }
                match fdraw(3) {
                    0 | 1 => torn[a2..b].copy_from_slice(&self.cache[a2..b]),
                    2 => shared::probe("fault:lost disk write"),
                    _ => {
                        let cut = a2 + fdraw((b - a2) as u64) as usize;
                        torn[a2..cut].copy_from_slice(&self.cache[a2..cut]);
                        for x in &mut torn[cut..b] {
                            *x = fdraw(255) as u8;
                        }
                        shared::probe("fault:torn disk write");
                    }
                }
            }
        }
        self.durable = torn;
    }
    /// Only what is durable survives, and some of the rest.
    fn crash(&mut self) {
        self.flush_some();
        self.cache = self.durable.clone();
        self.dirty = vec![false; Self::sectors(self.cache.len())];
    }
    fn truncate(&mut self, n: usize) {
        self.durable.truncate(n);
        self.cache = self.durable.clone();
        self.dirty = vec![false; Self::sectors(n)];
    }
}

// ---------------------------------------------------------------- the formats

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Format {
    CdrLe,
    CdrBe,
    Json,
    JsonPretty,
    /// through a document store that reorders the keys
    Document,
}
const FORMATS: [Format; 5] = [Format::CdrLe, Format::CdrBe, Format::Json, Format::JsonPretty, Format::Document];
impl Format {
    fn is_json(self) -> bool {
        !matches!(self, Format::CdrLe | Format::CdrBe)
    }
}
fn ser<T: Serialize>(f: Format, v: &T) -> Result<Vec<u8>, String> {
    match f {
        Format::CdrLe => cdr_encoding::to_vec::<_, LittleEndian>(v).map_err(|e| format!("{e:?}")),
        Format::CdrBe => cdr_encoding::to_vec::<_, BigEndian>(v).map_err(|e| format!("{e:?}")),
        Format::Json => serde_json::to_vec(v).map_err(|e| format!("{e:?}")),
        Format::JsonPretty => serde_json::to_vec_pretty(v).map_err(|e| format!("{e:?}")),
        Format::Document => serde_json::to_value(v).and_then(|v| serde_json::to_vec(&v)).map_err(|e| format!("{e:?}")),
    }
}
fn de<T: DeserializeOwned>(f: Format, reader: bool, b: &[u8]) -> Result<T, String> {
    match f {
        Format::CdrLe => cdr_encoding::from_bytes::<T, LittleEndian>(b).map(|x| x.0).map_err(|e| format!("{e:?}")),
        Format::CdrBe => cdr_encoding::from_bytes::<T, BigEndian>(b).map(|x| x.0).map_err(|e| format!("{e:?}")),
        Format::Document => serde_json::from_slice::<serde_json::Value>(b).and_then(|v| serde_json::from_value(v)).map_err(|e| format!("{e:?}")),
        _ if reader => serde_json::from_reader(b).map_err(|e| format!("{e:?}")),
        _ => serde_json::from_slice(b).map_err(|e| format!("{e:?}")),
    }
}
/// Serialises with the library's code. None: the program ran out of memory.
fn encode<T: Serialize>(f: Format, v: &T) -> Option<Vec<u8>> {
    match sut("serialise", || ser(f, v)) {
        Ok(Ok(b)) => {
            let c = harness(|| b.clone());
            drop(b);
            Some(c)
        }
        Ok(Err(e)) => fail("store:serialise", &format!("{f:?}: {e}")),
        Err(Stop::AllocFailed) => None,
        Err(s) => fail("store:panic", &format!("serialising as {f:?}: {s:?}")),
    }
}
enum Dec<T> {
    Ok(T),
    Bad(String),
    Oom,
}
fn decode<T: DeserializeOwned>(f: Format, reader: bool, b: &[u8]) -> Dec<T> {
    match sut("deserialise", || de::<T>(f, reader, b)) {
        Ok(Ok(v)) => Dec::Ok(v),
        Ok(Err(e)) => Dec::Bad(harness(|| e.clone())),
        Err(Stop::AllocFailed) => Dec::Oom,
        Err(s) => fail("store:panic", &format!("deserialising {f:?}: {s:?}")),
    }
}

// ---------------------------------------------------------------- what is stored

/// Something that can be stored: its value, and how to compare it.
trait Item: Clone + 'static {
    type T: Serialize + DeserializeOwned;
    fn real(&self) -> Self::T;
    fn differs(&self, t: &Self::T) -> Option<String>;
    fn name() -> &'static str;
    fn after(&self, _t: Self::T) {}
}
#[derive(Clone)]
struct Cloud<const N: usize, P: SimPoint<N>> {
    m: PointCloud2Msg,
    pts: Option<Vec<Bits<N>>>,
    ph: std::marker::PhantomData<fn() -> P>,
}
fn cloud_diff(a: &PointCloud2Msg, b: &PointCloud2Msg) -> Option<String> {
    macro_rules! cmp {
        ($($n:literal: $x:expr, $y:expr);*) => { $( if $x != $y { return Some(format!("{} is {:?} instead of {:?}", $n, $y, $x)); } )* };
    }
    cmp!(
        "the sequence number": a.header.seq, b.header.seq;
        "the seconds": a.header.stamp.sec, b.header.stamp.sec;
        "the nanoseconds": a.header.stamp.nanosec, b.header.stamp.nanosec;
        "the frame": a.header.frame_id, b.header.frame_id;
        "the width": a.dimensions.width, b.dimensions.width;
        "the height": a.dimensions.height, b.dimensions.height;
        "the endianness": a.endian, b.endian;
        "the point step": a.point_step, b.point_step;
        "the row step": a.row_step, b.row_step;
        "the density": a.dense, b.dense;
        "the number of fields": a.fields.len(), b.fields.len()
    );
    for (f, g) in a.fields.iter().zip(&b.fields) {
        cmp!("a field name": f.name, g.name; "a field offset": f.offset, g.offset; "a datatype": f.datatype, g.datatype; "a count": f.count, g.count);
    }
    if a.data != b.data {
        return Some("the data differs".into());
    }
    None
}
impl<const N: usize, P: SimPoint<N>> Item for Cloud<N, P> {
    type T = PointCloud2Msg;
    fn real(&self) -> PointCloud2Msg {
        self.m.clone()
    }
    fn differs(&self, t: &PointCloud2Msg) -> Option<String> {
        cloud_diff(&self.m, t)
    }
    fn name() -> &'static str {
        "a cloud"
    }
    fn after(&self, t: PointCloud2Msg) {
        if let Some(pts) = &self.pts {
            let path = PATHS[plan(PATHS.len() as u64 - 1) as usize];
            let c = harness(|| t.clone());
            match read::<N, P>(path, &c) {
                Out::Ok(v) if v == *pts => shared::probe("restored cloud read"),
                Out::Ok(v) => fail("store:points", &format!("{path:?} of the restored cloud as {}: {}", P::NAME, first_diff(&v, pts))),
                Out::Err { kind, .. } => fail("store:points", &format!("{path:?} of the restored cloud as {}: {kind}; {}", P::NAME, describe(&c))),
                Out::Stop(s) => fail("store:points", &format!("{path:?} of the restored cloud as {}: {s:?}; {}", P::NAME, describe(&c))),
            }
        }
    }
}
#[derive(Clone)]
struct Points<const N: usize, P: SimPoint<N>> {
    pts: Vec<Bits<N>>,
    ph: std::marker::PhantomData<fn() -> P>,
}
impl<const N: usize, P: SimPoint<N> + Serialize + DeserializeOwned> Item for Points<N, P> {
    type T = Vec<P>;
    fn real(&self) -> Vec<P> {
        self.pts.iter().map(|b| P::make(*b)).collect()
    }
    fn differs(&self, t: &Vec<P>) -> Option<String> {
        let got = bits_vec(t);
        if got != self.pts {
            return Some(format!("{}: {}", P::NAME, first_diff(&got, &self.pts)));
        }
        None
    }
    fn name() -> &'static str {
        P::NAME
    }
    fn after(&self, t: Vec<P>) {
        // the restored points are published again
        if plan(2) == 0 {
            if let Ok(Ok(m)) = sut("write restored points", move || PointCloud2Msg::try_from_vec(t)) {
                let m = export(m);
                if let Out::Ok(v) = read::<N, P>(Path::Iter, &m) {
                    if v != self.pts {
                        fail("store:points", &format!("restored and republished {}: {}", P::NAME, first_diff(&v, &self.pts)));
                    }
                }
            }
        }
    }
}
/// Parts of a message, stored for themselves.
#[derive(Clone)]
struct Parts {
    m: PointCloud2Msg,
    rgb: u32,
}
#[derive(serde::Serialize, serde::Deserialize)]
struct PartsT {
    header: HeaderMsg,
    stamp: TimeMsg,
    fields: Vec<PointFieldMsg>,
    dimensions: CloudDimensions,
    endian: Endian,
    dense: Denseness,
    color: RGB,
    maybe: Option<RGB>,
}
impl Item for Parts {
    type T = PartsT;
    fn real(&self) -> PartsT {
        let m = self.m.clone();
        PartsT {
            stamp: m.header.stamp,
            header: m.header,
            fields: m.fields,
            dimensions: m.dimensions,
            endian: m.endian,
            dense: m.dense,
            color: RGB::new_from_packed(self.rgb),
            maybe: if self.rgb % 2 == 0 { Some(RGB::new_from_packed(self.rgb)) } else { None },
        }
    }
    fn differs(&self, t: &PartsT) -> Option<String> {
        let mut o = self.m.clone();
        o.header = t.header.clone();
        o.fields = t.fields.clone();
        o.dimensions = t.dimensions.clone();
        o.endian = t.endian;
        o.dense = t.dense;
        if let Some(d) = cloud_diff(&self.m, &o) {
            return Some(d);
        }
        if (t.stamp.sec, t.stamp.nanosec) != (self.m.header.stamp.sec, self.m.header.stamp.nanosec) {
            return Some("the stamp differs".into());
        }
        if t.color.raw().to_bits() != self.rgb {
            return Some(format!("the colour is {:#x} instead of {:#x}", t.color.raw().to_bits(), self.rgb));
        }
        match (t.maybe, self.rgb % 2 == 0) {
            (Some(c), true) if c.raw().to_bits() == self.rgb => None,
            (None, false) => None,
            _ => Some("the optional colour differs".into()),
        }
    }
    fn name() -> &'static str {
        "message parts"
    }
}

// ---------------------------------------------------------------- the program

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
struct Store<I: Item> {
    disk: Disk,
    format: Format,
    /// frames with checksums; otherwise bare JSON lines or bare CDR on a device that writes in order
    framed: bool,
    reader: bool,
    items: Vec<I>,
    /// items[..acked] were acknowledged
    acked: usize,
    /// items[..n] were written completely into the cache
    bytes: usize,
}
impl<I: Item> Store<I> {
    fn append(&mut self, item: I) -> bool {
        let oom = fchance(1, 25);
        let real = heap::tracked(|| item.real());
        if oom {
            heap::arm_failure(1 + fdraw(5), 0);
        }
        let b = encode(self.format, &real);
        heap::disarm();
        drop(real);
        let b = match b {
            Some(b) => b,
            None => {
                shared::probe("fault:out of memory while storing");
                return false;
            }
        };
        let mut rec = vec![];
        if self.framed {
            rec.extend((b.len() as u32).to_le_bytes());
            rec.extend(crc(&b).to_le_bytes());
            rec.extend(&b);
        } else if self.format.is_json() {
            rec.extend(&b);
            rec.push(b'\n');
        } else {
            rec.extend((b.len() as u32).to_le_bytes());
            rec.extend(&b);
        }
        self.bytes += rec.len();
        self.items.push(item);
        let mut at = 0;
        while at < rec.len() {
            // the program may crash between two writes
            if fchance(1, 40) {
                shared::probe("fault:crash in the middle of a record");
                return false;
            }
            match self.disk.write(&rec[at..]) {
                Ok(n) => at += n,
                Err(_) => return false,
            }
        }
        true
    }
    /// Everything so far is durable once this returns true.
    fn commit(&mut self) -> bool {
        if self.disk.sync().is_err() {
            return false;
        }
        self.acked = self.items.len();
        true
    }
    fn crash(&mut self) {
        self.disk.crash();
    }
    /// Reads the file from the start; the program may crash again while it does.
    fn recover(&mut self) {
        let mut tries = 0;
        loop {
            tries += 1;
            let file = self.disk.durable.clone();
            let mut at = 0;
            let mut n = 0;
            let mut again = false;
            let mut good = 0;
            while at < file.len() {
                let rest = &file[at..];
                let (payload, used, whole) = if self.framed {
                    if rest.len() < 8 {
                        break;
                    }
                    let len = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
                    let sum = u32::from_le_bytes(rest[4..8].try_into().unwrap());
                    if rest.len() < 8 + len || crc(&rest[8..8 + len]) != sum || len == 0 {
                        break;
                    }
                    (&rest[8..8 + len], 8 + len, true)
                } else if self.format.is_json() {
                    if self.format == Format::JsonPretty {
                        // one document of several lines
                        match find_end(rest) {
                            Some(e) => (&rest[..e], e + 1, true),
                            None => (rest, rest.len(), false),
                        }
                    } else {
                        match rest.iter().position(|b| *b == b'\n') {
                            Some(e) => (&rest[..e], e + 1, true),
                            None => (rest, rest.len(), false),
                        }
                    }
                } else {
                    if rest.len() < 4 {
                        break;
                    }
                    let len = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
                    // a reader that trusts its decoder with whatever is there
                    if rest.len() < 4 + len {
                        (&rest[4..], rest.len(), false)
                    } else {
                        (&rest[4..4 + len], 4 + len, true)
                    }
                };
                if tries < 3 && fchance(1, 30) {
                    heap::arm_failure(1 + fdraw(6), 0);
                }
                let d = decode::<I::T>(self.format, self.reader, payload);
                heap::disarm();
                match d {
                    Dec::Oom => {
                        shared::probe("fault:crash during recovery");
                        again = true;
                        break;
                    }
                    Dec::Bad(e) => {
                        if whole {
                            fail("store:lost", &format!("stored record {n} ({}, {:?}) cannot be restored: {e}", I::name(), self.format));
                        }
                        shared::probe("incomplete record refused");
                        break;
                    }
                    Dec::Ok(v) => {
                        if n >= self.items.len() {
                            fail("store:invented", &format!("record {n} was never stored ({})", I::name()));
                        }
                        if let Some(d) = self.items[n].differs(&v) {
                            fail("store:changed", &format!("record {n} ({}, {:?}): {d}", I::name(), self.format));
                        }
                        if !whole {
                            // complete but for its end mark: dropped all the same
                            shared::probe("record complete but for its end mark");
                            break;
                        }
                        self.items[n].after(v);
                        n += 1;
                        at += used;
                        good = at;
                    }
                }
            }
            if again {
                continue;
            }
            log!("recovered {n} of {} records, {} acknowledged", self.items.len(), self.acked);
            if n < self.acked {
                fail("store:lost", &format!("only {n} of {} acknowledged records are restored", self.acked));
            }
            self.items.truncate(n);
            self.disk.truncate(good);
            self.acked = n;
            if n > 0 {
                nontrivial();
            }
            return;
        }
    }
}
/// The end of the first JSON document.
fn find_end(b: &[u8]) -> Option<usize> {
    let (mut depth, mut str_, mut esc) = (0, false, false);
    for (i, x) in b.iter().enumerate() {
        if str_ {
            if esc {
                esc = false;
            } else if *x == b'\\' {
                esc = true;
            } else if *x == b'"' {
                str_ = false;
            }
            continue;
        }
        match *x {
            b'"' => str_ = true,
            b'{' | b'[' => depth += 1,
            b'}' | b']' => {
                depth -= 1;
                if depth == 0 {
                    return if i + 1 < b.len() { Some(i + 1) } else { None };
                }
            }
            _ => {}
        }
    }
    None
}

pub fn c11() {
    draw_heap();
    let format = FORMATS[plan(FORMATS.len() as u64 - 1) as usize];
    match pweighted(&[5, 4, 2]) {
        0 => {
            let t = plan(N_TYPES as u64 - 1);
            earlier(t);
            for_type!(t, clouds(format))
        }
        1 => match plan(8) {
            0 => points::<3, PointXYZ>(format),
            1 => points::<4, PointXYZI>(format),
            2 => points::<4, PointXYZL>(format),
            3 => points::<4, PointXYZRGB>(format),
            4 => points::<5, PointXYZRGBA>(format),
            5 => points::<7, PointXYZRGBNormal>(format),
            6 => points::<7, PointXYZINormal>(format),
            7 => points::<5, PointXYZRGBL>(format),
            _ => points::<6, PointXYZNormal>(format),
        },
        _ => program(format, |f| {
            let (m, _) = some_cloud::<5, PointXYZRGBA>();
            Parts { m, rgb: colour(f) }
        }),
    }
}
fn colour(f: Format) -> u32 {
    let v = plan(u32::MAX as u64) as u32;
    if f.is_json() && !f32::from_bits(v).is_finite() {
        v & 0x00FF_FFFF
    } else {
        v
    }
}
fn some_cloud<const N: usize, P: SimPoint<N>>() -> (PointCloud2Msg, Option<Vec<Bits<N>>>) {
    let n = cap::<N>(draw_size(if N > 8 { 20 } else { 60 }, false));
    let (mut m, pts) = if pchance(1, 2) {
        let pts = draw_points::<N, P>(n);
        (export(write_ok::<N, P>(WRITES[plan(WRITES.len() as u64 - 1) as usize], &pts)), pts)
    } else {
        draw_message::<N, P>(n)
    };
    m.header = draw_header();
    if pchance(1, 2) {
        m.dense = dense_of(pchance(1, 2));
    }
    // messages that are not consistent are stored, too
    if pchance(1, 4) {
        damage(&mut m);
        damage(&mut m);
        m.data.truncate(6000);
        return (m, None);
    }
    (m, Some(pts))
}
fn clouds<const N: usize, P: SimPoint<N>>(format: Format) {
    program(format, |_| {
        let (m, pts) = some_cloud::<N, P>();
        Cloud::<N, P> { m, pts, ph: std::marker::PhantomData }
    })
}
fn points<const N: usize, P: SimPoint<N> + Serialize + DeserializeOwned>(format: Format) {
    program(format, |f| {
        let n = draw_size(60, false) % 2000;
        let mut pts = draw_points::<N, P>(n);
        if f.is_json() {
            // JSON has no infinities and NaNs
            for p in &mut pts {
                for (k, (_, dt)) in P::SPEC.iter().enumerate() {
                    if *dt == F32 && !f32::from_bits(p[k] as u32).is_finite() {
                        p[k] &= 0x80FF_FFFF;
                    }
                }
            }
        }
        Points::<N, P> { pts, ph: std::marker::PhantomData }
    })
}

fn program<I: Item>(format: Format, mut make: impl FnMut(Format) -> I) {
    let framed = pchance(1, 2);
    let capacity = if fchance(1, 10) { 4096 + fdraw(60_000) as usize } else { 8 << 20 };
    log!("storing {} as {format:?}, {}", I::name(), if framed { "with checksums" } else { "bare, in order" });
    let mut s = Store {
        disk: Disk { durable: vec![], cache: vec![], dirty: vec![], capacity, in_order: !framed },
        format,
        framed,
        reader: pchance(1, 2),
        items: vec![],
        acked: 0,
        bytes: 0,
    };
    let lives = 1 + plan(2);
    for life in 0..=lives {
        let ops = 1 + plan(3);
        let mut died = true;
        for op in 0..ops {
            let item = make(format);
            if !s.append(item) {
                break;
            }
            if pchance(2, 3) && !s.commit() {
                break;
            }
            died = op + 1 < ops;
        }
        if life < lives {
            shared::probe("fault:crash and restart");
        } else if !died && s.disk.cache.len() > s.disk.durable.len() && pchance(1, 2) {
            // an orderly end
            let _ = s.commit();
        }
        s.crash();
        s.recover();
        shared::get().sim_time_us += 1_000_000;
    }
    heap::check_all();
}
