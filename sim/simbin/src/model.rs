//! The independent reference: what a PointCloud2 message means, written from the message definition
//! and not from the library.
#![allow(dead_code, unused_macros)]
use crate::types::{dt_mask, dt_size, SimPoint};
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

pub type Bits<const N: usize> = [u64; N];

pub fn put_scalar(dst: &mut [u8], bits: u64, size: usize, big: bool) {
    for i in 0..size {
        let b = (bits >> (8 * i)) as u8;
        dst[if big { size - 1 - i } else { i }] = b;
    }
}
pub fn get_scalar(src: &[u8], size: usize, big: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..size {
        v |= (src[if big { size - 1 - i } else { i }] as u64) << (8 * i);
    }
    v
}

#[derive(Clone, Debug)]
pub struct SField {
    pub name: String,
    pub dt: u8,
    pub offset: u32,
    pub count: u32,
    /// index of the point field that is stored here; None: some other data
    pub src: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub fields: Vec<SField>,
    pub step: u32,
    pub big: bool,
    pub junk: u64,
}

/// The message a foreign publisher with this schema would send.
pub fn encode<const N: usize>(pts: &[Bits<N>], s: &Schema, width: u32, height: u32) -> PointCloud2Msg {
    let step = s.step as usize;
    let mut data = vec![0u8; pts.len() * step];
    let mut r = simcore::rng::Rng::new(s.junk);
    if s.junk != 0 {
        data.iter_mut().for_each(|b| *b = r.next() as u8);
    }
    for (i, p) in pts.iter().enumerate() {
        for f in &s.fields {
            let o = i * step + f.offset as usize;
            let n = dt_size(f.dt);
            for c in 0..f.count as usize {
                let v = match f.src {
                    Some(k) => p[k],
                    None => r.next(),
                };
                put_scalar(&mut data[o + c * n..o + c * n + n], v, n, s.big);
            }
        }
    }
    PointCloud2Msg {
        header: HeaderMsg::default(),
        dimensions: CloudDimensions { width, height },
        fields: s
            .fields
            .iter()
            .map(|f| PointFieldMsg { name: f.name.clone(), offset: f.offset, datatype: f.dt, count: f.count })
            .collect(),
        endian: if s.big { Endian::Big } else { Endian::Little },
        point_step: s.step,
        row_step: (s.step as u64 * width as u64) as u32,
        data,
        dense: Denseness::Dense,
    }
}

/// What a read of a message may answer.
pub struct Expected<const N: usize> {
    /// None: it must be an error
    pub points: Option<Vec<Bits<N>>>,
    pub err_allowed: bool,
    /// fields whose value the definition leaves open (other datatype, ambiguous name)
    pub open: [bool; N],
    pub missing: Vec<String>,
    pub why: &'static str,
}

pub fn expect<const N: usize>(m: &PointCloud2Msg, spec: &[(&'static str, u8); N]) -> Expected<N> {
    let mut e = Expected { points: None, err_allowed: false, open: [false; N], missing: vec![], why: "" };
    let w = m.dimensions.width as u128;
    let h = m.dimensions.height as u128;
    let step = m.point_step as u128;
    let n = w * h;
    for (name, _) in spec {
        if !m.fields.iter().any(|f| f.name == *name) {
            e.missing.push(name.to_string());
        }
    }
    if !e.missing.is_empty() {
        e.why = "missing fields";
        return e;
    }
    let need = n * step;
    let len = m.data.len() as u128;
    if need > len {
        e.why = "data too short for its dimensions";
        return e;
    }
    // more data than points, or rows of another length: an error or the contiguous points
    if need < len || m.row_step as u128 != w * step {
        e.err_allowed = true;
    }
    if n > 0 && step == 0 {
        e.why = "points of size zero";
        return e;
    }
    let mut src: Vec<(usize, u8)> = vec![];
    for (i, (name, dt)) in spec.iter().enumerate() {
        let all: Vec<&PointFieldMsg> = m.fields.iter().filter(|f| f.name == *name).collect();
        let usable = |f: &PointFieldMsg| {
            f.datatype != 0 && f.datatype <= 8 && f.offset as u128 + dt_size(f.datatype) as u128 <= step
        };
        if !all.iter().any(|f| usable(f)) {
            if n > 0 {
                e.why = "no usable description of a wanted field";
                e.err_allowed = true;
                return e;
            }
            e.err_allowed = true;
            src.push((0, *dt));
            continue;
        }
        let f = all[0];
        if all.len() > 1 || f.datatype != *dt {
            e.open[i] = true;
            e.err_allowed = true;
        }
        if f.count != 1 {
            e.err_allowed = true;
        }
        src.push((f.offset as usize, *dt));
    }
    // descriptions nobody asked for may be wrong: a strict reader may refuse them
    for f in &m.fields {
        let bad = f.datatype == 0 || f.datatype > 8 || f.count != 1 || f.offset as u128 + dt_size(f.datatype) as u128 > step;
        if bad {
            e.err_allowed = true;
        }
    }
    for (i, f) in m.fields.iter().enumerate() {
        if m.fields[..i].iter().any(|g| g.name == f.name) {
            e.err_allowed = true;
        }
    }
    if n == 0 && (m.fields.iter().any(|_| step == 0) || len > 0) {
        e.err_allowed = true;
    }
    let big = m.endian == Endian::Big;
    // rows with padding at their end
    let padded = need < len && m.row_step as u128 * h == len && m.row_step as u128 > w * step;
    let mut pts = Vec::with_capacity(n as usize);
    for p in 0..n as usize {
        let mut b = [0u64; N];
        for (i, (o, dt)) in src.iter().enumerate() {
            let sz = dt_size(*dt);
            let at = if padded {
                (p / w as usize) * m.row_step as usize + (p % w as usize) * m.point_step as usize + o
            } else {
                p * m.point_step as usize + o
            };
            if e.open[i] {
                continue;
            }
            b[i] = get_scalar(&m.data[at..at + sz], sz, big) & dt_mask(*dt);
        }
        pts.push(b);
    }
    e.points = Some(pts);
    e
}

/// A reader that knows only the definition: points of a message by name, or why it is not well formed.
pub fn decode_strict<const N: usize>(m: &PointCloud2Msg, spec: &[(&'static str, u8); N]) -> Result<Vec<Bits<N>>, String> {
    let e = expect(m, spec);
    match e.points {
        Some(p) if !e.open.iter().any(|x| *x) => Ok(p),
        Some(_) => Err("a field is ambiguous or of another datatype".into()),
        None => Err(e.why.into()),
    }
}

/// Everything a PointCloud2 of `n` points of this type must satisfy, whoever wrote it.
pub fn well_formed<const N: usize>(m: &PointCloud2Msg, spec: &[(&'static str, u8); N], n: usize) -> Result<(), String> {
    let (w, h) = (m.dimensions.width as u64, m.dimensions.height as u64);
    if w * h != n as u64 {
        return Err(format!("width {w} x height {h} is not the number of points {n}"));
    }
    if m.row_step as u64 != w * m.point_step as u64 {
        return Err(format!("row step {} is not width {w} x point step {}", m.row_step, m.point_step));
    }
    if m.data.len() as u64 != m.row_step as u64 * h {
        return Err(format!("data length {} is not row step {} x height {h}", m.data.len(), m.row_step));
    }
    if m.fields.len() != N {
        return Err(format!("{} fields instead of {N}", m.fields.len()));
    }
    for (f, (name, dt)) in m.fields.iter().zip(spec) {
        if f.name != *name {
            return Err(format!("field {} where {name} belongs", f.name));
        }
        if f.datatype != *dt {
            return Err(format!("field {name} has datatype {} instead of {dt}", f.datatype));
        }
        if f.count != 1 {
            return Err(format!("field {name} has count {}", f.count));
        }
        if f.offset as u64 + dt_size(*dt) as u64 > m.point_step as u64 {
            return Err(format!("field {name} at {} reaches beyond the point step {}", f.offset, m.point_step));
        }
    }
    for (i, f) in m.fields.iter().enumerate() {
        for g in &m.fields[..i] {
            let (a, b) = (f.offset as usize, g.offset as usize);
            if a < b + dt_size(g.datatype) && b < a + dt_size(f.datatype) {
                return Err(format!("fields {} and {} overlap", g.name, f.name));
            }
        }
    }
    Ok(())
}

pub fn spec_of<const N: usize, P: SimPoint<N>>() -> [(&'static str, u8); N] {
    P::SPEC
}
