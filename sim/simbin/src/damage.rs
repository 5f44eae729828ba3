//! What transit, storage and forgers do to messages.
#![allow(dead_code)]
use crate::common::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::Endian;
use simcore::{log, shared};

fn nasty(now: u64) -> u32 {
    match fdraw(11) {
        0 => 0,
        1 => 1,
        2 => now.wrapping_add(1) as u32,
        3 => now.wrapping_sub(1) as u32,
        4 => (now * 2) as u32,
        5 => (now / 2) as u32,
        6 => u32::MAX,
        7 => u32::MAX - fdraw(16) as u32,
        8 => 1 << fdraw(31),
        9 => now as u32 ^ (1 << fdraw(31)),
        10 => fdraw(300) as u32,
        _ => 0x8000_0000,
    }
}

/// Damages the message once. Returns what was done.
pub fn damage(m: &mut PointCloud2Msg) -> &'static str {
    let nf = m.fields.len() as u64;
    let kind = simcore::choice::weighted(FAULT, &[3, 3, 3, 4, 3, 3, 2, 2, 2, 4, 2, 2, 2, 2, 2, 2, 4, 2]);
    let what = match kind {
        0 => {
            if m.data.is_empty() {
                return "nothing";
            }
            let at = fdraw(m.data.len() as u64 - 1) as usize;
            m.data[at] ^= 1 << fdraw(7);
            "bit flip in the data"
        }
        1 => {
            let keep = fdraw(m.data.len() as u64) as usize;
            let keep = if fchance(1, 2) { m.data.len().saturating_sub(1 + keep % 9) } else { keep };
            m.data.truncate(keep);
            "data cut short"
        }
        2 => {
            let more = 1 + fdraw(40) as usize;
            m.data.extend(std::iter::repeat(0xEE).take(more));
            "data extended"
        }
        3 => {
            m.dimensions.width = nasty(m.dimensions.width as u64);
            "width changed"
        }
        4 => {
            m.dimensions.height = nasty(m.dimensions.height as u64);
            "height changed"
        }
        5 => {
            m.point_step = nasty(m.point_step as u64);
            "point step changed"
        }
        6 => {
            m.row_step = nasty(m.row_step as u64);
            "row step changed"
        }
        7 => {
            m.endian = if m.endian == Endian::Big { Endian::Little } else { Endian::Big };
            "endianness flag flipped"
        }
        8 => {
            m.data.clear();
            "data lost"
        }
        9 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            let o = m.fields[i].offset;
            m.fields[i].offset = match fdraw(3) {
                0 => nasty(o as u64),
                1 => m.point_step.wrapping_sub(fdraw(9) as u32),
                2 => o ^ (1 << fdraw(31)),
                _ => m.point_step,
            };
            "field offset changed"
        }
        10 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            m.fields[i].datatype = match fdraw(2) {
                0 => fdraw(9) as u8,
                1 => fdraw(255) as u8,
                _ => m.fields[i].datatype ^ (1 << fdraw(7)),
            };
            "field datatype changed"
        }
        11 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            m.fields[i].count = nasty(m.fields[i].count as u64);
            "field count changed"
        }
        12 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            m.fields[i].name = match fdraw(3) {
                0 => m.fields[fdraw(nf - 1) as usize].name.clone(),
                _ => similar_name(&m.fields[i].name, FAULT),
            };
            "field name changed"
        }
        13 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            m.fields.remove(i);
            "field description lost"
        }
        14 if nf > 0 => {
            let i = fdraw(nf - 1) as usize;
            let mut f = m.fields[i].clone();
            if fchance(1, 2) {
                f.offset = nasty(f.offset as u64);
            }
            let at = fdraw(nf) as usize;
            m.fields.insert(at, f);
            "field description duplicated"
        }
        15 if nf > 1 => {
            let i = fdraw(nf - 1) as usize;
            let j = fdraw(nf - 1) as usize;
            if fchance(1, 2) {
                m.fields.swap(i, j);
            } else {
                let (a, b) = (m.fields[i].offset, m.fields[j].offset);
                m.fields[i].offset = b;
                m.fields[j].offset = a;
            }
            "field descriptions swapped"
        }
        16 => {
            // dimensions whose product overflows to the true size, or to something plausible
            let len = m.data.len() as u64;
            match fdraw(5) {
                0 => {
                    // w * h * step = len modulo 2^32
                    m.dimensions.width = 1 << 31;
                    m.dimensions.height = 2;
                    m.point_step = 1 << 31;
                    m.data.clear();
                }
                1 => {
                    m.dimensions.width = 1 << 31;
                    m.dimensions.height = 1 << 31;
                    m.point_step = 4 << fdraw(4);
                    m.data.clear();
                }
                2 => {
                    // the same number of bytes, claimed as more and smaller points
                    if m.point_step > 1 && m.dimensions.height == 1 && (len as u32) < u32::MAX {
                        m.dimensions.width = len as u32;
                        m.point_step = 1;
                    }
                }
                3 => {
                    // as fewer and larger points, or as one
                    m.dimensions.width = 1;
                    m.dimensions.height = 1;
                    m.point_step = len as u32;
                }
                4 => {
                    let (w, h) = (m.dimensions.width, m.dimensions.height);
                    m.dimensions.width = h;
                    m.dimensions.height = w;
                }
                _ => {
                    m.dimensions.width = (m.dimensions.width as u64 + (1 << 32) / m.point_step.max(1) as u64) as u32;
                }
            }
            "dimensions forged"
        }
        17 if nf > 0 => {
            // a point step smaller than the fields, with the data to match
            let n = m.dimensions.width as u64 * m.dimensions.height as u64;
            let s = fdraw(m.point_step.max(1) as u64 * 2) as u32;
            if n < 100_000 && n * s as u64 <= 1 << 20 {
                m.point_step = s;
                m.row_step = s.wrapping_mul(m.dimensions.width);
                m.data.resize((n * s as u64) as usize, 0x5A);
            }
            "points resized"
        }
        _ => "nothing",
    };
    shared::probe(&format!("fault:{what}"));
    log!("damage: {what}");
    what
}
