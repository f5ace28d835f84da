//! Layouts, LASzip parameter records and helpers to drive laz-rs.
use crate::refc::{ItemDef, Kind, Layout};
use laz::laszip::CompressorType;
use laz::LazVlr;

#[derive(Clone, Debug)]
pub struct Lay {
    pub name: String,
    pub l: Layout,
    pub pf: u8,
    pub extra: usize,
}

pub fn item(kind: Kind, version: u32) -> ItemDef {
    let size = match kind {
        Kind::Point10 => 20,
        Kind::Gps11 => 8,
        Kind::Rgb12 => 6,
        Kind::Wave13 | Kind::Wave14 => 29,
        Kind::Point14 => 30,
        Kind::Rgb14 => 6,
        Kind::RgbNir14 => 8,
        Kind::Byte | Kind::Byte14 => panic!("size needed"),
    };
    ItemDef { kind, size, version }
}

pub fn bytes_item(layered: bool, size: usize, version: u32) -> ItemDef {
    ItemDef { kind: if layered { Kind::Byte14 } else { Kind::Byte }, size, version }
}

pub fn type_code(k: Kind) -> u16 {
    match k {
        Kind::Byte => 0,
        Kind::Point10 => 6,
        Kind::Gps11 => 7,
        Kind::Rgb12 => 8,
        Kind::Wave13 => 9,
        Kind::Point14 => 10,
        Kind::Rgb14 => 11,
        Kind::RgbNir14 => 12,
        Kind::Wave14 => 13,
        Kind::Byte14 => 14,
    }
}

/// Item kinds of a point format
pub fn kinds(pf: u8) -> Vec<Kind> {
    use Kind::*;
    match pf {
        0 => vec![Point10],
        1 => vec![Point10, Gps11],
        2 => vec![Point10, Rgb12],
        3 => vec![Point10, Gps11, Rgb12],
        4 => vec![Point10, Gps11, Wave13],
        5 => vec![Point10, Gps11, Rgb12, Wave13],
        6 => vec![Point14],
        7 => vec![Point14, Rgb14],
        8 => vec![Point14, RgbNir14],
        9 => vec![Point14, Wave14],
        10 => vec![Point14, RgbNir14, Wave14],
        _ => panic!(),
    }
}

pub fn lay(pf: u8, version: u32, extra: usize) -> Lay {
    let mut items: Vec<ItemDef> = kinds(pf)
        .into_iter()
        .map(|k| item(k, if k == Kind::Wave13 { 1 } else { version }))
        .collect();
    if extra > 0 {
        items.push(bytes_item(pf >= 6, extra, version));
    }
    Lay { name: format!("pf{}v{}x{}", pf, version, extra), l: Layout { items }, pf, extra }
}

/// Every point format in every version its items exist in.
pub fn all_formats(extras: &[usize]) -> Vec<Lay> {
    let mut v = vec![];
    for pf in 0..=10u8 {
        for ver in if pf < 6 { [1, 2] } else { [3, 4] } {
            for x in extras {
                v.push(lay(pf, ver, *x));
            }
        }
    }
    v
}

/// A few layouts that cover every item codec at least once
pub fn few() -> Vec<Lay> {
    vec![lay(0, 2, 0), lay(5, 1, 1), lay(5, 2, 2), lay(6, 3, 0), lay(10, 3, 1), lay(10, 4, 2)]
}

/// Two cheap layouts: one pointwise, one layered
pub fn pair() -> Vec<Lay> {
    vec![lay(1, 2, 0), lay(6, 3, 1)]
}

pub const VARIABLE: u32 = u32::MAX;

pub fn record_data(compressor: u16, chunk_size: u32, items: &[(u16, u16, u16)]) -> Vec<u8> {
    let mut b = vec![];
    b.extend(compressor.to_le_bytes());
    b.extend(0u16.to_le_bytes()); // coder
    b.extend([2u8, 2]);
    b.extend(0u16.to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend(chunk_size.to_le_bytes());
    b.extend((-1i64).to_le_bytes());
    b.extend((-1i64).to_le_bytes());
    b.extend((items.len() as u16).to_le_bytes());
    for (t, s, v) in items {
        b.extend(t.to_le_bytes());
        b.extend(s.to_le_bytes());
        b.extend(v.to_le_bytes());
    }
    b
}

impl Lay {
    pub fn size(&self) -> usize {
        self.l.size()
    }
    pub fn layered(&self) -> bool {
        self.l.layered()
    }
    pub fn item_codes(&self) -> Vec<(u16, u16, u16)> {
        self.l.items.iter().map(|i| (type_code(i.kind), i.size as u16, i.version as u16)).collect()
    }
    pub fn vlr_data(&self, chunk_size: u32) -> Vec<u8> {
        let c = if self.layered() { CompressorType::LayeredChunked } else { CompressorType::PointWiseChunked };
        record_data(c as u16, chunk_size, &self.item_codes())
    }
    pub fn vlr(&self, chunk_size: u32) -> LazVlr {
        LazVlr::from_buffer(self.vlr_data(chunk_size)).expect("parameter record")
    }
    pub fn offset_of(&self, k: Kind) -> Option<usize> {
        let mut o = 0;
        for i in &self.l.items {
            if i.kind == k {
                return Some(o);
            }
            o += i.size;
        }
        None
    }
    /// The `k`-th of a fixed sequence of varied but realistic points: every field changes now and
    /// then, values differ between points.
    pub fn point(&self, k: usize) -> Vec<u8> {
        let mut p = vec![];
        for it in &self.l.items {
            let x = k as i64;
            match it.kind {
                Kind::Point10 => {
                    p.extend((1000 + (x * 37 + x * x % 11) as i32).to_le_bytes());
                    p.extend((-2000 + (x * 13 - x * x % 7) as i32).to_le_bytes());
                    p.extend((300 + (x % 5) as i32 * 4).to_le_bytes());
                    p.extend(((x * 7 % 90) as u16).to_le_bytes());
                    let n = 1 + (x / 2) % 5;
                    let r = 1 + x % n;
                    p.push((r | n << 3 | (x & 1) << 6) as u8);
                    p.push((x / 3 % 4) as u8);
                    p.push((x % 9) as u8);
                    p.push((x / 4) as u8);
                    p.extend(((x / 5) as u16).to_le_bytes());
                }
                Kind::Gps11 => p.extend(((100000.0 + x as f64 * 0.001) as f64).to_le_bytes()),
                Kind::Rgb12 | Kind::Rgb14 => {
                    for c in 0..3 {
                        p.extend(((x * (c + 3) * 257 % 65536) as u16).to_le_bytes());
                    }
                }
                Kind::RgbNir14 => {
                    for c in 0..4 {
                        p.extend(((x * (c + 3) * 259 % 65536) as u16).to_le_bytes());
                    }
                }
                Kind::Wave13 | Kind::Wave14 => {
                    p.push((x % 3) as u8);
                    p.extend(((60 + x * 256) as u64).to_le_bytes());
                    p.extend(((256 + x % 2) as u32).to_le_bytes());
                    p.extend((x as f32 * 0.5).to_le_bytes());
                    p.extend((x as f32 * -0.25).to_le_bytes());
                    p.extend((1.5f32).to_le_bytes());
                    p.extend((x as f32).to_le_bytes());
                }
                Kind::Point14 => {
                    p.extend((1000 + (x * 37 + x * x % 11) as i32).to_le_bytes());
                    p.extend((-2000 + (x * 13 - x * x % 7) as i32).to_le_bytes());
                    p.extend((300 + (x % 5) as i32 * 4).to_le_bytes());
                    p.extend(((x * 7 % 90) as u16).to_le_bytes());
                    let n = 1 + (x / 2) % 5;
                    let r = 1 + x % n;
                    p.push((r | n << 4) as u8);
                    p.push(((x / 2 % 3) << 4 | (x & 1) << 6 | x % 2) as u8);
                    p.push((x / 3 % 4) as u8);
                    p.push((x / 4) as u8);
                    p.extend(((x % 9 * 100) as i16).to_le_bytes());
                    p.extend(((x / 5) as u16).to_le_bytes());
                    p.extend((100000.0 + x as f64 * 0.001).to_le_bytes());
                }
                Kind::Byte | Kind::Byte14 => {
                    for b in 0..it.size {
                        p.push((x * (b as i64 + 1)) as u8);
                    }
                }
            }
        }
        p
    }
    pub fn points(&self, n: usize) -> Vec<u8> {
        (0..n).flat_map(|k| self.point(k)).collect()
    }
    /// the points number `from..to`
    pub fn range(&self, from: usize, to: usize) -> Vec<u8> {
        (from..to).flat_map(|k| self.point(k)).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(160) {
        s += &format!("{:02x}", x);
    }
    if b.len() > 160 {
        s += &format!("...({} bytes)", b.len());
    }
    s
}

/// First index where two byte strings differ
pub fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let d = first_diff(a, b);
    let w = |s: &[u8]| hex(&s[d.min(s.len())..(d + 24).min(s.len())]);
    format!("lengths {} / {}, first difference at byte {}: {} / {}", a.len(), b.len(), d, w(a), w(b))
}
