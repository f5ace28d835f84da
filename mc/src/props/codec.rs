//! C01 (lossless) and C02 (byte-exact LASzip encoding): the same exhaustive families of point
//! sequences, driven through the whole writer and reader.
use super::Prop;
use crate::engine::*;
use crate::lay::*;
use crate::refc::{self, Kind, Layout};
use laz::{LasZipCompressor, LasZipDecompressor};
use std::io::Cursor;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    RoundTrip,
    Reference,
}

pub fn write_seq(l: &Lay, chunk: u32, pts: &[u8]) -> Result<Vec<u8>, Fail> {
    let mut c = match LasZipCompressor::new(Cursor::new(Vec::new()), l.vlr(chunk)) {
        Ok(c) => c,
        Err(e) => return fail("writer-new", format!("{}: {}", l.name, e)),
    };
    if let Err(e) = c.compress_many(pts) {
        return fail("compress", format!("{}: compress_many: {}", l.name, e));
    }
    if let Err(e) = c.done() {
        return fail("compress", format!("{}: done: {}", l.name, e));
    }
    Ok(c.into_inner().into_inner())
}

pub fn read_seq(l: &Lay, chunk: u32, bytes: &[u8], n: usize) -> Result<Vec<u8>, Fail> {
    let mut d = match LasZipDecompressor::new(Cursor::new(bytes), l.vlr(chunk)) {
        Ok(d) => d,
        Err(e) => return fail("reader-new", format!("{}: {}", l.name, e)),
    };
    let mut out = vec![0x5Au8; n * l.size()];
    if let Err(e) = d.decompress_many(&mut out) {
        return fail("decompress", format!("{}: decompress_many of {} points: {}", l.name, n, e));
    }
    Ok(out)
}

pub fn case(ch: &Ch, mode: Mode, l: &Lay, chunk: u32, pts: &[u8]) -> Res {
    let ps = l.size();
    let n = pts.len() / ps;
    ch.note(|| format!("{} chunk size {} points {}", l.name, chunk, pts.chunks(ps).take(10).map(hex).collect::<Vec<_>>().join(" ")));
    let bytes = write_seq(l, chunk, pts)?;
    let bytes = match mode {
        Mode::RoundTrip => bytes,
        Mode::Reference => {
            let chunks: Vec<&[u8]> = pts.chunks(ps * chunk as usize).collect();
            let r = refc::encode_stream(&l.l, &chunks, false, 0);
            if r != bytes {
                return fail(
                    format!("bytes:{}", l.name),
                    format!("{}: the compressed stream of {} points differs from the LASzip encoding: {}", l.name, n, diff(&bytes, &r)),
                );
            }
            ch.validated();
            r
        }
    };
    let back = read_seq(l, chunk, &bytes, n)?;
    ch.steps(2 * n as u64);
    if back != pts {
        let d = first_diff(&back, pts);
        return fail(
            format!("points:{}", l.name),
            format!("{}: point {} of {} comes back as {} instead of {} (field byte {})", l.name, d / ps, n, hex(&back[d / ps * ps..][..ps]), hex(&pts[d / ps * ps..][..ps]), d % ps),
        );
    }
    if mode == Mode::RoundTrip {
        ch.validated();
    }
    ch.outcome(&bytes);
    Ok(())
}

fn le(v: u64, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

const I32S: [u64; 10] = [0, 1, -1i64 as u64, 100, 32768, 65535, 0x7FFF_FFFF, 0x8000_0000, 0x4000_0000, 0xBFFF_FFFF];
const U16S: [u64; 8] = [0, 1, 255, 256, 0x1234, 0x7FFF, 0x8000, 0xFFFF];
const U8S: [u64; 8] = [0, 1, 8, 0x55, 127, 128, 254, 255];

pub fn gps_values() -> Vec<u64> {
    vec![
        0,
        (-0.0f64).to_bits(),
        1.0f64.to_bits(),
        100000.0f64.to_bits(),
        100000.0f64.to_bits() + 1,
        100000.0f64.to_bits() + 1000,
        f64::NAN.to_bits(),
        f64::NEG_INFINITY.to_bits(),
        u64::MAX,
        0x7FFF_FFFF_FFFF_FFFF,
    ]
}

fn f32s() -> Vec<u64> {
    [0.0f32, -0.0, 1.5, f32::NAN, f32::NEG_INFINITY, f32::MIN_POSITIVE / 2.0].iter().map(|f| f.to_bits() as u64).chain([0xFFFF_FFFF, 0x8000_0001]).collect()
}

/// (name, offset, width, values)
pub type Field = (&'static str, usize, usize, Vec<u64>);

pub fn fields(k: Kind, size: usize) -> Vec<Field> {
    match k {
        Kind::Point10 => vec![
            ("x", 0, 4, I32S.to_vec()),
            ("y", 4, 4, I32S.to_vec()),
            ("z", 8, 4, I32S.to_vec()),
            ("intensity", 12, 2, U16S.to_vec()),
            ("bits", 14, 1, vec![0, 0x09, 0x11, 0x12, 0x24, 0x7F, 0x80, 0xC0, 0xFF]),
            ("class", 15, 1, U8S.to_vec()),
            ("angle", 16, 1, U8S.to_vec()),
            ("user", 17, 1, U8S.to_vec()),
            ("source", 18, 2, U16S.to_vec()),
        ],
        Kind::Gps11 => vec![("gps", 0, 8, gps_values())],
        Kind::Rgb12 | Kind::Rgb14 => vec![("r", 0, 2, U16S.to_vec()), ("g", 2, 2, U16S.to_vec()), ("b", 4, 2, U16S.to_vec())],
        Kind::RgbNir14 => vec![("r", 0, 2, U16S.to_vec()), ("g", 2, 2, U16S.to_vec()), ("b", 4, 2, U16S.to_vec()), ("nir", 6, 2, U16S.to_vec())],
        Kind::Wave13 | Kind::Wave14 => vec![
            ("descr", 0, 1, U8S.to_vec()),
            ("offset", 1, 8, vec![0, 60, 61, 316, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX, 1 << 63, (1 << 63) - 1]),
            ("size", 9, 4, vec![0, 1, 256, 257, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
            ("location", 13, 4, f32s()),
            ("dx", 17, 4, f32s()),
            ("dy", 21, 4, f32s()),
            ("dz", 25, 4, f32s()),
        ],
        Kind::Point14 => vec![
            ("x", 0, 4, I32S.to_vec()),
            ("y", 4, 4, I32S.to_vec()),
            ("z", 8, 4, I32S.to_vec()),
            ("intensity", 12, 2, U16S.to_vec()),
            ("returns", 14, 1, vec![0, 0x11, 0x21, 0x22, 0x31, 0x57, 0x75, 0xF0, 0xFF]),
            ("flags", 15, 1, vec![0, 0x0F, 0x10, 0x20, 0x30, 0x40, 0x80, 0xFF]),
            ("class", 16, 1, U8S.to_vec()),
            ("user", 17, 1, U8S.to_vec()),
            ("angle", 18, 2, U16S.to_vec()),
            ("source", 20, 2, U16S.to_vec()),
            ("gps", 22, 8, gps_values()),
        ],
        Kind::Byte | Kind::Byte14 => (0..size.min(3)).map(|i| (["b0", "b1", "b2"][i], i, 1, U8S.to_vec())).collect(),
    }
}

/// For every item codec (kind, version) the smallest layout with it
pub fn item_layouts() -> Vec<(Lay, Kind)> {
    let mut v = vec![];
    for ver in [1, 2] {
        v.push((lay(0, ver, 0), Kind::Point10));
        v.push((lay(1, ver, 0), Kind::Gps11));
        v.push((lay(2, ver, 0), Kind::Rgb12));
        v.push((lay(4, ver, 0), Kind::Wave13));
        v.push((lay(0, ver, 3), Kind::Byte));
    }
    for ver in [3, 4] {
        v.push((lay(6, ver, 0), Kind::Point14));
        v.push((lay(7, ver, 0), Kind::Rgb14));
        v.push((lay(8, ver, 0), Kind::RgbNir14));
        v.push((lay(9, ver, 0), Kind::Wave14));
        v.push((lay(6, ver, 3), Kind::Byte14));
    }
    v
}

/// Background for the fields that are not varied: constant, or changing from point to point
/// (scanner channels, returns and times included).
fn background(l: &Lay, kind: usize, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|k| l.point(if kind == 0 { 3 } else { k })).collect()
}

/// A sequence over 0..k in which every word of length n occurs (de Bruijn, unrolled by n-1): one
/// stream that goes through every window of n moves, from an already adapted state.
pub fn windows(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let (mut a, mut out) = (vec![0; k * n + 1], vec![]);
    db(1, 1, k, n, &mut a, &mut out);
    for i in 0..n - 1 {
        let x = out[i % out.len()];
        out.push(x);
    }
    out
}

fn set(p: &mut [u8], off: usize, v: &[u8]) {
    p[off..off + v.len()].copy_from_slice(v);
}

pub fn scenarios(mode: Mode, th: bool) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    // --- every layout: small sequences of varied points, every chunk size
    let lays: Arc<Vec<Lay>> = Arc::new(all_formats(&[0, 1, 2, 5]));
    {
        let lays = lays.clone();
        v.push(Scenario::new("all layouts x point counts x chunk sizes", move |ch| {
            let l = ch.of(&lays);
            let n = 1 + ch.choose(7);
            let c = 1 + ch.choose(5) as u32;
            case(ch, mode, l, c, &l.points(n))
        }));
    }
    // layouts with other item combinations: all subsets of the pointwise items in every version mix
    v.push(Scenario::new("pointwise item lists in every version mix", move |ch| {
        let mut items = vec![];
        for (k, size) in [(Kind::Point10, 0), (Kind::Gps11, 0), (Kind::Rgb12, 0), (Kind::Wave13, 0), (Kind::Byte, 2)] {
            match ch.choose(3) {
                0 => {}
                ver => items.push(if size > 0 { bytes_item(false, size, ver as u32) } else { item(k, ver as u32) }),
            }
        }
        if items.is_empty() {
            return Ok(());
        }
        let l = Lay { name: format!("{:?}", items.iter().map(|i| (i.kind, i.version)).collect::<Vec<_>>()), l: Layout { items }, pf: 0, extra: 0 };
        case(ch, mode, &l, 4, &l.points(6))
    }));
    // --- every field: all sequences over its sharp values
    for (l, kind) in item_layouts() {
        let off = l.offset_of(kind).unwrap();
        let size = l.l.items.iter().find(|i| i.kind == kind).unwrap().size;
        for (name, fo, w, vals) in fields(kind, size) {
            let l = l.clone();
            let d = if th { 4 } else { 2 };
            let (l2, vals2) = (l.clone(), vals.clone());
            v.push(Scenario::new(format!("{} {:?}.{}: all value sequences of length {}", l.name, kind, name, d), move |ch| {
                let bg = ch.choose(2);
                let mut pts = vec![];
                // primed with 0 or 3 points
                let prime = ch.choose(2) * 3;
                for p in background(&l2, bg, prime + d + 1).into_iter().enumerate().map(|(i, mut p)| {
                    if i >= prime && i < prime + d {
                        set(&mut p, off + fo, &le(*ch.of(&vals2), w));
                    }
                    p
                }) {
                    pts.extend(p);
                }
                case(ch, mode, &l2, 1000, &pts)
            }));
            let n = if th { 5 } else { 3 };
            v.push(Scenario::new(format!("{} {:?}.{}: one stream with every window of {} values", l.name, kind, name, n), move |ch| {
                let bg = ch.choose(2);
                let mut pts = vec![];
                for (k, i) in windows(vals.len(), n).into_iter().enumerate() {
                    let mut p = l.point(if bg == 0 { 3 } else { k });
                    set(&mut p, off + fo, &le(vals[i], w));
                    pts.extend(p);
                }
                case(ch, mode, &l, *ch.of(&[1_000_000, 777]), &pts)
            }));
        }
    }
    // --- return numbers and flags: every pair of byte values
    for ver in [1u32, 2] {
        v.push(Scenario::new(format!("point10 v{}: every pair of return/flag bytes", ver), move |ch| {
            let l = lay(0, ver, 0);
            let a = ch.choose(256) as u8;
            // one stream holds all second bytes for a first byte
            let mut pts = vec![];
            for b in 0..=255u8 {
                for (k, x) in [a, b, a, b].into_iter().enumerate() {
                    let mut p = l.point(b as usize * 3 + k);
                    p[14] = x;
                    pts.extend(p);
                }
            }
            case(ch, mode, &l, 100_000, &pts)
        }));
        v.push(Scenario::new(format!("point10 v{}: all sequences of four return bytes", ver), move |ch| {
            let l = lay(0, ver, 0);
            let mut pts = vec![];
            for k in 0..5 {
                let mut p = l.point(k);
                if k < 4 {
                    p[14] = *ch.of(&[0x09u8, 0x11, 0x12, 0x19, 0x3F, 0x00, 0x40]);
                }
                pts.extend(p);
            }
            case(ch, mode, &l, 1000, &pts)
        }));
    }
    for ver in [3u32, 4] {
        for flip in [false, true] {
            v.push(Scenario::new(format!("point14 v{}: every pair of return bytes{}", ver, if flip { ", gps changing" } else { "" }), move |ch| {
                let l = lay(6, ver, 0);
                let a = ch.choose(256) as u8;
                let mut pts = vec![];
                for b in 0..=255u8 {
                    for (k, x) in [a, b, b].into_iter().enumerate() {
                        let mut p = l.point(b as usize / 16 + k);
                        p[14] = x;
                        p[15] = 0;
                        if !flip {
                            set(&mut p, 22, &1000.0f64.to_le_bytes());
                        } else {
                            set(&mut p, 22, &(1000.0 + b as f64 + k as f64 * 0.25).to_le_bytes());
                        }
                        pts.extend(p);
                    }
                }
                case(ch, mode, &l, 100_000, &pts)
            }));
        }
        v.push(Scenario::new(format!("point14 v{}: every pair of flag bytes", ver), move |ch| {
            let l = lay(6, ver, 0);
            let a = ch.choose(256) as u8;
            let mut pts = vec![];
            for b in 0..=255u8 {
                for (k, x) in [a, b].into_iter().enumerate() {
                    let mut p = l.point(b as usize / 3 + k);
                    p[15] = x;
                    pts.extend(p);
                }
            }
            case(ch, mode, &l, 100_000, &pts)
        }));
        // scanner channels: all sequences, for every layered format
        for pf in 6..=10u8 {
            v.push(Scenario::new(format!("pf{} v{}: one stream with every window of scanner channels", pf, ver), move |ch| {
                let l = lay(pf, ver, 1);
                let bg = ch.choose(2);
                let mut pts = vec![];
                for (k, c) in windows(4, if th { 9 } else { 7 }).into_iter().enumerate() {
                    let mut p = l.point(if bg == 0 { k } else { 2 + k / 2 });
                    p[15] = p[15] & 0xCF | (c as u8) << 4;
                    pts.extend(p);
                }
                case(ch, mode, &l, *ch.of(&[1_000_000, 50]), &pts)
            }));
            let len = if th { 7 } else { 4 };
            v.push(Scenario::new(format!("pf{} v{}: all scanner channel sequences of length {}", pf, ver, len), move |ch| {
                let l = lay(pf, ver, 1);
                let bg = ch.choose(2);
                let mut pts = vec![];
                for k in 0..len {
                    let mut p = l.point(if bg == 0 { k } else { 2 + k / 2 });
                    p[15] = p[15] & 0xCF | (ch.choose(4) as u8) << 4;
                    pts.extend(p);
                }
                case(ch, mode, &l, 1000, &pts)
            }));
        }
        // every subset of the fields changes
        let change = |p: &mut [u8], m: usize, d: u8| {
            for f in 0..9 {
                if m >> f & 1 == 0 {
                    continue;
                }
                match f {
                    0 => p[14] = p[14] ^ 0x53 ^ (d << 4), // returns
                    1 => p[15] ^= 0x10 * d,               // channel
                    2 => p[25] ^= d,                      // gps
                    3 => p[18] = p[18].wrapping_add(7 * d),
                    4 => p[20] = p[20].wrapping_add(5 * d),
                    5 => p[12] = p[12].wrapping_add(3 * d),
                    6 => p[16] ^= d,
                    7 => p[15] ^= 0x41 * (d & 1) | 0x80,
                    _ => p[17] ^= d,
                }
            }
        };
        v.push(Scenario::new(format!("point14 v{}: every subset of changing fields, then another", ver), move |ch| {
            let l = lay(6, ver, 1);
            let second = if th { 512 } else { 4 };
            let masks = [ch.choose(512), ch.choose(second) * 511 / (second - 1)];
            let mut p = l.point(0);
            let mut pts = p.clone();
            for (i, m) in masks.iter().enumerate() {
                change(&mut p, *m, 1 + i as u8);
                pts.extend(&p);
            }
            case(ch, mode, &l, 1000, &pts)
        }));
        v.push(Scenario::new(format!("point14 v{}: one stream with every pair of subsets of changing fields", ver), move |ch| {
            let l = lay(6, ver, 1);
            let mut p = l.point(0);
            let mut pts = p.clone();
            for (i, m) in windows(512, 2).into_iter().enumerate() {
                change(&mut p, m, 1 + (i % 3) as u8);
                pts.extend(&p);
            }
            case(ch, mode, &l, *ch.of(&[1_000_000, 5_000]), &pts)
        }));
    }
    // --- gps: moves relative to the remembered sequences
    for (l, off) in [(lay(1, 1, 0), 20), (lay(1, 2, 0), 20), (lay(6, 3, 0), 22), (lay(6, 4, 0), 22)] {
        let d = if th { 4 } else { 3 };
        let layered = l.layered();
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: one stream with every window of {} gps moves", l.name, d + 1), move |ch| {
            let chans = if layered { ch.choose(2) } else { 0 };
            gps_case(ch, mode, &l2, off, &windows(17, d + 1), 1, chans)
        }));
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: all sequences of {} gps moves", l.name, d), move |ch| {
            let l = &l2;
            let moves = if layered && !th { 12 } else { 17 };
            gps_case(ch, mode, l, off, &(0..d).map(|_| ch.choose(moves)).collect::<Vec<_>>(), 1, 0)
        }));
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: gps moves repeated (two, then two for long)", l.name), move |ch| {
            let l = &l2;
            let m: Vec<usize> = (0..3).map(|i| if i == 2 && !th { ch.choose(3) * 4 + 1 } else { ch.choose(17) }).collect();
            let chans = if layered { ch.choose(2) } else { 0 };
            gps_case(ch, mode, l, off, &[m[0], m[1], m[1], m[2], m[2]], 9, chans)
        }));
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: every gps multiplier", l.name), move |ch| {
            let l = &l2;
            let delta = *ch.of(&[1i64, 3, 1000, 0x3FFF_FF, 0x7FFF_FFFF]);
            let m0 = ch.choose(8) as i64 * 150 - 160;
            let mut t = 100000.0f64.to_bits() as i64;
            let mut pts = vec![];
            let mut push = |t: i64, k: usize| {
                let mut p = l.point(k % 5);
                set(&mut p, off, &(t as u64).to_le_bytes());
                if layered {
                    p[15] &= 0xCF;
                }
                pts.extend(p);
            };
            push(t, 0);
            for m in m0..m0 + 150 {
                t = t.wrapping_add(delta);
                push(t, 1);
                t = t.wrapping_add(delta);
                push(t, 2);
                t = t.wrapping_add(delta.wrapping_mul(m));
                push(t, 3);
                // off the multiple by a little
                t = t.wrapping_add(delta.wrapping_mul(m).wrapping_add(1));
                push(t, 4);
            }
            case(ch, mode, l, 100_000, &pts)
        }));
    }
    // --- colours
    for (l, off, nch) in [
        (lay(2, 1, 0), 20, 3),
        (lay(2, 2, 0), 20, 3),
        (lay(7, 3, 0), 30, 3),
        (lay(7, 4, 0), 30, 3),
        (lay(8, 3, 0), 30, 4),
        (lay(8, 4, 0), 30, 4),
    ] {
        let vals: &'static [u16] = if th { &[0, 1, 0xFF, 0x100, 0x1234, 0x8000, 0xFFFF] } else { &[0, 0xFF, 0x100, 0x1234, 0xFF80] };
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: every pair of sharp colours", l.name), move |ch| {
            let l = &l2;
            let mut pts = vec![];
            let first: Vec<u16> = (0..3).map(|_| *ch.of(vals)).collect();
            // all second colours in one stream, back to the first one in between
            let n = vals.len();
            for s in 0..n * n * n {
                let second = [vals[s % n], vals[s / n % n], vals[s / n / n]];
                for c in [&first[..], &second[..]] {
                    let mut p = l.point(0);
                    for (i, x) in c.iter().enumerate() {
                        set(&mut p, off + 2 * i, &x.to_le_bytes());
                    }
                    if nch == 4 {
                        set(&mut p, off + 6, &c[s % 3].to_le_bytes());
                    }
                    pts.extend(p);
                }
            }
            case(ch, mode, l, 100_000, &pts)
        }));
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: all low byte differences", l.name), move |ch| {
            let l = &l2;
            let hi = ch.flag();
            let base = *ch.of(&[0u16, 1, 100, 128, 200, 255]);
            let rd = ch.choose(if th { 256 } else { 32 }) as u16 * if th { 1 } else { 8 };
            let mut pts = vec![];
            let sh = if hi { 8 } else { 0 };
            for g in 0..256u16 {
                for c in [[base, base / 2, base ^ 0x55], [rd, g, (rd / 2 + g * 3) & 255]] {
                    let mut p = l.point(0);
                    for (i, x) in c.iter().enumerate() {
                        set(&mut p, off + 2 * i, &(x << sh).to_le_bytes());
                    }
                    if nch == 4 {
                        set(&mut p, off + 6, &(c[1] << sh | 7).to_le_bytes());
                    }
                    pts.extend(p);
                }
            }
            case(ch, mode, l, 100_000, &pts)
        }));
        let l2 = l.clone();
        let d = if th { 3 } else { 2 };
        const SETS: [usize; 11] = [0, 1, 2, 3, 0x15, 0x2A, 0x3F, 0xC0, 0xFF, 0x0F, 0x3C];
        v.push(Scenario::new(format!("{}: all sequences of {} changed-byte sets", l.name, d), move |ch| {
            let l = &l2;
            let nb = 2 * nch;
            let mut p = l.point(1);
            let mut pts = p.clone();
            for k in 0..d {
                let m = if k == 0 { ch.choose(1 << nb) } else { SETS[ch.choose(11)] };
                for b in 0..nb {
                    if m >> b & 1 == 1 {
                        p[off + b] = p[off + b].wrapping_add(1 + 30 * k as u8);
                    }
                }
                pts.extend(&p);
            }
            case(ch, mode, l, 1000, &pts)
        }));
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: one stream with every window of changed-byte sets", l.name), move |ch| {
            let l = &l2;
            let nb = 2 * nch;
            let every = ch.flag();
            let chans = if l.layered() { ch.choose(2) as u8 } else { 0 };
            let seq = if every { windows(1 << nb, 2) } else { windows(11, if th { 5 } else { 4 }).into_iter().map(|i| SETS[i]).collect() };
            let mut p = l.point(1);
            let mut pts = p.clone();
            for (k, m) in seq.into_iter().enumerate() {
                for b in 0..nb {
                    if m >> b & 1 == 1 {
                        p[off + b] = p[off + b].wrapping_add((1 + k * 41 % 251) as u8);
                    }
                }
                if l.layered() {
                    p[15] ^= chans * ((k % 5 == 2) as u8) << 5;
                }
                pts.extend(&p);
            }
            case(ch, mode, l, 1_000_000, &pts)
        }));
    }
    // --- wave packets
    for (l, off) in [(lay(4, 1, 0), 28), (lay(9, 3, 0), 30), (lay(9, 4, 0), 30)] {
        let d = if th { 4 } else { 2 };
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: all sequences of {} wave packet moves", l.name, d), move |ch| {
            let moves: Vec<usize> = (0..d).map(|_| ch.choose(12)).collect();
            wave_case(ch, mode, &l2, off, &moves)
        }));
        v.push(Scenario::new(format!("{}: one stream with every window of wave packet moves", l.name), move |ch| {
            wave_case(ch, mode, &l, off, &windows(12, if th { 5 } else { 4 }))
        }));
    }
    // --- extra bytes
    for ver in 1..=4u32 {
        let pf = if ver < 3 { 0 } else { 6 };
        v.push(Scenario::new(format!("extra bytes v{}: every pair of values", ver), move |ch| {
            let l = lay(pf, ver, 2);
            let a = ch.choose(256);
            let mut pts = vec![];
            for b in 0..=255u8 {
                for x in [a as u8, b] {
                    let mut p = l.point(0);
                    let o = p.len() - 2;
                    p[o] = x;
                    p[o + 1] = x / 64;
                    pts.extend(p);
                }
            }
            case(ch, mode, &l, 100_000, &pts)
        }));
        v.push(Scenario::new(format!("extra bytes v{}: every number of bytes, every set of changing ones", ver), move |ch| {
            let n = if th { 1 + ch.choose(300) } else { *ch.of(&[1usize, 2, 3, 4, 7, 8, 16, 17, 32, 33, 257]) };
            let l = lay(pf, ver, n);
            let w = n.min(3);
            let masks: Vec<usize> = (0..2).map(|_| ch.choose(1 << w)).collect();
            let chan = if ver > 2 { ch.choose(2) as u8 } else { 0 };
            let mut p = l.point(0);
            let mut pts = p.clone();
            for m in masks {
                for b in 0..w {
                    if m >> b & 1 == 1 {
                        // spread over the item: first, last, middle
                        let i = [0, n - 1, n / 2][b];
                        let o = p.len() - n;
                        p[o + i] = p[o + i].wrapping_add(200);
                    }
                }
                if ver > 2 {
                    p[15] ^= chan << 4;
                }
                pts.extend(&p);
            }
            case(ch, mode, &l, 1000, &pts)
        }));
    }
    // more bytes than a byte counts, in every layout
    let ls = Arc::new(if th { all_formats(&[128, 255, 256, 257, 300, 1000]) } else { all_formats(&[256, 300]) });
    v.push(Scenario::new("many extra bytes", move |ch| {
        let l = ch.of(&ls[..]);
        let c = *ch.of(&[2u32, 50]);
        // some change rarely, some always
        case(ch, mode, l, c, &[l.points(3), l.point(2).repeat(2), l.range(90, 92)].concat())
    }));
    let ls = Arc::new(vec![lay(0, 1, 65_515), lay(0, 2, 65_515), lay(6, 3, 65_505), lay(6, 4, 65_505)]);
    v.push(Scenario::new("the longest records", move |ch| {
        let l = ch.of(&ls[..]);
        case(ch, mode, l, 2, &l.points(3))
    }));
    // --- coordinates: median predictors and bucket contexts
    for l in [lay(0, 1, 0), lay(0, 2, 0), lay(6, 3, 0), lay(6, 4, 0)] {
        let d = if th { 5 } else { 3 };
        let l2 = l.clone();
        v.push(Scenario::new(format!("{}: all sequences of {} coordinate steps", l.name, d), move |ch| {
            let rets = ch.choose(2);
            coord_case(ch, mode, &l2, &(0..d).map(|_| ch.choose(6)).collect::<Vec<_>>(), rets)
        }));
        v.push(Scenario::new(format!("{}: one stream with every window of coordinate steps", l.name), move |ch| {
            let rets = ch.choose(3);
            coord_case(ch, mode, &l, &windows(6, if th { 8 } else { 6 }), rets)
        }));
    }
    // --- long runs: prefix u, then v repeated, until every adaptive model has been rescaled
    let reps = if th { 100_000 } else { 34_000 };
    let longs: Vec<Lay> = all_formats(&[1]).into_iter().filter(|l| th || [0, 3, 5, 6, 10].contains(&l.pf)).collect();
    for l in longs {
        v.push(Scenario::new(format!("{}: long periodic runs", l.name), move |ch| {
            let period = *ch.of(&[1usize, 2, 7, 97]);
            let n = reps;
            let pts: Vec<u8> = l.points(period).into_iter().cycle().take(n * l.size()).collect();
            case(ch, mode, &l, *ch.of(&[1_000_000u32, 30_000]), &pts)
        }));
    }
    // --- one chunk whose size passes every buffer boundary of the coder
    for l in if th { vec![lay(1, 2, 0), lay(3, 1, 0), lay(6, 3, 1)] } else { vec![lay(1, 2, 0), lay(6, 3, 1)] } {
        v.push(Scenario::new(format!("{}: every number of incompressible points around the coder's buffers", l.name), move |ch| {
            let base = *ch.of(&[4096usize, 8192, 12288]);
            // the compressed size of these points is about 24 bytes each
            let est = base / 24;
            let n = est.saturating_sub(40) + ch.choose(if th { 160 } else { 60 });
            let mut pts = vec![];
            let mut s = 12345u64;
            for _ in 0..n {
                let mut p = l.point(0);
                for b in p.iter_mut() {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *b = (s >> 56) as u8;
                }
                pts.extend(p);
            }
            case(ch, mode, &l, 1_000_000, &pts)
        }));
    }
    v
}

fn coord_case(ch: &Ch, mode: Mode, l: &Lay, moves: &[usize], rets: usize) -> Res {
    let steps = [0i32, 1, -7, 300, -70000, i32::MIN];
    let mut x = [1000i32, -500, 40];
    let mut pts = vec![];
    for k in 0..moves.len() + 1 {
        if k > 0 {
            let s = steps[moves[k - 1]];
            x[0] = x[0].wrapping_add(s);
            x[1] = x[1].wrapping_sub(s.wrapping_mul(3));
            x[2] = x[2].wrapping_add(s / 2);
        }
        let mut p = l.point(0);
        for i in 0..3 {
            set(&mut p, 4 * i, &x[i].to_le_bytes());
        }
        if rets > 0 {
            let k = if rets == 1 { k % 2 } else { k * k % 7 };
            p[14] = if l.layered() { [0x21, 0x22, 0x11, 0x31, 0x32, 0x33, 0x54][k] } else { [0x11, 0x12, 0x09, 0x19, 0x1A, 0x1B, 0x2C][k] };
        }
        pts.extend(p);
    }
    case(ch, mode, l, 1_000_000, &pts)
}

fn wave_case(ch: &Ch, mode: Mode, l: &Lay, off: usize, moves: &[usize]) -> Res {
    let (mut o, mut s) = (1u64 << 40, 1000u32);
    let mut pts = vec![];
    for k in 0..moves.len() + 1 {
        let mut p = l.point(k);
        if k > 0 {
            match moves[k - 1] {
                0 => {}
                1 => o = o.wrapping_add(s as u64),
                2 => o = o.wrapping_add(77),
                3 => o = o.wrapping_sub(1 << 31),
                4 => o = o.wrapping_add(1 << 31),
                5 => o = o.wrapping_sub(1 << 33),
                6 => o ^= 1 << 63,
                7 => s = s.wrapping_add(1),
                8 => s = u32::MAX,
                9 => s = 1 << 31,
                10 => {
                    s = u32::MAX - 5;
                    o = u64::MAX
                }
                _ => o = o.wrapping_add((s as i32) as u64),
            }
        }
        set(&mut p, off + 1, &o.to_le_bytes());
        set(&mut p, off + 9, &s.to_le_bytes());
        pts.extend(p);
    }
    case(ch, mode, l, 1_000_000, &pts)
}

/// `moves`, each `rep` times
fn gps_case(ch: &Ch, mode: Mode, l: &Lay, off: usize, moves: &[usize], rep: usize, chans: usize) -> Res {
    let mut t = 100000.0f64.to_bits();
    let mut hist = vec![t, t, t, t, t];
    let mut delta = 1000u64;
    let mut pts = vec![];
    let mut push = |t: u64, k: usize| {
        let mut p = l.point(k % 3);
        set(&mut p, off, &t.to_le_bytes());
        if l.layered() {
            p[15] = p[15] & 0xCF | ((k * chans % 2) as u8) << 4;
        }
        pts.extend(p);
    };
    push(t, 0);
    let mut k = 1;
    for m in moves {
        for _ in 0..rep {
            let prev = t;
            t = match m {
                0 => t,
                1 => t.wrapping_add(delta),
                2 => t.wrapping_add(delta.wrapping_mul(7)),
                3 => t.wrapping_add(1 << 31), // beyond 32 bits: new sequence
                4 => hist[hist.len() - 2],    // back to the sequence before
                5 => hist[hist.len() - 3].wrapping_add(5),
                6 => t.wrapping_sub(delta),
                7 => t.wrapping_add(delta.wrapping_mul(600)),
                8 => t ^ (1 << 63),
                9 => t.wrapping_sub(delta.wrapping_mul(30)),
                10 => t.wrapping_add(0x7FFF_FFFF),
                11 => t.wrapping_sub(1 << 34),
                12 => t.wrapping_sub(0x8000_0000),
                13 => t.wrapping_add(1),
                14 => t.wrapping_add(delta.wrapping_mul(499)).wrapping_add(3),
                15 => 0,
                _ => u64::MAX,
            };
            let dd = t.wrapping_sub(prev) as i64;
            if dd != 0 && dd as i32 as i64 == dd && *m != 0 && *m != 7 && *m != 9 && *m != 2 && *m != 14 {
                delta = dd as u64;
            }
            hist.push(t);
            push(t, k);
            k += 1;
        }
    }
    case(ch, mode, l, 100_000, &pts)
}

pub fn c01(th: bool) -> Prop {
    Prop::new(scenarios(Mode::RoundTrip, th), &["value alphabets per field are the listed extreme values; sequences to the stated depth, long runs periodic"])
}

pub fn c02(th: bool) -> Prop {
    let mut v = fixtures();
    v.extend(scenarios(Mode::Reference, th));
    v.push(super::big::many_chunks(th));
    v.push(Scenario::new("chunk tables: all of up to three entries", |ch| super::c13_table::reference_case(ch)));
    Prop::new(v, &["the reference model (mc/src/refc) is bound to LASzip by decoding and re-encoding the LASzip-made fixture files byte for byte", "no LASzip-made layered file is available: for versions 3 and 4 the reference is the format definition as transcribed"])
}

/// A LAZ file: (point data offset, parameter record, number of points)
pub fn laz_header(b: &[u8]) -> (usize, laz::LazVlr, usize) {
    let mut c = Cursor::new(b);
    let (h, vlr) = laz::las::file::read_header_and_vlrs(&mut c).unwrap();
    (h.offset_to_points as usize, vlr.unwrap(), h.num_points as usize)
}

pub const FIXTURES: [&str; 6] = ["point10", "point-time", "point-color", "point-time-color", "extra-bytes", "point-version-1-point-wise"];

/// The files written by LASzip decode, in the reference model and in the code, to the points of
/// their uncompressed twins, and both encoders reproduce them byte for byte.
fn fixtures() -> Vec<Scenario> {
    vec![Scenario::new("files written by LASzip", |ch| {
        let f = *ch.of(&FIXTURES);
        let dir = "/repo/tests/data";
        let laz = std::fs::read(format!("{}/{}.laz", dir, f)).unwrap();
        let las = std::fs::read(format!("{}/{}.las", dir, f)).unwrap();
        let (off, vlr, n) = laz_header(&laz);
        let ps = vlr.items_size() as usize;
        let items: Vec<refc::ItemDef> = vlr
            .items()
            .iter()
            .map(|i| refc::ItemDef {
                kind: match u16::from(i.item_type()) {
                    0 => Kind::Byte,
                    6 => Kind::Point10,
                    7 => Kind::Gps11,
                    8 => Kind::Rgb12,
                    x => panic!("item {}", x),
                },
                size: i.size() as usize,
                version: i.version() as u32,
            })
            .collect();
        let l = Lay { name: f.into(), l: Layout { items }, pf: 0, extra: 0 };
        ch.note(|| format!("{} {:?} {} points chunk {}", f, l.l, n, vlr.chunk_size()));
        if f.starts_with("point-version-1") {
            let mut d = LasZipDecompressor::new(Cursor::new(&laz[off..]), vlr.clone()).map_err(|e| Fail { key: "fixture".into(), msg: e.to_string() })?;
            let mut p = vec![0u8; n * ps];
            d.decompress_many(&mut p).unwrap();
            let lo = u32::from_le_bytes(las[96..100].try_into().unwrap()) as usize;
            let pts = &las[lo..lo + n * ps];
            ensure!(p == pts, "fixture", "{}: laz-rs decodes other points: {}", f, diff(&p, pts));
            let (q, used) = match refc::decode_chunk(&l.l, &laz[off..], n) {
                Ok(x) => x,
                Err(e) => return fail("fixture", format!("{}: reference cannot decode: {}", f, e)),
            };
            ensure!(q == pts, "fixture", "{}: reference decodes other points: {}", f, diff(&q, pts));
            let re = refc::encode_chunk(&l.l, pts);
            ensure!(re[..] == laz[off..off + used], "fixture", "{}: reference encodes other bytes: {}", f, diff(&re, &laz[off..]));
            ch.validated();
            ch.outcome(&p);
            return Ok(());
        }
        let lo = u32::from_le_bytes(las[96..100].try_into().unwrap()) as usize;
        let pts = &las[lo..lo + n * ps];
        let stream = &laz[off..];
        let parsed = match refc::decode_stream(&l.l, stream, off as u64, Some(vlr.chunk_size()), n) {
            Ok(p) => p,
            Err(e) => return fail("fixture", format!("{}: reference cannot decode: {}", f, e)),
        };
        ensure!(parsed.points == pts, "fixture", "{}: reference decodes other points: {}", f, diff(&parsed.points, pts));
        let chunks: Vec<&[u8]> = pts.chunks(ps * vlr.chunk_size() as usize).collect();
        let re = refc::encode_stream(&l.l, &chunks, false, off as u64);
        ensure!(re == stream[..parsed.end], "fixture", "{}: reference encodes other bytes: {}", f, diff(&re, &stream[..parsed.end]));
        ch.validated();
        let mut w = Cursor::new(vec![0u8; off]);
        w.set_position(off as u64);
        let mut c = LasZipCompressor::new(w, vlr.clone()).unwrap();
        c.compress_many(pts).unwrap();
        c.done().unwrap();
        let mine = c.into_inner().into_inner();
        ensure!(mine[off..] == stream[..parsed.end], "fixture", "{}: laz-rs encodes other bytes: {}", f, diff(&mine[off..], &stream[..parsed.end]));
        ch.steps(n as u64);
        ch.outcome(&mine);
        Ok(())
    })]
}
