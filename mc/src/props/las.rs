//! C19: raw point records. C21: whole files.
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::Disk;
use crate::lay::*;
use laz::las::file::{read_header_and_vlrs, QuickHeader, SimpleReader};
use laz::las::gps::{GpsTime, LasGpsTime};
use laz::las::nir::{LasNIR, Nir};
use laz::las::point0::{LasPoint0, Point0};
use laz::las::point6::{LasPoint6, Point6};
use laz::las::rgb::{LasRGB, RGB};
use laz::las::wavepacket::LasWavepacket;
use laz::packers::Packable;
use std::sync::Arc;

/// A LAS or LAZ file
#[derive(Clone, Debug)]
pub struct LasSpec {
    pub l: Lay,
    pub n: usize,
    /// the chunks, when compressed
    pub laz: Option<Vec<Rng>>,
    pub chunk: usize,
    pub variable: bool,
    pub minor: u8,
    /// other records before and after the LASzip record (a LAS file has them all too)
    pub before: usize,
    pub after: usize,
    /// bytes after the standard header, and between the records and the points
    pub header_extra: usize,
    pub gap: usize,
    /// bytes after the points
    pub tail: usize,
    /// number of points the header announces
    pub announced: Option<u64>,
    /// the 32-bit number of points of a header that has a 64-bit one (None: as LAS 1.4 wants it)
    pub legacy: Option<u32>,
}

impl LasSpec {
    pub fn new(l: &Lay, n: usize, laz: Option<Vec<Rng>>, chunk: usize, variable: bool) -> LasSpec {
        LasSpec { l: l.clone(), n, laz, chunk, variable, minor: if l.pf >= 6 { 4 } else { 2 }, before: 0, after: 0, header_extra: 0, gap: 0, tail: 0, announced: None, legacy: None }
    }
    pub fn header_size(&self) -> usize {
        self.header_extra
            + match self.minor {
                5.. => 393,
                4 => 375,
                3 => 235,
                _ => 227,
            }
    }
}

fn vlr(user: &str, id: u16, data: &[u8]) -> Vec<u8> {
    let mut b = 0xAABBu16.to_le_bytes().to_vec();
    let mut u = user.as_bytes().to_vec();
    u.resize(16, 0);
    b.extend(u);
    b.extend(id.to_le_bytes());
    b.extend((data.len() as u16).to_le_bytes());
    b.extend([b'd'; 32]);
    b.extend(data);
    b
}

/// records that are not the LASzip record
fn others(k: usize) -> Vec<Vec<u8>> {
    if k > OTHERS {
        return (0..k).map(|i| vlr("LASF_Spec", i as u16, &[i as u8; 7][..i % 8])).collect();
    }
    let all = vec![
        vlr("LASF_Projection", 34735, &[1, 2, 3]),
        vlr("laszip encoded", 22203, &[0; 34]),
        vlr("LASzip encoded", 22204, &[0xFF; 34]),
        vlr("", 22204, &[]),
        vlr("sixteen-letters!", 0, &vec![7; 65_535]),
    ];
    all[..k].to_vec()
}
pub const OTHERS: usize = 5;

pub fn las_file(s: &LasSpec) -> Vec<u8> {
    let mut vlrs = others(s.before);
    if s.laz.is_some() {
        vlrs.push(vlr("laszip encoded", 22204, &s.l.vlr_data(chunk_param(s.variable, s.chunk))));
    }
    vlrs.extend(others(s.after).into_iter().rev());
    let hs = s.header_size();
    let offset = hs + vlrs.iter().map(|v| v.len()).sum::<usize>() + s.gap;
    let n = s.announced.unwrap_or(s.n as u64);
    let mut h = junk(hs);
    h[..4].copy_from_slice(b"LASF");
    h[24] = 1;
    h[25] = s.minor;
    h[94..96].copy_from_slice(&(hs as u16).to_le_bytes());
    h[96..100].copy_from_slice(&(offset as u32).to_le_bytes());
    h[100..104].copy_from_slice(&(vlrs.len() as u32).to_le_bytes());
    h[104] = s.l.pf | if s.laz.is_some() { 0x80 } else { 0 };
    h[105..107].copy_from_slice(&(s.l.size() as u16).to_le_bytes());
    if s.minor >= 4 {
        // the legacy field of the new formats is 0
        h[107..111].copy_from_slice(&s.legacy.unwrap_or(if s.l.pf >= 6 { 0 } else { n as u32 }).to_le_bytes());
        h[247..255].copy_from_slice(&n.to_le_bytes());
    } else {
        h[107..111].copy_from_slice(&(n as u32).to_le_bytes());
    }
    for v in vlrs {
        h.extend(v);
    }
    h.extend(vec![0xEE; s.gap]);
    assert_eq!(h.len(), offset);
    match &s.laz {
        Some(c) => h.extend(expect(&s.l, c, s.variable, offset as u64)),
        None => h.extend(s.l.range(0, s.n)),
    }
    h.extend(vec![0xDD; s.tail]);
    h
}

fn points_of(f: Vec<u8>, bulk: bool, name: &str, n: u64) -> Result<(Vec<u8>, QuickHeader), Fail> {
    let mut r = match guarded(|| SimpleReader::new(Disk::new(f, 3)).map_err(stable)) {
        Ok(r) => r.must("open", || name.to_string())?,
        Err(p) => return fail("panic", format!("{}: SimpleReader::new panics: {}", name, p)),
    };
    let mut v = vec![];
    if bulk {
        let k = r.read_to_end(&mut v).map_err(stable).must("read", || format!("{}: read_to_end", name))?;
        ensure!(k as u64 == n, "count", "{}: read_to_end says {} points were read instead of {}", name, k, n);
    } else {
        for i in 0..n {
            match r.read_next() {
                Some(p) => v.extend(p.map_err(stable).must("read", || format!("{}: point {}", name, i))?),
                None => return fail("count", format!("{}: no more points after {}", name, i)),
            }
        }
    }
    for _ in 0..2 {
        ensure!(r.read_next().is_none(), "count", "{}: there are points after the last one", name);
    }
    let mut empty = vec![];
    if !bulk {
        // nothing is left
        let k = r.read_to_end(&mut empty).map_err(stable).must("read", || format!("{}: read_to_end at the end", name))?;
        ensure!(k == 0 && empty.is_empty(), "count", "{}: read_to_end at the end reads {} points, {} bytes", name, k, empty.len());
    }
    let SimpleReader { header, .. } = r;
    Ok((v, header))
}

fn check_header(h: &QuickHeader, s: &LasSpec, stripped: bool, name: &str) -> Res {
    let laz = s.laz.is_some();
    let pf = s.l.pf | if laz && !stripped { 0x80 } else { 0 };
    let want = (1u8, s.minor, s.announced.unwrap_or(s.n as u64), pf, s.l.size() as u16, s.header_size() as u16, (s.before + s.after + laz as usize) as u32);
    let got = (h.major, h.minor, h.num_points, h.point_format_id, h.point_size, h.header_size, h.num_vlrs);
    ensure!(got == want, "header", "{}: header read as {:?} instead of {:?}", name, got, want);
    ensure!(h.num_extra_bytes() as usize == s.l.extra, "extra-bytes", "{}: {} extra bytes instead of {}", name, h.num_extra_bytes(), s.l.extra);
    Ok(())
}

/// Reads the file and its uncompressed equivalent
fn same_file(ch: &Ch, s: &LasSpec) -> Res {
    let bulk = ch.flag();
    let name = format!("{} laz {:?} variable {} minor {} records {}+{} header +{} gap {} tail {} legacy count {:?}", s.l.name, s.laz, s.variable, s.minor, s.before, s.after, s.header_extra, s.gap, s.tail, s.legacy);
    ch.note(|| name.clone());
    let plain = LasSpec { laz: None, ..s.clone() };
    let want = s.l.range(0, s.n);
    for f in [s, &plain] {
        let (v, h) = points_of(las_file(f), bulk, &name, s.n as u64)?;
        same_points(&s.l, &v, &want, 0)?;
        check_header(&h, f, true, &name)?;
        ch.step();
    }
    // the header and the parameters, and then a reader of one's own
    let f = las_file(s);
    let mut d = Disk::new(f.clone(), 1);
    let r = match guarded(|| read_header_and_vlrs(&mut d).map_err(stable)) {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("{}: read_header_and_vlrs panics: {}", name, p)),
    };
    let (h, vlr) = r.must("header", || name.clone())?;
    check_header(&h, s, false, &name)?;
    ensure!(d.position() == h.offset_to_points as u64, "position", "{}: the source is at {} after the records, the points are at {}", name, d.position(), h.offset_to_points);
    ensure!(vlr.is_some() == s.laz.is_some(), "record", "{}: LASzip record found: {}", name, vlr.is_some());
    if let Some(vlr) = vlr {
        let mut w = vec![];
        vlr.write_to(&mut w).map_err(|e| e.to_string()).must("record", || name.clone())?;
        ensure!(w == s.l.vlr_data(chunk_param(s.variable, s.chunk)), "record", "{}: another LASzip record is read: {}", name, hex(&w));
        let mut out = vec![0; want.len()];
        let mut r = laz::LasZipDecompressor::new(d, vlr).map_err(stable).must("reader-new", || name.clone())?;
        r.decompress_many(&mut out).map_err(stable).must("read", || name.clone())?;
        same_points(&s.l, &out, &want, 0)?;
        ch.validated();
    }
    Ok(())
}

pub fn c21(th: bool) -> Prop {
    let mut v = vec![];
    let ls = Arc::new(all_formats(if th { &[0, 1, 2, 3, 7, 100] } else { &[0, 1, 3] }));
    let l2 = ls.clone();
    v.push(Scenario::new("every format, number of points and chunking", move |ch| {
        let l = ch.of(&l2[..]);
        let n = ch.choose(if th { 7 } else { 5 });
        let variable = ch.flag();
        let c = *ch.of(&[1usize, 2, 50_000]);
        let mut chunks = fixed(n, c);
        chunks.retain(|r| r.0 < r.1);
        same_file(ch, &LasSpec::new(l, n, Some(chunks), c, variable))
    }));
    let l2 = Arc::new(if th { ls.to_vec() } else { vec![lay(0, 2, 0), lay(3, 1, 2), lay(5, 2, 1), lay(6, 3, 0), lay(8, 4, 1), lay(10, 3, 3)] });
    v.push(Scenario::new("headers and records", move |ch| {
        let l = ch.of(&l2[..]);
        let mut s = LasSpec::new(l, 3, Some(fixed(3, 2)), 2, ch.flag());
        s.minor = if l.pf < 6 { ch.choose(6) as u8 } else { 4 + ch.choose(2) as u8 };
        if s.minor >= 4 {
            s.legacy = *ch.of(&[None, Some(0), Some(2), Some(u32::MAX)]);
        }
        s.before = *ch.of(if s.legacy.is_none() { &[0, 1, 2, 3, 4, OTHERS][..] } else { &[0, OTHERS] });
        s.after = *ch.of(&[0, 1, 3]);
        s.header_extra = *ch.of(if s.legacy.is_none() { &[0, 1, 100][..] } else { &[0, 100] });
        s.gap = *ch.of(&[0, 2, 1000]);
        s.tail = *ch.of(if s.legacy.is_none() { &[0, 1, 60][..] } else { &[60] });
        same_file(ch, &s)
    }));
    // sizes and numbers beyond those of every day
    let l2 = Arc::new(vec![lay(1, 2, 1), lay(7, 3, 0)]);
    v.push(Scenario::new("large headers, many records, points far away", move |ch| {
        let l = ch.of(&l2[..]);
        let mut s = LasSpec::new(l, 3, Some(fixed(3, 2)), 2, ch.flag());
        match ch.choose(3) {
            0 => s.header_extra = *ch.of(&[511usize, 512, 32_767, 32_768, 40_000, 65_535]) - s.header_size(),
            1 => {
                let k = *ch.of(&[254usize, 255, 256, 257, 1000, 65_534, 65_535, 65_536, 70_000]);
                (s.before, s.after) = *ch.of(&[(k, 0), (0, k), (k, 300)]);
            }
            _ => s.gap = *ch.of(&[65_535usize, 65_536, 1 << 20, (1 << 24) + 3]),
        }
        same_file(ch, &s)
    }));
    let l2 = Arc::new([0u8, 3, 6, 10].iter().flat_map(|pf| [255usize, 256, 257, 1000].map(|x| lay(*pf, if *pf < 6 { 2 } else { 3 }, x))).collect::<Vec<_>>());
    v.push(Scenario::new("many extra bytes", move |ch| {
        let l = ch.of(&l2[..]);
        same_file(ch, &LasSpec::new(l, 3, Some(fixed(3, 2)), 2, ch.flag()))
    }));
    // what the header announces is what is read
    let l2 = ls.clone();
    v.push(Scenario::new("announced numbers of points", move |ch| {
        let l = ch.of(&l2[..]);
        let variable = ch.flag();
        let laz = ch.flag();
        let k = ch.choose(if l.pf < 6 { 7 } else { 10 });
        // more than 32 bits
        let k = if k < 7 { k } else { (1 << 32) + k - 7 };
        let n = 4;
        let mut s = LasSpec::new(l, n, if laz { Some(fixed(n, 2)) } else { None }, 2, variable);
        s.announced = Some(k as u64);
        let f = las_file(&s);
        let want = l.range(0, n.min(k));
        let ps = l.size();
        let name = format!("{} compressed {} variable {}, {} points of which {} announced", l.name, laz, variable, n, k);
        ch.note(|| name.clone());
        let mut r = SimpleReader::new(Disk::new(f, 0)).map_err(stable).must("open", || name.clone())?;
        for i in 0..n.min(k) {
            match r.read_next() {
                Some(p) => same_points(l, p.map_err(stable).must("read", || name.clone())?, &want[i * ps..(i + 1) * ps], i)?,
                None => return fail("count", format!("{}: no more points after {}", name, i)),
            }
        }
        for _ in 0..2 {
            let next = guarded(|| r.read_next().map(|p| p.map(|_| ()).map_err(stable)));
            match (next, k > n) {
                (Ok(None), false) => {}
                (Ok(Some(Err(_))), true) => {}
                (x, _) => return fail("end", format!("{}: the next point is {:?}", name, x)),
            }
        }
        ch.step();
        Ok(())
    }));
    // some points one by one, then all the others, whatever number the header announces
    let l2 = ls.clone();
    v.push(Scenario::new("points one by one, then all the others", move |ch| {
        let l = ch.of(&l2[..]);
        let n = 4usize;
        let mut s = LasSpec::new(l, n, if ch.flag() { Some(fixed(n, 2)) } else { None }, 2, ch.flag());
        let k = *ch.of(&[4u64, 3, 0, 5, u32::MAX as u64, 1 << 32, u64::MAX / l.size() as u64, u64::MAX]);
        if k > u32::MAX as u64 && l.pf < 6 {
            return Ok(());
        }
        s.announced = Some(k);
        let j = ch.choose(n.min(k as usize) + 1);
        let ps = l.size();
        let name = format!("{} compressed {} variable {}, {} of {} points, {} announced, then all the others", l.name, s.laz.is_some(), s.variable, j, n, k);
        ch.note(|| name.clone());
        let mut r = SimpleReader::new(Disk::new(las_file(&s), 0)).map_err(stable).must("open", || name.clone())?;
        let want = l.range(0, n.min(k as usize));
        for i in 0..j {
            match r.read_next() {
                Some(p) => same_points(l, p.map_err(stable).must("read", || name.clone())?, &want[i * ps..(i + 1) * ps], i)?,
                None => return fail("count", format!("{}: no more points after {}", name, i)),
            }
        }
        let mut rest = vec![];
        let res = match guarded(|| r.read_to_end(&mut rest).map_err(stable)) {
            Ok(x) => x,
            Err(p) => return fail("panic", format!("{}: read_to_end panics: {}", name, p)),
        };
        if k <= n as u64 {
            let m = res.must("read", || name.clone())?;
            ensure!(m == k as usize - j, "count", "{}: read_to_end says {} points", name, m);
            same_points(l, &rest, &want[j * ps..], j)?;
        } else {
            ensure!(res.is_err(), "count", "{}: read_to_end reports success: {:?}", name, res);
        }
        ch.steps(j as u64 + 1);
        ch.validated();
        Ok(())
    }));
    // the header and the record have to agree
    let l2 = ls.clone();
    v.push(Scenario::new("compressed files without the record, or with that of another point size", move |ch| {
        let l = ch.of(&l2[..]);
        let mut s = LasSpec::new(l, 3, Some(fixed(3, 2)), 2, ch.flag());
        s.before = 1;
        s.after = 1;
        let mut f = las_file(&s);
        let what = match ch.choose(3) {
            0 => {
                // one record only: another one
                f[100..104].copy_from_slice(&1u32.to_le_bytes());
                "no LASzip record".to_string()
            }
            1 => {
                f[100..104].copy_from_slice(&0u32.to_le_bytes());
                "no records".to_string()
            }
            _ => {
                let ps = l.size() as i64;
                let p = *ch.of(&[0, 1, ps / 2, ps - 1, ps + 1, 2 * ps, 65_535]);
                f[105..107].copy_from_slice(&(p as u16).to_le_bytes());
                format!("{} bytes per point in the header", p)
            }
        };
        let name = format!("{} variable {}: {}", l.name, s.variable, what);
        ch.note(|| name.clone());
        ch.step();
        match guarded(|| {
            let mut r = SimpleReader::new(Disk::new(f, 0)).map_err(stable)?;
            let mut v = vec![];
            r.read_to_end(&mut v).map_err(stable)
        }) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(k)) => fail("accepted", format!("{}: {} points are read", name, k)),
            Err(p) => fail("panic", format!("{}: panics: {}", name, p)),
        }
    }));
    // a file without the record, a truncated file
    let l2 = Arc::new(vec![lay(0, 2, 0), lay(3, 1, 2), lay(6, 3, 1)]);
    v.push(Scenario::new("files that are cut: prefix of the points, then an error", move |ch| {
        let l = ch.of(&l2[..]);
        let laz = ch.flag();
        let mut s = LasSpec::new(l, 4, if laz { Some(fixed(4, 2)) } else { None }, 2, false);
        s.before = 1;
        let f = las_file(&s);
        let cut = ch.choose(f.len());
        let want = l.range(0, 4);
        let ps = l.size();
        let name = format!("{} compressed {}, the first {} bytes of {}", l.name, laz, cut, f.len());
        ch.note(|| name.clone());
        let r = match guarded(|| SimpleReader::new(Disk::new(f[..cut].to_vec(), 0)).map_err(stable)) {
            Ok(r) => r,
            Err(p) => return fail("panic", format!("{}: SimpleReader::new panics: {}", name, p)),
        };
        ch.step();
        if let Ok(mut r) = r {
            for i in 0..4 {
                let p = match guarded(|| r.read_next().map(|p| p.map(|p| p.to_vec()).map_err(stable))) {
                    Ok(p) => p,
                    Err(p) => return fail("panic", format!("{}: read_next panics: {}", name, p)),
                };
                match p {
                    Some(Ok(p)) => same_points(l, &p, &want[i * ps..(i + 1) * ps], i)?,
                    Some(Err(_)) => return Ok(()),
                    None => return fail("count", format!("{}: end of data after {} points", name, i)),
                }
            }
        }
        Ok(())
    }));
    Prop::new(v, &["the streams of points are those of the reference model"])
}

// ---------------------------------------------------------------------------------------------

/// A record type: unpack, compare with the fields the specification puts there, pack
struct Rec {
    name: &'static str,
    size: usize,
    /// Unpacks, checks the fields against the bytes, packs into the buffer
    run: fn(&[u8], &mut [u8]) -> Res,
    unpack: fn(&[u8]),
    pack: fn(&mut [u8]),
}

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    (0..n).map(|i| (b[at + i] as u64) << (8 * i)).sum()
}
macro_rules! field {
    ($what:expr, $got:expr, $want:expr) => {
        if $got != $want {
            return fail("field", format!("{} is {:?} instead of {:?}", $what, $got, $want));
        }
    };
}
fn go<T: Packable>(b: &[u8], out: &mut [u8], check: impl Fn(&T) -> Res) -> Res {
    let v = T::unpack_from(b);
    check(&v)?;
    v.pack_into(out);
    Ok(())
}

fn point0(b: &[u8], out: &mut [u8]) -> Res {
    go::<Point0>(b, out, |p| {
        field!("x", p.x(), le(b, 0, 4) as u32 as i32);
        field!("y", p.y(), le(b, 4, 4) as u32 as i32);
        field!("z", p.z(), le(b, 8, 4) as u32 as i32);
        field!("intensity", p.intensity(), le(b, 12, 2) as u16);
        field!("bit fields", p.bit_fields(), b[14]);
        field!("bit fields", p.bit_fields_to_byte(), b[14]);
        field!("return number", p.return_number(), b[14] % 8);
        field!("number of returns", p.number_of_returns_of_given_pulse(), b[14] / 8 % 8);
        field!("scan direction", p.scan_direction_flag(), b[14] / 64 % 2 == 1);
        field!("edge of flight line", p.edge_of_flight_line(), b[14] >= 128);
        field!("classification", p.classification(), b[15]);
        field!("scan angle rank", p.scan_angle_rank(), b[16] as i8);
        field!("user data", p.user_data(), b[17]);
        field!("point source id", p.point_source_id(), le(b, 18, 2) as u16);
        // the same through the setters
        let mut q = Point0::default();
        q.set_x(p.x);
        q.set_y(p.y);
        q.set_z(p.z);
        q.set_intensity(p.intensity);
        q.set_bit_fields(b[14]);
        q.set_classification(p.classification);
        q.set_scan_angle_rank(p.scan_angle_rank);
        q.set_user_data(p.user_data);
        q.set_point_source_id(p.point_source_id);
        field!("point built with the setters", q, *p);
        Ok(())
    })
}

fn point6(b: &[u8], out: &mut [u8]) -> Res {
    go::<Point6>(b, out, |p| {
        field!("x", p.x(), le(b, 0, 4) as u32 as i32);
        field!("y", p.y(), le(b, 4, 4) as u32 as i32);
        field!("z", p.z(), le(b, 8, 4) as u32 as i32);
        field!("intensity", p.intensity(), le(b, 12, 2) as u16);
        field!("bit fields", p.bit_fields(), b[14]);
        field!("return number", p.return_number(), b[14] % 16);
        field!("number of returns", p.number_of_returns_of_given_pulse(), b[14] / 16);
        field!("flags", p.flags(), b[15]);
        field!("classification flags", p.classification_flags(), b[15] % 16);
        field!("scanner channel", p.scanner_channel(), b[15] / 16 % 4);
        field!("scan direction", p.scan_direction_flag(), b[15] / 64 % 2 == 1);
        field!("edge of flight line", p.edge_of_flight_line(), b[15] >= 128);
        field!("classification", p.classification(), b[16]);
        field!("user data", p.user_data(), b[17]);
        field!("scan angle", p.scan_angle_rank(), le(b, 18, 2) as u16 as i16);
        field!("point source id", p.point_source_id(), le(b, 20, 2) as u16);
        field!("gps time", p.gps_time().to_bits(), le(b, 22, 8));
        let mut q = Point6::default();
        q.set_x(p.x());
        q.set_y(p.y());
        q.set_z(p.z());
        q.set_intensity(p.intensity());
        q.set_bit_fields(!b[14]);
        q.set_number_of_returns(b[14] / 16);
        field!("bit fields after set_number_of_returns", q.bit_fields(), (b[14] & 0xF0) | (!b[14] & 0x0F));
        q.set_return_number(b[14] % 16);
        field!("bit fields after set_return_number", q.bit_fields(), b[14]);
        q.set_flags(b[15] ^ 0x30);
        q.set_scanner_channel(b[15] / 16 % 4);
        field!("flags after set_scanner_channel", q.flags(), b[15]);
        q.set_classification(p.classification());
        q.set_user_data(p.user_data());
        q.set_scan_angle_rank(p.scan_angle_rank());
        q.set_point_source_id(p.point_source_id());
        q.set_gps_time(p.gps_time());
        let mut again = [0; 30];
        q.pack_into(&mut again);
        field!("point built with the setters", hex(&again), hex(&b[..30]));
        // values that do not fit do not disturb the other bits
        q.set_number_of_returns(0xF0 | b[14] / 16);
        q.set_return_number(0xF0 | b[14] % 16);
        q.set_scanner_channel(0xFC | b[15] / 16 % 4);
        field!("bit fields set from bigger values", (q.bit_fields(), q.flags()), (b[14], b[15]));
        Ok(())
    })
}

fn records() -> Vec<Rec> {
    macro_rules! rec {
        ($name:expr, $t:ty, $size:expr, $run:expr) => {
            Rec {
                name: $name,
                size: $size,
                run: $run,
                unpack: |b| {
                    <$t>::unpack_from(b);
                },
                pack: |b| <$t>::unpack_from(&[1; $size]).pack_into(b),
            }
        };
    }
    vec![
        rec!("u8", u8, 1, |b, o| go::<u8>(b, o, |v| {
            field!("u8", *v as u64, le(b, 0, 1));
            Ok(())
        })),
        rec!("i8", i8, 1, |b, o| go::<i8>(b, o, |v| {
            field!("i8", *v as u8 as u64, le(b, 0, 1));
            Ok(())
        })),
        rec!("u16", u16, 2, |b, o| go::<u16>(b, o, |v| {
            field!("u16", *v as u64, le(b, 0, 2));
            let mut n = Nir::default();
            n.set_nir(*v);
            field!("nir", n.nir(), *v);
            Ok(())
        })),
        rec!("i16", i16, 2, |b, o| go::<i16>(b, o, |v| {
            field!("i16", *v as u16 as u64, le(b, 0, 2));
            Ok(())
        })),
        rec!("u32", u32, 4, |b, o| go::<u32>(b, o, |v| {
            field!("u32", *v as u64, le(b, 0, 4));
            Ok(())
        })),
        rec!("i32", i32, 4, |b, o| go::<i32>(b, o, |v| {
            field!("i32", *v as u32 as u64, le(b, 0, 4));
            Ok(())
        })),
        rec!("f32", f32, 4, |b, o| go::<f32>(b, o, |v| {
            field!("f32", v.to_bits() as u64, le(b, 0, 4));
            Ok(())
        })),
        rec!("u64", u64, 8, |b, o| go::<u64>(b, o, |v| {
            field!("u64", *v, le(b, 0, 8));
            Ok(())
        })),
        rec!("GpsTime", GpsTime, 8, |b, o| go::<GpsTime>(b, o, |v| {
            let bits = le(b, 0, 8);
            field!("value", v.value as u64, bits);
            field!("gps time", v.gps_time().to_bits(), bits);
            field!("f64 from GpsTime", f64::from(*v).to_bits(), bits);
            field!("i64 from GpsTime", i64::from(*v) as u64, bits);
            field!("GpsTime from f64", GpsTime::from(f64::from_bits(bits)).value as u64, bits);
            field!("GpsTime from i64", GpsTime::from(bits as i64).value as u64, bits);
            let mut w = GpsTime::default();
            w.set_gps_time(f64::from_bits(bits));
            field!("set_gps_time", w.value as u64, bits);
            let mut w = GpsTime::default();
            w.read_from(&mut &b[..8]).map_err(stable).must("field", || "read_from".into())?;
            field!("read_from", w.value as u64, bits);
            Ok(())
        })),
        rec!("RGB", RGB, 6, |b, o| go::<RGB>(b, o, |v| {
            field!("red", v.red() as u64, le(b, 0, 2));
            field!("green", v.green() as u64, le(b, 2, 2));
            field!("blue", v.blue() as u64, le(b, 4, 2));
            let mut w = RGB::default();
            w.set_red(v.red);
            w.set_green(v.green);
            w.set_blue(v.blue);
            field!("colour built with the setters", w, *v);
            Ok(())
        })),
        rec!("LasWavepacket", LasWavepacket, 29, |b, o| go::<LasWavepacket>(b, o, |v| {
            // its fields are private, what can be seen of them is the order of two packets
            let zero = LasWavepacket::unpack_from(&[0; 29]);
            let first = [le(b, 0, 1), le(b, 1, 8), le(b, 9, 4)];
            let f = |at| f32::from_bits(le(b, at, 4) as u32);
            let floats = [f(13), f(17), f(21), f(25)];
            let want = first.partial_cmp(&[0; 3]).and_then(|o| if o.is_eq() { floats.partial_cmp(&[0.0; 4]) } else { Some(o) });
            field!("order of the packet and an empty one", v.partial_cmp(&zero), want);
            Ok(())
        })),
        rec!("Point0", Point0, 20, point0),
        rec!("Point6", Point6, 30, point6),
    ]
}

/// One buffer, followed by `extra` other bytes
fn round(r: &Rec, b: &[u8], fill: u8, extra: usize) -> Res {
    let mut inp = b.to_vec();
    inp.extend(vec![fill; extra]);
    let mut out = vec![!fill; r.size + extra];
    // what was there before does not matter
    (r.run)(&inp[..], &mut out).map_err(|f| Fail { key: format!("{}-{}", r.name, f.key), msg: format!("{} of {}: {}", r.name, hex(b), f.msg) })?;
    if out[..r.size] != b[..] || out[r.size..].iter().any(|x| *x != !fill) {
        return fail(format!("{}-pack", r.name), format!("{} of {} packs into {}", r.name, hex(b), hex(&out)));
    }
    Ok(())
}

pub fn c19(th: bool) -> Prop {
    let mut v = vec![];
    let backs: Vec<u8> = vec![0, 0xFF, 0x5A];
    let pattern = |back: u8, i: usize| if back == 0x5A { (i as u8).wrapping_mul(37) ^ 0x5A } else { back };
    // every value of every byte, alone and in pairs
    let pairs = |name: String, all: bool, backs: Vec<u8>| {
        Scenario::new(name, move |ch| {
            let recs = records();
            let r = ch.of(&recs);
            let back = *ch.of(&backs);
            let i = ch.choose(r.size);
            let j = ch.choose(r.size);
            if j < i {
                return Ok(());
            }
            let alpha: Vec<u8> = if all { (0..=255).collect() } else { vec![0, 1, 2, 7, 8, 15, 16, 0x30, 63, 64, 127, 128, 129, 0xF0, 0xFE, 255] };
            let mut b: Vec<u8> = (0..r.size).map(|k| pattern(back, k)).collect();
            for x in 0..=255u8 {
                b[i] = x;
                for y in if i == j { &alpha[..1] } else { &alpha[..] } {
                    if i != j {
                        b[j] = *y;
                    }
                    round(r, &b, x ^ 0x3C, if x % 16 == 0 { 3 } else { 0 })?;
                }
                ch.steps(alpha.len() as u64);
            }
            ch.outcome(&b);
            Ok(())
        })
    };
    v.push(pairs("every value of every byte, with every pair of bytes".into(), th, if th { backs.clone() } else { vec![0, 0xFF, 0x5A] }));
    v.push(Scenario::new("16-bit records: every value", |ch| {
        let recs = records();
        let small: Vec<&Rec> = recs.iter().filter(|r| r.size == 2).collect();
        let r = *ch.of(&small);
        for x in 0..=u16::MAX {
            round(r, &x.to_le_bytes(), 0x11, 0)?;
        }
        ch.steps(65_536);
        Ok(())
    }));
    if th {
        v.push(Scenario::new("32-bit records: every value", |ch| {
            let top = ch.choose(256) as u32;
            let which = ch.choose(3);
            for x in 0..1u32 << 24 {
                let x = x | top << 24;
                let b = x.to_le_bytes();
                let mut o = [0; 4];
                let got = match which {
                    0 => {
                        let u = u32::unpack_from(&b);
                        u.pack_into(&mut o);
                        u
                    }
                    1 => {
                        let u = i32::unpack_from(&b);
                        u.pack_into(&mut o);
                        u as u32
                    }
                    _ => {
                        let u = f32::unpack_from(&b);
                        u.pack_into(&mut o);
                        u.to_bits()
                    }
                };
                ensure!(got == x && o == b, "32-bit", "{:08x} is unpacked as {:08x} and packed as {}", x, got, hex(&o));
            }
            ch.steps(1 << 24);
            Ok(())
        }));
    }
    // buffers that are too short
    v.push(Scenario::new("too short buffers are refused", |ch| {
        let recs = records();
        let r = ch.of(&recs);
        let n = ch.choose(r.size);
        ch.note(|| format!("{} from {} bytes", r.name, n));
        let b = vec![1u8; n];
        ensure!(guarded(|| (r.unpack)(&b)).is_err(), "short", "{} is unpacked from {} bytes", r.name, n);
        let mut o = vec![0u8; n];
        ensure!(guarded(|| (r.pack)(&mut o)).is_err(), "short", "{} is packed into {} bytes", r.name, n);
        ch.step();
        Ok(())
    }));
    Prop::new(v, &["packing and unpacking of different bytes do not interact beyond pairs of bytes (each field spans at most 8 bytes and every pair of bytes is explored)"])
}
