//! C12 (parameter records) and C20 (refusals).
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use crate::refc::{ItemDef, Kind as Item, Layout};
use laz::{LasZipError, LazItem, LazItemRecordBuilder, LazItemType, LazVlr, LazVlrBuilder};
use std::sync::Arc;

const CHUNKS: [u32; 13] = [1, 2, 3, 255, 256, 1000, 50_000, 65_535, 65_536, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 1, u32::MAX];

fn item_type(k: Item, size: usize) -> LazItemType {
    match k {
        Item::Byte => LazItemType::Byte(size as u16),
        Item::Point10 => LazItemType::Point10,
        Item::Gps11 => LazItemType::GpsTime,
        Item::Rgb12 => LazItemType::RGB12,
        Item::Wave13 => LazItemType::WavePacket13,
        Item::Point14 => LazItemType::Point14,
        Item::Rgb14 => LazItemType::RGB14,
        Item::RgbNir14 => LazItemType::RGBNIR14,
        Item::Wave14 => LazItemType::WavePacket14,
        Item::Byte14 => LazItemType::Byte14(size as u16),
    }
}

/// How the items are got
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    Version(u16),
    Default,
    ById,
    BuilderById,
    AddItem,
}

macro_rules! per_format {
    ($pf:expr, $tr:ident, $f:ident, $x:expr, [$($n:literal $t:ident),*]) => {
        match $pf { $($n => Some(LazItemRecordBuilder::$f::<laz::las::$t>($x)),)* _ => None }
    };
}

fn items_from(pf: u8, from: From, x: u16) -> Option<Vec<LazItem>> {
    match from {
        From::Version(1) => per_format!(pf, Version1, version_1_of, x, [0 Point0, 1 Point1, 2 Point2, 3 Point3, 4 Point4, 5 Point5]),
        From::Version(2) => per_format!(pf, Version2, version_2_of, x, [0 Point0, 1 Point1, 2 Point2, 3 Point3, 4 Point4, 5 Point5]),
        From::Version(3) => per_format!(pf, Version3, version_3_of, x, [6 Point6, 7 Point7, 8 Point8, 9 Point9, 10 Point10]),
        From::Version(_) => per_format!(pf, Version4, version_4_of, x, [6 Point6, 7 Point7, 8 Point8, 9 Point9, 10 Point10]),
        From::Default => per_format!(pf, DefaultVersion, default_version_of, x, [0 Point0, 1 Point1, 2 Point2, 3 Point3, 4 Point4, 5 Point5, 6 Point6, 7 Point7, 8 Point8, 9 Point9, 10 Point10]),
        From::ById => LazItemRecordBuilder::default_for_point_format_id(pf, x).ok(),
        From::BuilderById => LazVlrBuilder::default().with_point_format(pf, x).ok().map(|b| b.build().items().clone()),
        From::AddItem => {
            let mut b = LazItemRecordBuilder::new();
            for k in kinds(pf) {
                b.add_item(item_type(k, 0));
            }
            if x > 0 {
                b.add_item(if pf >= 6 { LazItemType::Byte14(x) } else { LazItemType::Byte(x) });
            }
            Some(b.build())
        }
    }
}

fn codes(v: &LazVlr) -> Vec<(u16, u16, u16)> {
    v.items().iter().map(|i| (i.item_type().into(), i.size(), i.version())).collect()
}

fn base_size(pf: u8) -> u32 {
    lay(pf, if pf < 6 { 2 } else { 3 }, 0).size() as u32
}

/// a record built in code: items, serialised bytes, and back
fn built(pf: u8, from: From, x: u16, chunk: u32) -> Res {
    let items = match items_from(pf, from, x) {
        Some(i) => i,
        None => return fail("items", format!("point format {} {:?}: no items", pf, from)),
    };
    let ver = match from {
        From::Version(v) => v as u32,
        _ => if pf < 6 { 2 } else { 3 },
    };
    let l = lay(pf, ver, x as usize);
    let b = LazVlrBuilder::new(items.clone());
    let v = if chunk == VARIABLE { b.with_variable_chunk_size() } else { b.with_fixed_chunk_size(chunk) }.build();
    let what = || format!("point format {} {:?} extra bytes {} chunk size {}", pf, from, x, chunk);
    ensure!(codes(&v) == l.item_codes(), "items", "{}: items {:?} instead of {:?}", what(), codes(&v), l.item_codes());
    observables(&v, &l.item_codes(), chunk, what())?;
    let mut out = vec![];
    v.write_to(&mut out).map_err(stable).must("write", what)?;
    ensure!(out == l.vlr_data(chunk), "bytes", "{}: record {} instead of {}", what(), hex(&out), hex(&l.vlr_data(chunk)));
    let w = LazVlr::from_buffer(&out).map_err(stable).must("parse", what)?;
    ensure!(w == v, "parse-back", "{}: parses back as {:?} instead of {:?}", what(), w, v);
    observables(&w, &l.item_codes(), chunk, what())
}

fn observables(v: &LazVlr, items: &[(u16, u16, u16)], chunk: u32, what: String) -> Res {
    ensure!(codes(v) == items, "items", "{}: items {:?} instead of {:?}", what, codes(v), items);
    ensure!(v.uses_variable_size_chunks() == (chunk == VARIABLE), "chunk-mode", "{}: variable-size chunks: {}", what, v.uses_variable_size_chunks());
    if chunk != VARIABLE {
        ensure!(v.chunk_size() == chunk, "chunk-size", "{}: chunk size {}", what, v.chunk_size());
    }
    let size: u64 = items.iter().map(|i| i.1 as u64).sum();
    ensure!(v.items_size() == size, "items-size", "{}: items size {} instead of {}", what, v.items_size(), size);
    Ok(())
}

pub fn c12(th: bool) -> Prop {
    let mut v = vec![];
    v.push(Scenario::new("every format, version and way to build", move |ch| {
        let pf = ch.choose(11) as u8;
        let vs: [u16; 2] = if pf < 6 { [1, 2] } else { [3, 4] };
        let from = *ch.of(&[From::Version(vs[0]), From::Version(vs[1]), From::Default, From::ById, From::BuilderById, From::AddItem]);
        let chunk = *ch.of(&CHUNKS);
        ch.note(|| format!("point format {} {:?} chunk size {}", pf, from, chunk));
        let top = 65535 - base_size(pf);
        let all = th && (chunk == 50_000 || chunk == VARIABLE);
        for x in 0..=top {
            if all || x < 300 || x % 256 < 2 || x % 4096 == 4095 || x + 3 > top || x & (x - 1) == 0 {
                built(pf, from, x as u16, chunk)?;
                ch.step();
            }
        }
        ch.validated();
        Ok(())
    }));
    // records written by anything: parsing and serialising are inverse
    v.push(Scenario::new("every field of a record at its boundaries", move |ch| {
        let compressor = ch.choose(4) as u16;
        let chunk = *ch.of(&[1u32, 50_000, 0x8000_0000, u32::MAX - 1, u32::MAX, 0]);
        let mut items: Vec<(u16, u16, u16)> = vec![];
        for _ in 0..ch.choose(3) {
            items.push(*ch.of(&[(6u16, 20u16, 2u16), (7, 8, 1), (8, 6, 2), (9, 29, 1), (10, 30, 3), (11, 6, 4), (12, 8, 3), (13, 29, 3), (14, 5, 4), (0, 0x1234, 1), (0, 1, 2), (6, 20, 0x0102)]));
        }
        let mut d = record_data(compressor, chunk, &items);
        // the fields the library only carries along
        let n = ch.choose(10);
        let set = |d: &mut Vec<u8>, at: usize, b: &[u8]| d[at..at + b.len()].copy_from_slice(b);
        match n {
            1 => set(&mut d, 2, &[1, 2]),
            2 => set(&mut d, 4, &[3, 4]),
            3 => set(&mut d, 6, &[5, 6]),
            4 => set(&mut d, 8, &[7, 8, 9, 10]),
            5 => set(&mut d, 8, &[0xFF; 4]),
            6 => set(&mut d, 16, &[1, 2, 3, 4, 5, 6, 7, 8]),
            7 => set(&mut d, 24, &[1, 2, 3, 4, 5, 6, 7, 0x88]),
            8 => set(&mut d, 16, &[0; 16]),
            _ => {}
        }
        ch.note(|| format!("record {}", hex(&d)));
        let trailing = ch.flag();
        let mut src = d.clone();
        if trailing {
            src.extend([1, 2, 3]);
        }
        let v = if ch.flag() { LazVlr::from_buffer(&src) } else { LazVlr::read_from(&mut &src[..]) }.map_err(stable).must("parse", || hex(&d))?;
        let chunk = if chunk == 0 { VARIABLE } else { chunk };
        observables(&v, &items, chunk, hex(&d))?;
        let mut out = vec![];
        v.write_to(&mut out).map_err(stable).must("write", || hex(&d))?;
        let mut want = d.clone();
        want[12..16].copy_from_slice(&chunk.to_le_bytes());
        ensure!(out == want, "rewritten", "record {} is written back as {}", hex(&want), hex(&out));
        ensure!(LazVlr::from_buffer(&out).ok().as_ref() == Some(&v), "parse-back", "record {} does not parse back to the same", hex(&out));
        ch.step();
        ch.validated();
        Ok(())
    }));
    v.push(Scenario::new("every unknown compressor", |ch| {
        let hi = ch.choose(256) as u16;
        for lo in 0..256u16 {
            let c = hi << 8 | lo;
            let r = LazVlr::from_buffer(record_data(c, 50_000, &[(6, 20, 2)]));
            match r {
                Ok(_) => ensure!(c <= 3, "unknown-compressor", "compressor {} accepted", c),
                Err(LasZipError::UnknownCompressorType(t)) => ensure!(c > 3 && t == c, "unknown-compressor", "compressor {}: error for {}", c, t),
                Err(e) => return fail("unknown-compressor", format!("compressor {}: {}", c, e)),
            }
            ch.step();
        }
        ch.validated();
        Ok(())
    }));
    v.push(Scenario::new("every unknown item", |ch| {
        let at = ch.choose(3);
        let hi = ch.choose(256) as u16;
        for lo in 0..256u16 {
            let t = hi << 8 | lo;
            let mut items = vec![(6, 20, 2), (7, 8, 2), (8, 6, 2)];
            items[at].0 = t;
            let known = matches!(t, 0 | 6..=14);
            match LazVlr::from_buffer(record_data(2, 50_000, &items)) {
                Ok(v) => {
                    ensure!(known, "unknown-item", "item {} accepted", t);
                    ensure!(codes(&v) == items, "items", "items {:?} parse as {:?}", items, codes(&v));
                }
                Err(LasZipError::UnknownLazItem(e)) => ensure!(!known && e == t, "unknown-item", "item {}: error for {}", t, e),
                Err(e) => return fail("unknown-item", format!("item {}: {}", t, e)),
            }
            ch.step();
        }
        ch.validated();
        Ok(())
    }));
    v.push(Scenario::new("every truncated record", |ch| {
        let ls = all_formats(&[0, 2]);
        let l = ch.of(&ls);
        let d = l.vlr_data(*ch.of(&[50_000, VARIABLE]));
        for n in 0..d.len() {
            ensure!(LazVlr::from_buffer(&d[..n]).is_err(), "truncated", "{}: the first {} of {} bytes are accepted as a record", l.name, n, d.len());
            ch.step();
        }
        // a destination that fails after n bytes
        let v = l.vlr(3);
        for n in 0..d.len() {
            let mut small = vec![0u8; n];
            ensure!(v.write_to(&mut &mut small[..]).is_err(), "short-write", "{}: written to {} bytes without an error", l.name, n);
        }
        ch.validated();
        Ok(())
    }));
    v.push(Scenario::new("every version of every item", move |ch| {
        let t = *ch.of(&[0u16, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
        let hi = if th { ch.choose(256) as u16 } else { *ch.of(&[0u16, 1, 2, 3, 4, 0x7F, 0x80, 0xFF]) };
        let layered = t >= 10;
        let size = |t: u16| match t {
            6 => 20,
            7 => 8,
            8 | 11 => 6,
            9 | 13 => 29,
            10 => 30,
            12 => 8,
            _ => 2,
        };
        // alone, or after the point
        let items = if matches!(t, 6 | 10) || ch.flag() { vec![t] } else { vec![if layered { 10 } else { 6 }, t] };
        for lo in 0..256u16 {
            let ver = hi << 8 | lo;
            let ok = if layered { matches!(ver, 3 | 4) } else { matches!(ver, 1 | 2) };
            if ok {
                continue;
            }
            let cs: Vec<(u16, u16, u16)> = items.iter().enumerate().map(|(i, t)| (*t, size(*t), if i + 1 == items.len() { ver } else if layered { 3 } else { 2 })).collect();
            let v = LazVlr::from_buffer(record_data(if layered { 3 } else { 2 }, 2, &cs)).map_err(stable).must("parse", || format!("{:?}", cs))?;
            for k in [Kind::Seq, Kind::Par] {
                ensure!(Wr::new(k, Disk::new(vec![], 0), v.clone()).is_err(), "version", "{:?} writer accepts items {:?}", k, cs);
                // an empty stream
                let mut s = 8i64.to_le_bytes().to_vec();
                s.extend([0; 8]);
                ensure!(Rd::new(k, Disk::new(s, 0), v.clone()).is_err(), "version", "{:?} reader accepts items {:?}", k, cs);
            }
            ch.step();
        }
        ch.validated();
        Ok(())
    }));
    Prop::new(v, &["the record layout of the LASzip specification, and the item versions LASzip itself writes and accepts"])
}

fn custom(items: &[ItemDef]) -> Lay {
    Lay { name: items.iter().map(|i| format!("{:?}v{}", i.kind, i.version)).collect::<Vec<_>>().join("+"), l: Layout { items: items.to_vec() }, pf: 255, extra: 0 }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()))
}

/// Every user of a record either refuses it or works. Returns how many accept it.
fn all_users(ch: &Ch, l: &Lay, v: &LazVlr, chunk: u32, n: usize) -> Result<usize, Fail> {
    let pts = l.points(n);
    let what = |w: &str| format!("{} chunk size {} {}", l.name, chunk, w);
    let mut accepted = 0;
    let mut streams: Vec<(String, Vec<u8>)> = vec![];
    for k in [Kind::Seq, Kind::Par] {
        if let Ok(mut w) = Wr::new(k, Disk::new(vec![], 0), v.clone()) {
            accepted += 1;
            if k == Kind::Par && v.uses_variable_size_chunks() {
                w.chunks(vec![pts.clone()]).must("accepted-compress", || what("parallel writer"))?;
            } else {
                w.many(Via::Inherent, &pts).must("accepted-compress", || what(&format!("{:?} writer", k)))?;
            }
            w.done(Via::Inherent).must("accepted-done", || what(&format!("{:?} writer", k)))?;
            streams.push((format!("{:?} writer", k), w.into_inner().cur.into_inner()));
        }
        ch.step();
    }
    let mut d = Disk::new(vec![], 0);
    if laz::compress_buffer(&mut d, &pts, v.clone()).is_ok() {
        accepted += 1;
        streams.push(("compress_buffer".into(), d.cur.into_inner()));
    }
    let mut d = Disk::new(vec![], 0);
    if laz::par_compress_buffer(&mut d, &pts, v).is_ok() {
        accepted += 1;
        streams.push(("par_compress_buffer".into(), d.cur.into_inner()));
    }
    ch.steps(2);
    // streams nobody wrote: readers have to refuse the record or report an error
    let mut fake = 408i64.to_le_bytes().to_vec();
    fake.extend([0; 400]);
    fake.extend(crate::refc::encode_table(&[(2, 400)], v.uses_variable_size_chunks()));
    for k in [Kind::Seq, Kind::Par] {
        if let Ok(mut r) = Rd::new(k, Disk::new(fake.clone(), 0), v.clone()) {
            accepted += 1;
            let mut o = vec![0; l.size()];
            let _ = r.many(&mut o);
        }
        let _ = Wr::append(k, Disk::new(fake.clone(), 0), v.clone(), 2);
    }
    let mut o = vec![0; l.size() * 2];
    let _ = laz::decompress_buffer(&fake, &mut o, v.clone());
    let _ = laz::par_decompress_buffer(&fake, &mut o, v);
    ch.steps(6);
    for (by, s) in &streams {
        for k in [Kind::Seq, Kind::Par] {
            let mut r = Rd::new(k, Disk::new(s.clone(), 0), v.clone()).must("accepted-reader", || what(&format!("{} then {:?} reader", by, k)))?;
            let mut o = vec![0x5A; pts.len()];
            r.many(&mut o).must("accepted-read", || what(&format!("{} then {:?} reader", by, k)))?;
            ensure!(o == pts, "accepted-points", "{}: {}", what(&format!("{} then {:?} reader", by, k)), diff(&o, &pts));
            ch.validated();
        }
        let mut o = vec![0x5A; pts.len()];
        laz::decompress_buffer(s, &mut o, v.clone()).map_err(stable).must("accepted-read", || what("decompress_buffer"))?;
        ensure!(o == pts, "accepted-points", "{}: {}", what(&format!("{} then decompress_buffer", by)), diff(&o, &pts));
        let mut o = vec![0x5A; pts.len()];
        laz::par_decompress_buffer(s, &mut o, v).map_err(stable).must("accepted-read", || what("par_decompress_buffer"))?;
        ensure!(o == pts, "accepted-points", "{}: {}", what(&format!("{} then par_decompress_buffer", by)), diff(&o, &pts));
        // and can be appended to
        let mut w = Wr::append(Kind::Seq, Disk::new(s.clone(), 0), v.clone(), n as u64).must("accepted-append", || what(by))?;
        w.many(Via::Inherent, &l.range(n, n + 1)).must("accepted-append", || what(by))?;
        w.done(Via::Inherent).must("accepted-append", || what(by))?;
        let f = w.into_inner().cur.into_inner();
        let mut r = Rd::new(Kind::Seq, Disk::new(f, 0), v.clone()).must("accepted-append", || what(by))?;
        let mut o = vec![0x5A; pts.len() + l.size()];
        r.many(&mut o).must("accepted-append", || what(by))?;
        ensure!(o == l.points(n + 1), "accepted-points", "{}: appended: {}", what(by), diff(&o, &l.points(n + 1)));
    }
    Ok(accepted)
}

fn no_panic(ch: &Ch, l: &Lay, v: &LazVlr, chunk: u32, n: usize) -> Result<usize, Fail> {
    match quiet(|| all_users(ch, l, v, chunk, n)) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("{} chunk size {}: panic: {}", l.name, chunk, p)),
    }
}

pub fn c20(th: bool) -> Prop {
    let mut v = vec![];
    let kinds = [Item::Byte, Item::Point10, Item::Gps11, Item::Rgb12, Item::Wave13, Item::Point14, Item::Rgb14, Item::RgbNir14, Item::Wave14, Item::Byte14];
    let layered = |k: Item| matches!(k, Item::Point14 | Item::Rgb14 | Item::RgbNir14 | Item::Wave14 | Item::Byte14);
    let defs: Arc<Vec<ItemDef>> = Arc::new(
        kinds
            .iter()
            .flat_map(|k| {
                (0..=5u32).map(move |ver| match k {
                    Item::Byte | Item::Byte14 => bytes_item(*k == Item::Byte14, 2, ver),
                    _ => item(*k, ver),
                })
            })
            .collect(),
    );
    let lists = |name: &str, len: usize, defs: Arc<Vec<ItemDef>>, compressors: Vec<u16>, chunks: Vec<u32>| {
        Scenario::new(name, move |ch| {
            let mut items = vec![];
            for _ in 0..len {
                items.push(*ch.of(&defs[..]));
            }
            let chunk = *ch.of(&chunks);
            let c = *ch.of(&compressors);
            let l = custom(&items);
            ch.note(|| format!("compressor {} items {} chunk size {}", c, l.name, chunk));
            let rec = record_data(c, chunk, &l.item_codes());
            let v = match LazVlr::from_buffer(&rec) {
                Ok(v) => v,
                Err(_) => return Ok(()),
            };
            let a = no_panic(ch, &l, &v, chunk, 3)?;
            // what the library has no codec for must be refused by everybody
            let known = |i: &ItemDef| if layered(i.kind) { matches!(i.version, 3 | 4) } else { matches!(i.version, 1 | 2) };
            let mixed = items.iter().any(|i| layered(i.kind)) && items.iter().any(|i| !layered(i.kind));
            if !items.iter().all(known) || mixed || items.is_empty() || c == 0 {
                ensure!(a == 0, "accepted", "compressor {} items {}: accepted by {} users", c, l.name, a);
            }
            ch.outcome(&[a as u8]);
            Ok(())
        })
    };
    v.push(lists("no item", 0, defs.clone(), vec![0, 1, 2, 3], vec![1, 2, VARIABLE]));
    v.push(lists("every item in every version", 1, defs.clone(), vec![0, 1, 2, 3], vec![2, VARIABLE]));
    v.push(lists("every pair of items in every version", 2, defs.clone(), if th { vec![1, 2, 3] } else { vec![2] }, if th { vec![2, VARIABLE] } else { vec![2] }));
    let some: Arc<Vec<ItemDef>> = Arc::new(defs.iter().filter(|d| matches!(d.version, 2 | 3) || th && d.version < 5 && d.version > 0).cloned().collect());
    v.push(lists("every triple of items", 3, some, vec![2], vec![2]));
    v.push(Scenario::new("items of wrong sizes", move |ch| {
        let bases = [lay(0, 2, 0), lay(5, 1, 2), lay(6, 3, 0), lay(10, 4, 2)];
            let base = ch.of(&bases);
        let at = ch.choose(base.l.items.len());
        let d = *ch.of(&[-20i32, -1, 1, 2, 100, 60_000]);
        let mut codes = base.item_codes();
        if matches!(codes[at].0, 0 | 14) {
            return Ok(());
        }
        codes[at].1 = (codes[at].1 as i32 + d).max(0) as u16;
        ch.note(|| format!("items {:?}", codes));
        let chunk = *ch.of(&[2, VARIABLE]);
        let v = match LazVlr::from_buffer(record_data(if base.layered() { 3 } else { 2 }, chunk, &codes)) {
            Ok(v) => v,
            Err(_) => return Ok(()),
        };
        let r = quiet(|| {
            let mut n = 0;
            for k in [Kind::Seq, Kind::Par] {
                n += Wr::new(k, Disk::new(vec![], 0), v.clone()).is_ok() as usize;
                let s = file(base, &fixed(3, 2), chunk == VARIABLE, 0);
                n += Rd::new(k, Disk::new(s.clone(), 0), v.clone()).is_ok() as usize;
                n += Wr::append(k, Disk::new(s, 0), v.clone(), 3).is_ok() as usize;
            }
            n
        });
        ch.steps(6);
        ch.validated();
        match r {
            Ok(0) => Ok(()),
            Ok(n) => fail("accepted", format!("items {:?}: accepted by {} users", codes, n)),
            Err(p) => fail("panic", format!("items {:?}: {}", codes, p)),
        }
    }));
    v.push(Scenario::new("every point format", |ch| {
        let pf = ch.choose(256) as u8;
        let x = *ch.of(&[0u16, 1, 7]);
        for way in 0..2 {
            let r = quiet(|| if way == 0 { LazItemRecordBuilder::default_for_point_format_id(pf, x) } else { LazVlrBuilder::default().with_point_format(pf, x).map(|b| b.build().items().clone()) });
            match r {
                Err(p) => return fail("panic", format!("point format {}: {}", pf, p)),
                Ok(Ok(_)) => ensure!(pf <= 10, "accepted", "point format {} accepted", pf),
                Ok(Err(LasZipError::UnsupportedPointFormat(i))) => ensure!(pf > 10 && i == pf, "refused", "point format {} refused as {}", pf, i),
                Ok(Err(e)) => return fail("refused", format!("point format {}: {}", pf, e)),
            }
            ch.step();
        }
        if pf <= 10 {
            for chunk in [0u32, 1, 2, 3, u32::MAX - 1, VARIABLE] {
                let v = LazVlrBuilder::default().with_point_format(pf, x).unwrap().with_fixed_chunk_size(chunk).build();
                let l = lay(pf, if pf < 6 { 2 } else { 3 }, x as usize);
                // memory is reserved for one chunk of points: not for chunks of terabytes
                if chunk == u32::MAX - 1 {
                    let mut w = Wr::new(Kind::Seq, Disk::new(vec![], 0), v.clone()).must("accepted", || l.name.clone())?;
                    w.many(Via::Inherent, &l.points(3)).must("accepted-compress", || l.name.clone())?;
                    w.done(Via::Inherent).must("accepted-done", || l.name.clone())?;
                    let f = w.into_inner().cur.into_inner();
                    must_read(ch, &l, chunk, &f, 0, Kind::Seq, &l.points(3))?;
                    continue;
                }
                let a = no_panic(ch, &l, &v, chunk, 3)?;
                ensure!(chunk == 0 || a == 6, "refused", "{} chunk size {}: accepted by {} of 6 users", l.name, chunk, a);
            }
        }
        ch.validated();
        Ok(())
    }));
    Prop::new(v, &["item lists up to three items; sizes of byte items 1, 2 and 7", "documented panics are not counted: building a record from no or unknown items, and the calls documented to be for the other chunk mode"])
}
