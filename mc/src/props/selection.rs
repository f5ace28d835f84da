//! C11: selective decompression.
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use crate::refc::{self, Kind as Item};
use laz::las::selective::DecompressionSelection as Sel;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

const BITS: [u32; 12] = [Sel::Z, Sel::CLASSIFICATION, Sel::FLAGS, Sel::INTENSITY, Sel::SCAN_ANGLE, Sel::USER_DATA, Sel::POINT_SOURCE_ID, Sel::GPS_TIME, Sel::RGB, Sel::NIR, Sel::WAVEPACKET, Sel::ALL_EXTRA_BYTES];

/// The bits of a point record which a selection makes true (layered layouts).
pub fn mask(l: &Lay, sel: u32) -> Vec<u8> {
    if !l.layered() {
        return vec![0xFF; l.size()];
    }
    let on = |b: u32| if sel & b != 0 { 0xFFu8 } else { 0 };
    let mut m = vec![];
    for it in &l.l.items {
        match it.kind {
            Item::Point14 => {
                m.extend([0xFF; 8]);
                m.extend([on(Sel::Z); 4]);
                m.extend([on(Sel::INTENSITY); 2]);
                m.push(0xFF);
                m.push(0x30 | on(Sel::FLAGS) & 0xCF);
                m.push(on(Sel::CLASSIFICATION));
                m.push(on(Sel::USER_DATA));
                m.extend([on(Sel::SCAN_ANGLE); 2]);
                m.extend([on(Sel::POINT_SOURCE_ID); 2]);
                m.extend([on(Sel::GPS_TIME); 8]);
            }
            Item::Rgb14 => m.extend([on(Sel::RGB); 6]),
            Item::RgbNir14 => {
                m.extend([on(Sel::RGB); 6]);
                m.extend([on(Sel::NIR); 2]);
            }
            Item::Wave14 => m.extend([on(Sel::WAVEPACKET); 29]),
            Item::Byte14 => m.extend(vec![on(Sel::ALL_EXTRA_BYTES); it.size]),
            _ => unreachable!(),
        }
    }
    m
}

/// Compares the selected bits
pub fn same_selected(l: &Lay, sel: u32, got: &[u8], want: &[u8], first: usize) -> Res {
    let ps = l.size();
    let m = mask(l, sel);
    for (k, (g, w)) in got.chunks(ps).zip(want.chunks(ps)).enumerate() {
        for b in 0..ps {
            if (g[b] ^ w[b]) & m[b] != 0 {
                return fail("selected-bits", format!("{}: selection {:#x}: point {} byte {}: {} instead of {} (selected bits {:#x})", l.name, sel, first + k, b, hex(g), hex(w), m[b]));
            }
        }
    }
    ensure!(got.len() == want.len(), "length", "lengths differ");
    Ok(())
}

/// A stream of arbitrary points
pub struct Pts {
    pub l: Lay,
    pub what: String,
    pub pts: Vec<u8>,
    pub chunks: Vec<Rng>,
    pub variable: bool,
    pub c: usize,
    bytes: Vec<u8>,
    /// selection -> the records which the sequential reader returns front to back
    straight: Mutex<HashMap<u32, Arc<Vec<u8>>>>,
}
impl Pts {
    pub fn new(l: Lay, what: &str, pts: Vec<u8>, chunks: Vec<Rng>, variable: bool, c: usize) -> Pts {
        let ps = l.size();
        let cs: Vec<&[u8]> = chunks.iter().map(|r| &pts[r.0 * ps..r.1 * ps]).collect();
        let bytes = refc::encode_stream(&l.l, &cs, variable, 0);
        Pts { l, what: what.into(), pts, chunks, variable, c, bytes, straight: Default::default() }
    }
    /// The selected attributes are true in these, the others are whatever they are,
    /// but the same for every way of getting at a point
    fn straight(&self, sel: u32) -> Result<Arc<Vec<u8>>, Fail> {
        if let Some(v) = self.straight.lock().unwrap().get(&sel) {
            return Ok(v.clone());
        }
        let what = || format!("{} {} selection {:#x}: straight through", self.l.name, self.what, sel);
        let mut r = Rd::selective(Kind::Seq, Disk::new(self.bytes.clone(), 0), self.l.vlr(chunk_param(self.variable, self.c)), Sel(sel)).must("reader-new", what)?;
        let mut o = vec![0x5A; self.pts.len()];
        r.many(&mut o).must("read", what)?;
        let o = Arc::new(o);
        self.straight.lock().unwrap().insert(sel, o.clone());
        Ok(o)
    }
    pub fn n(&self) -> usize {
        self.pts.len() / self.l.size()
    }
    fn range(&self, a: usize, b: usize) -> &[u8] {
        let ps = self.l.size();
        &self.pts[a * ps..b * ps]
    }
}

/// How the points are got
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Bulk(Kind),
    One(Kind),
    /// request sizes 3, 1, 4, 1, ...
    Mixed(Kind),
    /// seek somewhere first, then the rest, then back
    Seek(Kind, usize),
    OneShot,
}

fn ways(n: usize, all: bool) -> Vec<Way> {
    let mut v = vec![];
    for k in [Kind::Seq, Kind::Par] {
        v.push(Way::Bulk(k));
        v.push(Way::Mixed(k));
        if all {
            v.push(Way::One(k));
            for t in 0..n {
                v.push(Way::Seek(k, t));
            }
        } else {
            v.push(Way::Seek(k, n * 2 / 3));
        }
    }
    v.push(Way::OneShot);
    v
}

fn get(ch: &Ch, s: &Pts, sel: u32, w: Way) -> Res {
    let l = &s.l;
    let ps = l.size();
    let n = s.n();
    let vlr = l.vlr(chunk_param(s.variable, s.c));
    let open = |k: Kind| Rd::selective(k, Disk::new(s.bytes.clone(), 0), vlr.clone(), Sel(sel)).must("reader-new", || l.name.clone());
    let what = || format!("{} {} selection {:#x} {:?}", l.name, s.what, sel, w);
    ch.note(what);
    if matches!(w, Way::OneShot) {
        division(ch);
    }
    let straight = s.straight(sel)?;
    let same = |o: &[u8], a: usize, b: usize| -> Res {
        same_selected(l, sel, o, s.range(a, b), a)?;
        ensure!(o == &straight[a * ps..b * ps], "other-way", "{}: points {}..{}: {} straight through: {}", what(), a, b, hex(o), hex(&straight[a * ps..b * ps]));
        Ok(())
    };
    let read = |r: &mut Rd, a: usize, b: usize, one: bool| -> Res {
        let mut o = vec![0x5A; (b - a) * ps];
        if one { r.one(&mut o) } else { r.many(&mut o) }.must("read", what)?;
        ch.step();
        same(&o, a, b)
    };
    match w {
        Way::Bulk(k) => read(&mut open(k)?, 0, n, false)?,
        Way::One(k) => {
            let mut r = open(k)?;
            for i in 0..n {
                read(&mut r, i, i + 1, true)?;
            }
        }
        Way::Mixed(k) => {
            let mut r = open(k)?;
            let mut i = 0;
            for j in [3usize, 1, 4, 1, 2].iter().cycle() {
                let j = *j.min(&(n - i));
                if j == 0 {
                    break;
                }
                read(&mut r, i, i + j, j == 1)?;
                i += j;
            }
        }
        Way::Seek(k, t) => {
            let mut r = open(k)?;
            r.seek(t as u64).must("seek", what)?;
            read(&mut r, t, n, false)?;
            r.seek((t / 2) as u64).must("seek", what)?;
            read(&mut r, t / 2, (t / 2 + 2).min(n), false)?;
        }
        Way::OneShot => {
            let t = laz::laszip::ChunkTable::read_from(&mut std::io::Cursor::new(&s.bytes[..]), &vlr).map_err(stable).must("table", what)?;
            let body = &s.bytes[8..8 + t.as_ref().iter().map(|e| e.byte_count as usize).sum::<usize>()];
            let mut o = vec![0x5A; n * ps];
            laz::laszip::parallel::par_decompress_selective(body, &mut o, &vlr, t.as_ref(), Sel(sel)).map_err(stable).must("one-shot", what)?;
            ch.step();
            same(&o, 0, n)?;
        }
    }
    ch.validated();
    Ok(())
}

/// a few selections: none, all, one, all but one, two, all but two
fn some() -> Vec<u32> {
    let all = (1u32 << 12) - 1;
    let mut v = vec![0, all, u32::MAX, 1 << 31];
    for (i, a) in BITS.iter().enumerate() {
        v.push(*a);
        v.push(all & !a);
        v.push(u32::MAX & !a);
        for b in &BITS[..i] {
            v.push(a | b);
            v.push(all & !(a | b));
        }
    }
    v
}

/// Streams of points of which only some attributes vary
fn layer_streams(l: &Lay, n: usize, c: usize) -> Vec<Pts> {
    let ps = l.size();
    let mut v = vec![];
    let every = l.range(0, n);
    v.push(Pts::new(l.clone(), "everything varies", every.clone(), fixed(n, c), false, c));
    for b in BITS {
        let m = mask(l, b);
        let base = mask(l, 0);
        if m == base {
            continue;
        }
        let mix = |f: &dyn Fn(usize) -> u8| -> Vec<u8> {
            let mut p = every.clone();
            for k in 0..n {
                for i in 0..ps {
                    let keep = f(i);
                    p[k * ps + i] = p[k * ps + i] & keep | every[i] & !keep;
                }
            }
            p
        };
        let only = mix(&|i| m[i] & !base[i]);
        let but = mix(&|i| !(m[i] & !base[i]));
        v.push(Pts::new(l.clone(), &format!("only {:#x} varies", b), only, fixed(n, c), false, c));
        v.push(Pts::new(l.clone(), &format!("everything but {:#x} varies", b), but, fixed(n, c), false, c));
    }
    v.push(Pts::new(l.clone(), "nothing varies", every[..ps].repeat(n), fixed(n, c), false, c));
    v
}

pub fn c11(th: bool) -> Prop {
    let mut v = vec![];
    let layered = |xs: &[usize]| -> Vec<Lay> { all_formats(xs).into_iter().filter(|l| l.layered()).collect() };
    // every selection
    let every = |name: &str, ls: Vec<Lay>, n: usize, c: usize, all: bool| {
        let ss: Arc<Vec<Pts>> = Arc::new(
            ls.into_iter()
                .flat_map(|l| {
                    let p = l.range(0, n);
                    let mut v = vec![Pts::new(l.clone(), "fixed", p.clone(), fixed(n, c), false, c)];
                    if th {
                        v.push(Pts::new(l.clone(), "variable", p, parts(&[1, n - 3, 2]), true, 0));
                    }
                    v
                })
                .collect(),
        );
        let ws = Arc::new(if th { ways(n, all) } else { vec![Way::Bulk(Kind::Seq), Way::Mixed(Kind::Par)] });
        Scenario::new(name, move |ch| {
            let s = ch.of(&ss[..]);
            let w = *ch.of(&ws[..]);
            let sel = ch.choose(1 << 12) as u32;
            get(ch, s, sel, w)
        })
    };
    if th {
        v.push(every("every selection, every layered layout", layered(&[0, 2]), 9, 4, false));
        v.push(every("every selection, every seek", vec![lay(10, 3, 1), lay(10, 4, 1)], 9, 4, true));
    } else {
        v.push(every("every selection, layout with everything", vec![lay(10, 3, 1)], 7, 4, false));
    }
    let sels = Arc::new(some());
    {
        let sels = sels.clone();
        let ss: Arc<Vec<Pts>> = Arc::new(
            all_formats(if th { &[0, 2] } else { &[1] }).into_iter().filter(|l| !l.layered() && (th || [1, 5].contains(&l.pf))).map(|l| Pts::new(l.clone(), "fixed", l.range(0, 5), fixed(5, 2), false, 2)).collect(),
        );
        let ws = Arc::new(ways(5, false));
        v.push(Scenario::new("layouts that are not layered", move |ch| {
            let s = ch.of(&ss[..]);
            let w = *ch.of(&ws[..]);
            let sel = *ch.of(&sels[..]);
            get(ch, s, sel, w)
        }));
    }
    // singles, pairs and their complements: every layout, every way
    let ss: Arc<Vec<Pts>> = Arc::new(
        layered(if th { &[0, 1, 3] } else { &[2] })
            .into_iter()
            .flat_map(|l| {
                let p = l.range(0, 8);
                vec![Pts::new(l.clone(), "fixed", p.clone(), fixed(8, 3), false, 3), Pts::new(l, "variable", p, parts(&[1, 1, 1, 3, 2]), true, 0)]
            })
            .collect(),
    );
    let ws = Arc::new(ways(8, th));
    {
        let sels = sels.clone();
        v.push(Scenario::new("one or two attributes selected or skipped, every layered layout", move |ch| {
            let s = ch.of(&ss[..]);
            let w = *ch.of(&ws[..]);
            let sel = *ch.of(&sels[..]);
            get(ch, s, sel, w)
        }));
    }
    // layers without data
    let ls = if th { layered(&[2]) } else { vec![lay(10, 3, 2), lay(7, 3, 1), lay(8, 4, 1)] };
    let ss: Arc<Vec<Pts>> = Arc::new(ls.iter().flat_map(|l| layer_streams(l, 7, 5)).collect());
    let ws = Arc::new(vec![Way::Bulk(Kind::Seq), Way::Bulk(Kind::Par), Way::Seek(Kind::Seq, 5)]);
    let sels = if th { sels } else { Arc::new(BITS.iter().flat_map(|b| [*b, u32::MAX & !b]).chain([0, u32::MAX]).collect()) };
    v.push(Scenario::new("attributes that do not vary", move |ch| {
        let s = ch.of(&ss[..]);
        let w = *ch.of(&ws[..]);
        let sel = *ch.of(&sels[..]);
        get(ch, s, sel, w)
    }));
    // long chunks: every context of every channel in use
    let ss: Arc<Vec<Pts>> = Arc::new(layered(&[2]).into_iter().map(|l| Pts::new(l.clone(), "long", l.range(0, 90), fixed(90, 60), false, 60)).collect());
    v.push(Scenario::new("long chunks", move |ch| {
        let s = ch.of(&ss[..]);
        let i = ch.choose(26);
        let sel = match i {
            24 => 0,
            25 => u32::MAX,
            _ if i % 2 == 0 => BITS[i / 2],
            _ => u32::MAX & !BITS[i / 2],
        };
        let w = *ch.of(&[Way::Bulk(Kind::Seq), Way::Bulk(Kind::Par), Way::Seek(Kind::Seq, 75), Way::Seek(Kind::Par, 59)]);
        get(ch, s, sel, w)
    }));
    // the builder of selections
    v.push(Scenario::new("every selection built and inspected", move |ch| {
        let sel = ch.choose(1 << 12) as u32;
        type F = fn(Sel) -> Sel;
        type A = fn(Sel) -> bool;
        let tab: [(u32, F, F, A); 12] = [
            (BITS[0], Sel::decompress_z, Sel::skip_z, Sel::should_decompress_z),
            (BITS[1], Sel::decompress_classification, Sel::skip_classification, Sel::should_decompress_classification),
            (BITS[2], Sel::decompress_flags, Sel::skip_flags, Sel::should_decompress_flags),
            (BITS[3], Sel::decompress_intensity, Sel::skip_intensity, Sel::should_decompress_intensity),
            (BITS[4], Sel::decompress_scan_angle, Sel::skip_scan_angle, Sel::should_decompress_scan_angle),
            (BITS[5], Sel::decompress_user_data, Sel::skip_user_data, Sel::should_decompress_user_data),
            (BITS[6], Sel::decompress_point_source_id, Sel::skip_point_source_id, Sel::should_decompress_point_source_id),
            (BITS[7], Sel::decompress_gps_time, Sel::skip_gps_time, Sel::should_decompress_gps_time),
            (BITS[8], Sel::decompress_rgb, Sel::skip_rgb, Sel::should_decompress_rgb),
            (BITS[9], Sel::decompress_nir, Sel::skip_nir, Sel::should_decompress_nir),
            (BITS[10], Sel::decompress_wavepacket, Sel::skip_wavepacket, Sel::should_decompress_wavepacket),
            (BITS[11], Sel::decompress_extra_bytes, Sel::skip_extra_bytes, Sel::should_decompress_extra_bytes),
        ];
        let (mut up, mut down) = (Sel::base(), Sel::all());
        for (b, set, unset, _) in &tab {
            if sel & b != 0 {
                up = set(set(up));
            } else {
                down = unset(unset(down));
            }
        }
        for (b, _, _, is) in &tab {
            let want = sel & b != 0;
            ensure!(is(up) == want && is(down) == want, "builder", "selection {:#x}: attribute {:#x}: {} {}", sel, b, is(up), is(down));
        }
        // what is built selects the same as the bits
        let s = Pts::new(lay(10, 3, 1), "built", lay(10, 3, 1).range(0, 3), fixed(3, 3), false, 3);
        get(ch, &s, sel, Way::Bulk(Kind::Seq))?;
        for b in [up, down] {
            let mut r = Rd::selective(Kind::Seq, Disk::new(s.bytes.clone(), 0), s.l.vlr(3), b).must("reader-new", || "built".into())?;
            let mut o = vec![0; s.pts.len()];
            r.many(&mut o).must("read", || "built".into())?;
            same_selected(&s.l, sel, &o, &s.pts, 0)?;
        }
        ch.validated();
        Ok(())
    }));
    Prop::new(v, &["points from fixed varied sequences; streams from the reference encoder", "what unselected attributes come back as is not specified, but must not depend on the way a point is reached"])
}
