//! C22 (streams do not influence each other) and C23 (chunks do not influence each other).
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use crate::refc::{self, Kind as Item};
use laz::las::selective::DecompressionSelection as Sel;
use rayon_core::mc::visible;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// C23

/// Sequences of points that leave a codec in very different states
pub fn sequences(l: &Lay, long: usize) -> Vec<(&'static str, Vec<u8>)> {
    let ps = l.size();
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![("varied", l.range(0, 7)), ("one", l.range(5, 6)), ("other", l.range(90, 94)), ("constant", l.point(3).repeat(4))];
    let mut ext = vec![];
    for k in 0..5 {
        ext.extend(vec![[0u8, 0xFF, 0x80, 0x00, 0x7F][k]; ps]);
    }
    v.push(("extremes", ext));
    let mut x = 0x1234_5678u32;
    let noise: Vec<u8> = (0..24 * ps)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect();
    v.push(("noise", noise));
    let gps = l.offset_of(Item::Gps11).or(l.offset_of(Item::Point14).map(|o| o + 22));
    let mut p = l.range(0, 12);
    let times = [1e5, 2e5, 1e5 + 1e-3, 3e5, 2e5 + 1e-3, 1e5 + 2e-3, 4e5, 5e5, 3e5 + 1e-3, -1.0, 0.0, 1e5 + 4e-3f64];
    for k in 0..12 {
        if let Some(o) = gps {
            p[k * ps + o..k * ps + o + 8].copy_from_slice(&times[k].to_le_bytes());
        }
        if let Some(o) = l.offset_of(Item::Point14) {
            // scanner channels in every order
            let b = &mut p[k * ps + o + 15];
            *b = *b & 0xCF | ([3u8, 1, 2, 0, 3, 3, 0, 1, 1, 2, 0, 2][k]) << 4;
        }
    }
    v.push(("times and channels", p));
    v.push(("long", l.range(200, 200 + long)));
    v
}

/// Points that cannot be compressed
fn noise(l: &Lay, n: usize) -> Vec<u8> {
    let mut s = 12345u64;
    (0..n * l.size())
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 56) as u8
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    /// one call per point, chunks ended by the caller
    Ones,
    Many,
    Chunks,
    ParChunks,
    ParChunksTwice,
    Append,
    ParAppend,
}

fn chunked(l: &Lay, w: W, chunks: &[&[u8]]) -> Result<Vec<u8>, Fail> {
    let what = || format!("{} {:?}", l.name, w);
    let vlr = l.vlr(VARIABLE);
    let kind = if matches!(w, W::ParChunks | W::ParChunksTwice | W::ParAppend) { Kind::Par } else { Kind::Seq };
    let ps = l.size();
    let owned: Vec<Vec<u8>> = chunks.iter().map(|c| c.to_vec()).collect();
    if matches!(w, W::Append | W::ParAppend) {
        // the reopened chunk is full: the appended ones are chunks of their own
        let f = chunked(l, W::Chunks, &chunks[..1])?;
        let mut a = Wr::append(kind, Disk::new(f, 0), vlr, (chunks[0].len() / ps) as u64).must("append-new", what)?;
        if kind == Kind::Seq {
            a.finish().must("finish", what)?;
        }
        a.chunks(owned[1..].to_vec()).must("compress", what)?;
        a.done(Via::Inherent).must("done", what)?;
        return Ok(a.into_inner().cur.into_inner());
    }
    let mut wr = Wr::new(kind, Disk::new(vec![], 0), vlr).must("writer-new", what)?;
    match w {
        W::Ones => {
            for c in chunks {
                for p in c.chunks(ps) {
                    wr.one(Via::Inherent, p).must("compress", what)?;
                }
                wr.finish().must("finish", what)?;
            }
        }
        W::Many => {
            for c in chunks {
                wr.many(Via::Inherent, c).must("compress", what)?;
                wr.finish().must("finish", what)?;
            }
        }
        W::Chunks | W::ParChunks => wr.chunks(owned).must("compress", what)?,
        W::ParChunksTwice => {
            for c in owned {
                wr.chunks(vec![c]).must("compress", what)?;
            }
        }
        _ => unreachable!(),
    }
    wr.done(Via::Inherent).must("done", what)?;
    Ok(wr.into_inner().cur.into_inner())
}

/// bytes of the chunks of a stream, and the numbers of points
fn split(l: &Lay, f: &[u8], cp: u32) -> Result<Vec<(u64, Vec<u8>)>, Fail> {
    let t = table_of(l, cp, f, 0).must("table", || l.name.clone())?;
    let mut at = 8;
    let mut v = vec![];
    for (n, b) in t {
        let Some(s) = f.get(at..at + b as usize) else {
            return fail("table", format!("{}: chunks end after the stream", l.name));
        };
        v.push((n, s.to_vec()));
        at += b as usize;
    }
    Ok(v)
}

pub fn c23(th: bool) -> Prop {
    let mut v = vec![];
    let ls: Arc<Vec<(Lay, Vec<(&'static str, Vec<u8>)>)>> = Arc::new(
        if th { all_formats(&[0, 1, 3]) } else { all_formats(&[2]) }
            .into_iter()
            .map(|l| (l.clone(), sequences(&l, if th { 3000 } else { 200 })))
            .collect(),
    );
    {
        let ls = ls.clone();
        v.push(Scenario::new("writers: every chunk after every other", move |ch| {
            let (l, seqs) = ch.of(&ls[..]);
            let w = *ch.of(&[W::Ones, W::Many, W::Chunks, W::ParChunks, W::ParChunksTwice, W::Append, W::ParAppend]);
            let a = ch.of(&seqs[..]);
            let b = ch.of(&seqs[..]);
            ch.note(|| format!("{} {:?} chunk '{}' after '{}'", l.name, w, b.0, a.0));
            let alone = chunked(l, W::Many, &[&b.1])?;
            let alone = split(l, &alone, VARIABLE)?;
            let f = chunked(l, w, &[&a.1, &b.1, &a.1])?;
            let t = split(l, &f, VARIABLE)?;
            ch.steps(2);
            // appending may go on with the last chunk of the stream: the parallel appender has no
            // way to end it
            let n = t.len();
            ensure!(n == 3 || w == W::ParAppend && n == 2, "chunks", "{} {:?}: {} chunks instead of 3", l.name, w, n);
            if n == 3 {
                let got = &t[1].1;
                ensure!(
                    alone.len() == 1 && got == &alone[0].1,
                    "chunk-bytes",
                    "{} {:?}: chunk '{}' after '{}' is not the chunk alone: {}",
                    l.name,
                    w,
                    b.0,
                    a.0,
                    diff(got, &alone[0].1)
                );
            }
            // the last chunk, after both
            let alone = split(l, &chunked(l, W::Many, &[&a.1])?, VARIABLE)?;
            let got = &t[n - 1].1;
            ensure!(
                got == &alone[0].1,
                "chunk-bytes",
                "{} {:?}: chunk '{}' after '{}' and '{}' is not the chunk alone: {}",
                l.name,
                w,
                a.0,
                a.0,
                b.0,
                diff(got, &alone[0].1)
            );
            ch.validated();
            ch.outcome(&f);
            Ok(())
        }));
    }
    {
        // fixed-size chunks: sequences cut to the same number of points
        let ls = ls.clone();
        let c = 6usize;
        v.push(Scenario::new("writers of fixed-size chunks: every chunk after every other", move |ch| {
            let (l, seqs) = ch.of(&ls[..]);
            let ps = l.size();
            let cut: Vec<(&str, Vec<u8>)> = seqs.iter().map(|(n, s)| (*n, s.iter().cycle().take(c * ps).cloned().collect())).collect();
            let a = ch.of(&cut[..]);
            let b = ch.of(&cut[..]);
            let how = ch.choose(6);
            ch.note(|| format!("{} way {} chunk '{}' after '{}'", l.name, how, b.0, a.0));
            let what = || format!("{} way {}", l.name, how);
            let vlr = l.vlr(c as u32);
            let all = [&a.1[..], &b.1, &a.1].concat();
            let d = Disk::new(vec![], 0);
            let f = match how {
                0 | 1 => {
                    let mut w = Wr::new(if how == 0 { Kind::Seq } else { Kind::Par }, d, vlr).must("writer-new", what)?;
                    w.many(Via::Inherent, &all).must("compress", what)?;
                    w.done(Via::Inherent).must("done", what)?;
                    w.into_inner().cur.into_inner()
                }
                2 => {
                    let mut w = Wr::new(Kind::Seq, d, vlr).must("writer-new", what)?;
                    for p in all.chunks(ps) {
                        w.one(Via::Inherent, p).must("compress", what)?;
                    }
                    w.done(Via::Inherent).must("done", what)?;
                    w.into_inner().cur.into_inner()
                }
                3 => {
                    let mut d = d;
                    laz::par_compress_buffer(&mut d, &all, &vlr).map_err(stable).must("compress", what)?;
                    d.cur.into_inner()
                }
                _ => {
                    // the end of the first chunk by an appender
                    let mut w = Wr::new(Kind::Seq, d, vlr.clone()).must("writer-new", what)?;
                    w.many(Via::Inherent, &all[..4 * ps]).must("compress", what)?;
                    w.done(Via::Inherent).must("done", what)?;
                    let mut w = Wr::append(if how == 4 { Kind::Seq } else { Kind::Par }, Disk::new(w.into_inner().cur.into_inner(), 0), vlr, 4).must("append-new", what)?;
                    w.many(Via::Inherent, &all[4 * ps..]).must("compress", what)?;
                    w.done(Via::Inherent).must("done", what)?;
                    w.into_inner().cur.into_inner()
                }
            };
            ch.steps(2);
            let t = split(l, &f, c as u32)?;
            ensure!(t.len() == 3, "chunks", "{}: {} chunks instead of 3", what(), t.len());
            for (k, s) in [(0, a), (1, b), (2, a)] {
                let alone = split(l, &chunked(l, W::Many, &[&s.1])?, VARIABLE)?;
                ensure!(
                    t[k].1 == alone[0].1,
                    "chunk-bytes",
                    "{}: chunk {} '{}' (with '{}' and '{}') is not the chunk alone: {}",
                    what(),
                    k,
                    s.0,
                    a.0,
                    b.0,
                    diff(&t[k].1, &alone[0].1)
                );
            }
            ch.validated();
            Ok(())
        }));
    }
    {
        let ls = ls.clone();
        v.push(Scenario::new("readers: every chunk after every other", move |ch| {
            let (l, seqs) = ch.of(&ls[..]);
            let ps = l.size();
            let a = ch.of(&seqs[..]);
            let b = ch.of(&seqs[..]);
            let kind = *ch.of(&[Kind::Seq, Kind::Par]);
            let (na, nb) = (a.1.len() / ps, b.1.len() / ps);
            let f = refc::encode_stream(&l.l, &[&a.1, &b.1, &a.1], true, 0);
            let all = [&a.1[..], &b.1, &a.1].concat();
            let n = 2 * na + nb;
            // the parts of the stream read before the chunk `b`
            let how = ch.choose(8);
            ch.note(|| format!("{} {:?} chunk '{}' after '{}', way {}", l.name, kind, b.0, a.0, how));
            let what = || format!("{} {:?} chunk '{}' after '{}', way {}", l.name, kind, b.0, a.0, how);
            let mut r = Rd::new(kind, Disk::new(f.clone(), 0), l.vlr(VARIABLE)).must("reader-new", what)?;
            let get = |r: &mut Rd, from: usize, to: usize| -> Res {
                let mut o = vec![0x5A; (to - from) * ps];
                r.many(&mut o).must("read", what)?;
                ch.step();
                same_points(l, &o, &all[from * ps..to * ps], from)
            };
            match how {
                0 => get(&mut r, 0, na)?,
                1 => {
                    for k in 0..na {
                        get(&mut r, k, k + 1)?;
                    }
                }
                // part of the chunk before
                2 => {
                    get(&mut r, 0, (na + 1) / 2)?;
                    r.seek(na as u64).must("seek", what)?;
                }
                // directly
                3 => r.seek(na as u64).must("seek", what)?,
                // after the chunk that follows, and after its own beginning
                4 => {
                    r.seek((na + nb) as u64).must("seek", what)?;
                    get(&mut r, na + nb, n)?;
                    r.seek(na as u64).must("seek", what)?;
                }
                5 => {
                    r.seek((na + nb / 2) as u64).must("seek", what)?;
                    get(&mut r, na + nb / 2, na + nb + 1)?;
                    r.seek(na as u64).must("seek", what)?;
                }
                // after a failed read at the end
                6 => {
                    r.seek((n - 1) as u64).must("seek", what)?;
                    let mut o = vec![0; 2 * ps];
                    ensure!(r.many(&mut o).is_err(), "end", "{}: two points at the last one", what());
                    r.seek(na as u64).must("seek", what)?;
                }
                // on its own
                _ => {
                    let t = table_of(l, VARIABLE, &f, 0).must("table", what)?;
                    let from = 8 + t[0].1 as usize;
                    let entry = laz::laszip::ChunkTableEntry {
                        point_count: nb as u64,
                        byte_count: t[1].1,
                    };
                    let mut o = vec![0x5A; nb * ps];
                    laz::laszip::parallel::par_decompress(&f[from..from + t[1].1 as usize], &mut o, &l.vlr(VARIABLE), &[entry])
                        .map_err(stable)
                        .must("alone", what)?;
                    same_points(l, &o, &b.1, na)?;
                    r.seek(na as u64).must("seek", what)?;
                }
            }
            get(&mut r, na, na + nb)?;
            get(&mut r, na + nb, n)?;
            ch.validated();
            Ok(())
        }));
    }
    {
        // chunks that fill the buffers of the coder any number of times
        let ls = Arc::new(if th {
            vec![lay(0, 1, 0), lay(0, 2, 0), lay(3, 2, 1), lay(5, 1, 0), lay(6, 3, 0), lay(10, 3, 2), lay(8, 4, 0)]
        } else {
            vec![lay(1, 1, 0), lay(3, 2, 0), lay(7, 3, 1)]
        });
        v.push(Scenario::new("chunks longer than the coder's buffers", move |ch| {
            let l = ch.of(&ls[..]);
            let ps = l.size();
            // bytes that come out for each point, or of the longest layer
            let per = if l.layered() { 8 } else { ps };
            let sizes: &[usize] = if th {
                &[1, 3000, 5000, 7000, 9000, 11000, 13000, 15000, 17000, 19000]
            } else {
                &[1, 5000, 9500, 13500, 17500]
            };
            let ns: Vec<usize> = (0..2).map(|_| (*ch.of(sizes)).div_ceil(per)).collect();
            let w = *ch.of(&[W::Ones, W::Many, W::ParChunksTwice]);
            ch.note(|| format!("{} {:?} {:?} points", l.name, w, ns));
            let a = noise(l, ns[0]);
            let b = noise(l, ns[1]);
            let f = chunked(l, w, &[&a, &b, &a])?;
            let t = split(l, &f, VARIABLE)?;
            let want = [refc::encode_chunk(&l.l, &a), refc::encode_chunk(&l.l, &b)];
            for k in 0..3 {
                ensure!(
                    t.len() == 3 && t[k].1 == want[k % 2],
                    "chunk-bytes",
                    "{} {:?} {:?} points: chunk {}: {}",
                    l.name,
                    w,
                    ns,
                    k,
                    diff(&t[k].1, &want[k % 2])
                );
            }
            let k = if w == W::ParChunksTwice { Kind::Par } else { Kind::Seq };
            must_read(ch, l, VARIABLE, &f, 0, k, &[&a[..], &b, &a].concat())?;
            ch.validated();
            Ok(())
        }));
    }
    if th {
        // longer histories
        let ls: Arc<Vec<(Lay, Vec<(&'static str, Vec<u8>)>)>> = Arc::new(few().into_iter().map(|l| (l.clone(), sequences(&l, 100))).collect());
        v.push(Scenario::new("writers and readers: three chunks before", move |ch| {
            let (l, seqs) = ch.of(&ls[..]);
            let w = *ch.of(&[W::Many, W::ParChunks]);
            let s: Vec<&(&str, Vec<u8>)> = (0..4).map(|_| ch.of(&seqs[..])).collect();
            let f = chunked(l, w, &s.iter().map(|x| &x.1[..]).collect::<Vec<_>>())?;
            let t = split(l, &f, VARIABLE)?;
            ensure!(t.len() == 4, "chunks", "{} chunks", t.len());
            for k in 0..4 {
                let alone = refc::encode_chunk(&l.l, &s[k].1);
                ensure!(
                    t[k].1 == alone,
                    "chunk-bytes",
                    "{} {:?}: chunk {} of {:?}: {}",
                    l.name,
                    w,
                    k,
                    s.iter().map(|x| x.0).collect::<Vec<_>>(),
                    diff(&t[k].1, &alone)
                );
            }
            must_read(ch, l, VARIABLE, &f, 0, Kind::Seq, &s.iter().flat_map(|x| x.1.clone()).collect::<Vec<_>>())?;
            ch.validated();
            Ok(())
        }));
    }
    Prop::new(
        v,
        &["chunks from eight sequences of points per layout that leave the codecs in different states (constant, extremes, noise, long, times and channels in every order)"],
    )
}

// ---------------------------------------------------------------------------------------------
// C22

/// A user of a stream: every call makes one step; true when finished.
pub type Actor<'a> = Box<dyn FnMut() -> Result<bool, Fail> + Send + 'a>;

pub const ACTORS: [&str; 12] = [
    "sequential writer",
    "parallel writer",
    "sequential reader",
    "parallel reader",
    "sequential appender",
    "parallel appender",
    "one-shot",
    "abandoned writer",
    "failing reader",
    "seeking reader",
    "variable writer",
    "selective reader",
];

pub fn actor<'a>(k: usize, l: &'a Lay, base: usize, points: bool) -> Actor<'a> {
    let ps = l.size();
    let mut step = 0;
    let c = 2usize;
    let disk = move |v: Vec<u8>| {
        let d = Disk::new(v, 0);
        if points {
            d.hooked(Arc::new(|_, _| {
                rayon_core::mc::point("io");
                Verdict::Normal
            }))
        } else {
            d
        }
    };
    // the points of this actor: `base..`
    let p = move |a: usize, b: usize| rayon_core::mc::atomic(|| l.range(base + a, base + b));
    let stream = move |n: usize, variable: bool, sizes: &[usize]| {
        let ch: Vec<Rng> = if variable { parts(sizes) } else { fixed(n, c) };
        expect(l, &ch.iter().map(|r| (r.0 + base, r.1 + base)).collect::<Vec<_>>(), variable, 0)
    };
    let same = move |d: Disk, want: Vec<u8>, who: &str| -> Res {
        let got = d.cur.into_inner();
        ensure!(got == want, "bytes", "{} {}: {}", l.name, who, diff(&got, &want));
        Ok(())
    };
    let name = ACTORS[k];
    let what = move || format!("{} {}", l.name, name);
    match k {
        0 | 1 | 4 | 5 | 7 | 10 => {
            let mut w: Option<Wr> = None;
            Box::new(move || {
                step += 1;
                match (k, step) {
                    (0 | 7, 1) => w = Some(Wr::new(Kind::Seq, disk(vec![]), l.vlr(c as u32)).must("new", what)?),
                    (1, 1) => w = Some(Wr::new(Kind::Par, disk(vec![]), l.vlr(c as u32)).must("new", what)?),
                    (10, 1) => w = Some(Wr::new(Kind::Seq, disk(vec![]), l.vlr(VARIABLE)).must("new", what)?),
                    (4, 1) => w = Some(Wr::append(Kind::Seq, disk(stream(1, false, &[])), l.vlr(c as u32), 1).must("new", what)?),
                    (5, 1) => w = Some(Wr::append(Kind::Par, disk(stream(1, false, &[])), l.vlr(c as u32), 1).must("new", what)?),
                    (_, 2) => w
                        .as_mut()
                        .unwrap()
                        .many(Via::Inherent, &p(1, 4)[if matches!(k, 4 | 5) { 0 } else { 3 * ps }..])
                        .must("compress", what)?,
                    _ => {}
                }
                if matches!(k, 4 | 5) {
                    match step {
                        3 => {
                            w.as_mut().unwrap().done(Via::Inherent).must("done", what)?;
                            same(w.take().unwrap().into_inner(), stream(4, false, &[]), name)?;
                            return Ok(true);
                        }
                        _ => return Ok(false),
                    }
                }
                let wr = w.as_mut().unwrap();
                match step {
                    1 => {}
                    2 => wr.many(Via::Inherent, &p(0, 3)).must("compress", what)?,
                    3 => {
                        if k == 7 {
                            w = None;
                            return Ok(true);
                        }
                        if k == 10 {
                            wr.finish().must("finish", what)?;
                        }
                        wr.one(Via::Inherent, &p(3, 4)).must("compress", what)?
                    }
                    _ => {
                        wr.done(Via::Inherent).must("done", what)?;
                        let want = stream(4, k == 10, &[3, 1]);
                        same(w.take().unwrap().into_inner(), want, name)?;
                        return Ok(true);
                    }
                }
                Ok(false)
            })
        }
        6 => Box::new(move || {
            step += 1;
            let mut d = disk(vec![]);
            match step {
                1 => visible(|| laz::compress_buffer(&mut d, &p(0, 4), l.vlr(2))).map_err(stable).must("compress", what)?,
                _ => visible(|| laz::par_compress_buffer(&mut d, &p(0, 4), &l.vlr(2))).map_err(stable).must("compress", what)?,
            }
            let f = d.cur.into_inner();
            ensure!(f == stream(4, false, &[]), "bytes", "{}: {}", what(), diff(&f, &stream(4, false, &[])));
            let mut o = vec![0x5A; 4 * ps];
            match step {
                1 => visible(|| laz::decompress_buffer(&f, &mut o, l.vlr(2))).map_err(stable).must("decompress", what)?,
                _ => visible(|| laz::par_decompress_buffer(&f, &mut o, &l.vlr(2))).map_err(stable).must("decompress", what)?,
            }
            same_points(l, &o, &p(0, 4), 0)?;
            Ok(step == 2)
        }),
        _ => {
            let mut r: Option<Rd> = None;
            Box::new(move || {
                step += 1;
                let variable = k == 9;
                let cp = chunk_param(variable, c);
                let f = stream(4, variable, &[1, 2, 1]);
                let read = |r: &mut Rd, a: usize, b: usize| -> Res {
                    let mut o = vec![0x5A; (b - a) * ps];
                    r.many(&mut o).must("read", what)?;
                    if k == 11 {
                        return super::selection::same_selected(l, Sel::RGB | Sel::INTENSITY, &o, &p(a, b), a);
                    }
                    same_points(l, &o, &p(a, b), a)
                };
                match (k, step) {
                    (2 | 9, 1) => r = Some(Rd::new(Kind::Seq, disk(f), l.vlr(cp)).must("new", what)?),
                    (3, 1) => r = Some(Rd::new(Kind::Par, disk(f), l.vlr(cp)).must("new", what)?),
                    (11, 1) => r = Some(Rd::selective(Kind::Seq, disk(f), l.vlr(cp), Sel(Sel::RGB | Sel::INTENSITY)).must("new", what)?),
                    (8, 1) => {
                        // only part of the second chunk is there
                        let n = 8 + enc(l, (base, base + 2)).len() + 5;
                        r = Some(Rd::new(Kind::Seq, disk(f[..n].to_vec()), l.vlr(cp)).must("new", what)?)
                    }
                    (8, 2) => read(r.as_mut().unwrap(), 0, 2)?,
                    (8, _) => {
                        let mut o = vec![0x5A; 2 * ps];
                        ensure!(r.as_mut().unwrap().many(&mut o).is_err(), "truncated", "{}: a truncated stream is read", what());
                        return Ok(step == 3);
                    }
                    (_, 2) => read(r.as_mut().unwrap(), 0, 1)?,
                    (9, 3) => {
                        r.as_mut().unwrap().seek(3).must("seek", what)?;
                        read(r.as_mut().unwrap(), 3, 4)?;
                        r.as_mut().unwrap().seek(1).must("seek", what)?;
                    }
                    (_, 3) => read(r.as_mut().unwrap(), 1, 3)?,
                    (9, _) => {
                        read(r.as_mut().unwrap(), 1, 4)?;
                        return Ok(true);
                    }
                    _ => {
                        read(r.as_mut().unwrap(), 3, 4)?;
                        return Ok(true);
                    }
                }
                Ok(false)
            })
        }
    }
}

/// Two long sequences of points, and the streams of them.
pub struct Deep {
    pub l: Lay,
    pub pts: [Vec<u8>; 2],
    pub bytes: [Vec<u8>; 2],
}
const DEEP_CHUNK: usize = 30;
impl Deep {
    pub fn new(l: Lay, len: usize) -> Deep {
        let ps = l.size();
        let s = sequences(&l, len);
        let get = |n: &str| s.iter().find(|x| x.0 == n).unwrap().1.clone();
        let a = [get("long"), get("times and channels"), get("noise")[..6 * ps].to_vec(), l.range(7, 7 + len / 2), l.point(6 + len / 2).repeat(2)].concat();
        // the one ends with points that leave nothing to say, the other with noise
        let b = [get("times and channels"), l.range(60, 60 + len / 2), l.range(130, 130 + len), get("noise")[6 * ps..14 * ps].to_vec()].concat();
        let pts = [a, b];
        let bytes = [0, 1].map(|i: usize| {
            let c: Vec<&[u8]> = pts[i].chunks(DEEP_CHUNK * ps).collect();
            refc::encode_stream(&l.l, &c, false, 0)
        });
        Deep { l, pts, bytes }
    }
    pub fn n(&self) -> usize {
        self.pts[0].len() / self.l.size()
    }
    pub fn user(&self, i: usize, writes: bool) -> Result<DeepUser<'_>, Fail> {
        let vlr = self.l.vlr(DEEP_CHUNK as u32);
        let what = || self.l.name.clone();
        Ok(DeepUser {
            d: self,
            i,
            k: 0,
            w: if writes {
                Some(Wr::new(Kind::Seq, Disk::new(vec![], 0), vlr.clone()).must("writer-new", what)?)
            } else {
                None
            },
            r: if writes {
                None
            } else {
                Some(Rd::new(Kind::Seq, Disk::new(self.bytes[i].clone(), 0), vlr).must("reader-new", what)?)
            },
        })
    }
}
pub struct DeepUser<'a> {
    d: &'a Deep,
    i: usize,
    k: usize,
    w: Option<Wr>,
    r: Option<Rd>,
}
impl DeepUser<'_> {
    pub fn go(&mut self, n: usize) -> Res {
        let ps = self.d.l.size();
        let want = &self.d.pts[self.i][self.k * ps..(self.k + n) * ps];
        let what = || format!("{} stream {} at point {}", self.d.l.name, self.i, self.k);
        if let Some(w) = &mut self.w {
            w.many(Via::Inherent, want).must("compress", what)?;
        }
        if let Some(r) = &mut self.r {
            let mut o = vec![0x5A; want.len()];
            r.many(&mut o).must("read", what)?;
            same_points(&self.d.l, &o, want, self.k)?;
        }
        self.k += n;
        Ok(())
    }
    pub fn end(&mut self) -> Res {
        let s = self;
        if let Some(mut w) = s.w.take() {
            w.done(Via::Inherent).must("done", || s.d.l.name.clone())?;
            let got = w.into_inner().cur.into_inner();
            ensure!(got == s.d.bytes[s.i], "bytes", "{} stream {}: {}", s.d.l.name, s.i, diff(&got, &s.d.bytes[s.i]));
        }
        Ok(())
    }
}

pub fn c22(th: bool) -> Prop {
    let mut v = vec![];
    let inter = |name: &str, na: usize, who: Vec<usize>, pairs: Vec<Vec<Lay>>| {
        let pairs = Arc::new(pairs);
        Scenario::new(name, move |ch| {
            let ls = ch.of(&pairs[..]);
            let ks: Vec<usize> = (0..na).map(|_| *ch.of(&who)).collect();
            ch.note(|| format!("{:?}", ks.iter().zip(ls).map(|(k, l)| format!("{} {}", l.name, ACTORS[*k])).collect::<Vec<_>>()));
            let mut a: Vec<Option<Actor>> = (0..na).map(|i| Some(actor(ks[i], &ls[i], 10 * i, false))).collect();
            loop {
                let live: Vec<usize> = (0..na).filter(|i| a[*i].is_some()).collect();
                if live.is_empty() {
                    break;
                }
                let i = live[ch.choose(live.len())];
                ch.note(|| format!("step of {}", i));
                if a[i].as_mut().unwrap()()? {
                    a[i] = None;
                }
                ch.step();
            }
            ch.validated();
            Ok(())
        })
    };
    let every: Vec<usize> = (0..12).collect();
    let l2 = |a: Lay, b: Lay| vec![a, b];
    v.push(inter(
        "two streams, every interleaving",
        2,
        every.clone(),
        if th {
            vec![
                l2(lay(3, 2, 0), lay(3, 2, 0)),
                l2(lay(5, 1, 2), lay(10, 4, 1)),
                l2(lay(6, 3, 1), lay(6, 3, 1)),
                l2(lay(10, 3, 0), lay(8, 4, 0)),
                l2(lay(0, 1, 0), lay(0, 2, 0)),
            ]
        } else {
            vec![l2(lay(3, 2, 0), lay(3, 2, 0)), l2(lay(7, 3, 1), lay(7, 3, 1))]
        },
    ));
    v.push(inter(
        "three streams, every interleaving",
        3,
        if th { vec![0, 2, 4, 5, 9] } else { vec![4, 8] },
        vec![vec![lay(0, 2, 0), lay(6, 3, 1), lay(0, 2, 0)]],
    ));
    // long chunks, switched between once or twice: every state of every codec is left and entered again
    {
        let ls: Arc<Vec<Deep>> = Arc::new(
            if th {
                all_formats(&[0, 1, 3])
            } else {
                vec![lay(5, 1, 2), lay(5, 2, 2), lay(10, 3, 2), lay(10, 4, 2)]
            }
            .into_iter()
            .map(|l| Deep::new(l, if th { 24 } else { 10 }))
            .collect(),
        );
        v.push(Scenario::new("long streams, every pair of switches", move |ch| {
            let d = ch.of(&ls[..]);
            let w = [ch.flag(), ch.flag()];
            let n = d.n();
            let i = ch.choose(n + 1);
            let j = 1 + ch.choose(n - 1);
            ch.note(|| {
                format!(
                    "{} {:?} writes: {} points of the first, {} points of the second, the rest of the first, the rest of the second",
                    d.l.name, w, i, j
                )
            });
            let mut a = [d.user(0, w[0])?, d.user(1, w[1])?];
            a[0].go(i)?;
            a[1].go(j)?;
            a[0].go(n - i)?;
            a[0].end()?;
            a[1].go(n - j)?;
            a[1].end()?;
            ch.steps(4);
            ch.validated();
            Ok(())
        }));
    }
    // on several threads
    let conc = |name: &str, who: Vec<usize>, pairs: Vec<Vec<Lay>>, workers: usize, budget: i64, alloc: bool| {
        let pairs = Arc::new(pairs);
        Scenario::new(name, move |ch| {
            let ls = ch.of(&pairs[..]);
            let ks: Vec<usize> = (0..2).map(|_| *ch.of(&who)).collect();
            ch.note(|| format!("{:?}", ks.iter().zip(ls).map(|(k, l)| format!("{} {}", l.name, ACTORS[*k])).collect::<Vec<_>>()));
            let run = |i: usize| -> Res {
                let mut a = actor(ks[i], &ls[i], 10 * i, true);
                while !a()? {}
                Ok(())
            };
            let (a, b) = pool_alloc(ch, workers, false, alloc, || rayon_core::join(|| run(0), || run(1)))?;
            a?;
            b?;
            ch.steps(2);
            ch.validated();
            Ok(())
        })
        .with_budget(budget)
    };
    let p = vec![l2(lay(1, 2, 1), lay(1, 2, 1)), l2(lay(6, 3, 1), lay(6, 3, 1))];
    v.push(conc(
        "two streams on two threads, switches at I/O",
        if th { every.clone() } else { vec![0, 1, 2, 3, 5, 6, 9] },
        p.clone(),
        2,
        if th { 3 } else { 1 },
        false,
    ));
    v.push(conc(
        "two streams on two threads, a switch at any allocation",
        if th { every } else { vec![0, 2] },
        if th { p } else { vec![l2(lay(0, 1, 0), lay(0, 1, 0))] },
        2,
        1,
        true,
    ));
    Prop::new(
        v,
        &["preemptions at allocations, at I/O and at the points of the scheduler", "the streams share nothing the user gave them"],
    )
}
