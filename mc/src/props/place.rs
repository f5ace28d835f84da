//! C17 (streams inside larger files) and C18 (one-shot functions).
use super::readers::Stream;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::io::{Seek, SeekFrom, Write};
use std::sync::Arc;

/// Nothing before the window was touched
fn untouched(trespass: &Arc<std::sync::Mutex<Vec<String>>>, what: &dyn Fn() -> String) -> Res {
    let t = trespass.lock().unwrap();
    ensure!(t.is_empty(), "before-start", "{}: before the start of the stream: {}", what(), t.join(", "));
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
    /// one call per point
    Ones(Kind),
    Bulk(Kind),
    Chunks(Kind),
    OneShot,
    ParOneShot,
}

/// Writes points 0..n into `d`; returns the destination and the chunks.
fn write(ch: &Ch, l: &Lay, by: By, variable: bool, n: usize, c: usize, late: Option<usize>, d: Disk) -> Result<Option<(Disk, Vec<Rng>)>, Fail> {
    let cp = chunk_param(variable, c);
    let vlr = l.vlr(cp);
    let what = || format!("{} {:?} {} points", l.name, by, n);
    let whole = if variable { vec![(0, n)] } else { fixed(n, c) };
    let mut d = d;
    match by {
        By::OneShot => {
            laz::compress_buffer(&mut d, &l.range(0, n), vlr).map_err(stable).must("compress", what)?;
            ch.step();
            return Ok(Some((d, whole)));
        }
        By::ParOneShot => {
            laz::par_compress_buffer(&mut d, &l.range(0, n), &vlr).map_err(stable).must("compress", what)?;
            ch.step();
            return Ok(Some((d, whole)));
        }
        _ => {}
    }
    let kind = match by {
        By::Ones(k) | By::Bulk(k) | By::Chunks(k) => k,
        _ => unreachable!(),
    };
    if kind == Kind::Par && variable != matches!(by, By::Chunks(_)) || !variable && matches!(by, By::Chunks(_)) {
        return Ok(None);
    }
    let mut w = Wr::new(kind, d, vlr).must("writer-new", what)?;
    if let Some(k) = late {
        // something is written between the creation of the writer and the first point
        let d = w.inner_mut();
        d.write_all(&junk(k)).map_err(stable).must("header", what)?;
    }
    let mut chunks = whole;
    match by {
        By::Ones(_) => {
            for i in 0..n {
                w.one(Via::Inherent, &l.point(i)).must("compress", what)?;
                ch.step();
            }
        }
        By::Bulk(_) => w.many(Via::Inherent, &l.range(0, n)).must("compress", what)?,
        _ => {
            chunks = fixed(n, c);
            w.chunks(chunks.iter().map(|r| l.range(r.0, r.1)).collect()).must("compress", what)?;
        }
    }
    w.done(Via::Inherent).must("done", what)?;
    ch.step();
    Ok(Some((w.into_inner(), chunks)))
}

pub fn c17(th: bool) -> Prop {
    let mut v = vec![];
    let starts: Arc<Vec<u64>> = Arc::new(if !th { vec![0, 1, 227, (1 << 31) - 40, (1 << 32) + 3, i64::MAX as u64 - 100_000] } else { vec![0, 1, 7, 8, 9, 227, 375, (1 << 31) - 40, (1 << 31) + 1, (1 << 32) - 40, (1 << 32) + 3, 1 << 40, i64::MAX as u64 - 100_000] });
    let layouts = |x: &[usize]| if th { all_formats(x) } else { vec![lay(0, 2, 0), lay(3, 1, 1), lay(6, 3, 0), lay(10, 4, 2)] };
    {
        let ls = Arc::new(layouts(&[0, 2]));
        let starts = starts.clone();
        v.push(Scenario::new("writers at every start, over other data", move |ch| {
            let l = ch.of(&ls[..]);
            let start = *ch.of(&starts[..]);
            let by = *ch.of(&[By::Ones(Kind::Seq), By::Ones(Kind::Par), By::Bulk(Kind::Seq), By::Bulk(Kind::Par), By::Chunks(Kind::Seq), By::Chunks(Kind::Par), By::OneShot, By::ParOneShot]);
            let variable = ch.flag();
            let n = *ch.of(&[0usize, 1, 3, 4]);
            let over = *ch.of(&[0usize, 5, 2000]);
            let late = *ch.of(&[None, Some(1usize), Some(30)]);
            if late.is_some() && matches!(by, By::OneShot | By::ParOneShot) {
                return Ok(());
            }
            let old = vec![0xEEu8; over];
            let d = Disk::window(old.clone(), start);
            let tres = d.trespass.clone();
            let what = || format!("{} {:?} {} points variable {} at {} over {} bytes, {:?} bytes written late", l.name, by, n, variable, start, over, late);
            ch.note(what);
            let k = late.unwrap_or(0);
            let Some((d, chunks)) = write(ch, l, by, variable, n, 2, late, d)? else { return Ok(()) };
            untouched(&tres, &what)?;
            let mut want = junk(k);
            want.extend(expect(l, &chunks, variable, start + k as u64));
            let pos = d.position();
            let got = d.cur.into_inner();
            let end = want.len();
            ensure!(pos == start + end as u64, "position", "{}: left at {} instead of the end of the stream, {}", what(), pos, start + end as u64);
            if over > end {
                want.extend(&old[end..]);
            }
            ensure!(got == want, "bytes", "{}: {}", what(), diff(&got, &want));
            ch.validated();
            ch.outcome(&got);
            Ok(())
        }));
    }
    {
        let ls = Arc::new(layouts(&[1]));
        let starts = starts.clone();
        v.push(Scenario::new("appenders at every start, before other data", move |ch| {
            let l = ch.of(&ls[..]);
            let start = *ch.of(&starts[..]);
            let kind = *ch.of(&[Kind::Seq, Kind::Par]);
            let variable = ch.flag();
            let n = *ch.of(&[0usize, 1, 2, 3, 4]);
            let m = *ch.of(&[0usize, 1, 3]);
            let over = *ch.of(&[0usize, 5, 2000]);
            let cp = chunk_param(variable, 2);
            let mut f = expect(l, &fixed(n, 2), variable, start);
            f.extend(vec![0xEEu8; over]);
            let what = || format!("{} {:?} appender, {} points on {} variable {} at {} with {} bytes after", l.name, kind, m, n, variable, start, over);
            ch.note(what);
            let d = Disk::window(f.clone(), start);
            let tres = d.trespass.clone();
            let mut w = Wr::append(kind, d, l.vlr(cp), n as u64).must("append-new", what)?;
            if variable {
                w.chunks(vec![l.range(n, n + m)]).must("compress", what)?;
            } else {
                w.many(Via::Inherent, &l.range(n, n + m)).must("compress", what)?;
            }
            w.done(Via::Inherent).must("done", what)?;
            ch.steps(3);
            untouched(&tres, &what)?;
            let d = w.into_inner();
            let pos = d.position();
            let got = d.cur.into_inner();
            if !variable {
                let mut want = expect(l, &fixed(n + m, 2), false, start);
                let end = want.len();
                ensure!(pos == start + end as u64, "position", "{}: left at {} instead of the end of the stream, {}", what(), pos, start + end as u64);
                if f.len() > end {
                    want.extend(&f[end..]);
                }
                ensure!(got == want, "bytes", "{}: {}", what(), diff(&got, &want));
            } else {
                // the same as at position 0, but for the offset
                let mut w0 = Wr::append(kind, Disk::new(expect(l, &fixed(n, 2), true, 0), 0), l.vlr(cp), n as u64).must("append-new", what)?;
                w0.chunks(vec![l.range(n, n + m)]).must("compress", what)?;
                w0.done(Via::Inherent).must("done", what)?;
                let mut want = w0.into_inner().cur.into_inner();
                let end = want.len();
                let off = i64::from_le_bytes(want[..8].try_into().unwrap()) + start as i64;
                want[..8].copy_from_slice(&off.to_le_bytes());
                ensure!(pos == start + end as u64, "position", "{}: left at {} instead of the end of the stream, {}", what(), pos, start + end as u64);
                if f.len() > end {
                    want.extend(&f[end..]);
                }
                ensure!(got == want, "bytes", "{}: {}", what(), diff(&got, &want));
            }
            ch.validated();
            ch.outcome(&got);
            Ok(())
        }));
    }
    {
        let ls = layouts(&[1]);
        let ss: Arc<Vec<Stream>> = Arc::new(ls.iter().flat_map(|l| vec![Stream::fixed(l.clone(), 5, 2, 0), Stream::variable(l.clone(), &[1, 3, 1], 0), Stream::gaps(l.clone(), &[2, 0, 2], 0), Stream::fixed(l.clone(), 0, 2, 0)]).collect());
        let starts = starts.clone();
        v.push(Scenario::new("readers at every start, before other data", move |ch| {
            let s = ch.of(&ss[..]);
            let l = &s.l;
            let ps = l.size();
            let start = *ch.of(&starts[..]);
            let over = *ch.of(&[0usize, 3, 700]);
            let kind = *ch.of(&[Kind::Seq, Kind::Par]);
            let n = s.n();
            let seeks = ch.choose(n + 2);
            let again = if th { ch.choose(n + 1) } else { n / 2 };
            let mut f = expect_gaps(l, &s.chunks, s.variable, start, s.gaps);
            f.extend(vec![0xEEu8; over]);
            let d = Disk::window(f, start);
            let tres = d.trespass.clone();
            let what = || format!("{} {:?} reader at {} with {} bytes after, seek to {:?}", s.name(), kind, start, over, seeks.checked_sub(1));
            ch.note(what);
            let mut r = Rd::new(kind, d, l.vlr(s.cp())).must("reader-new", what)?;
            let from = if seeks == 0 { 0 } else { seeks - 1 };
            if seeks > 0 && from < n {
                r.seek(from as u64).must("seek", what)?;
            }
            if from < n {
                let mut o = vec![0x5A; (n - from) * ps];
                r.many(&mut o).must("read", what)?;
                same_points(l, &o, &l.range(from, n), from)?;
                if s.determined() {
                    let mut o = vec![0x5A; ps];
                    ensure!(r.one(&mut o).is_err(), "end", "{}: a point after the last one", what());
                }
                if again < n {
                    r.seek(again as u64).must("seek", what)?;
                    let mut o = vec![0x5A; (n - again) * ps];
                    r.many(&mut o).must("read", what)?;
                    same_points(l, &o, &l.range(again, n), again)?;
                }
            }
            ch.steps(3);
            untouched(&tres, &what)?;
            ch.validated();
            Ok(())
        }));
    }
    {
        let starts = starts.clone();
        v.push(Scenario::new("the chunk table at every start", move |ch| {
            let l = lay(*ch.of(&[0u8, 6]), 3, 0);
            let l = if l.pf == 0 { lay(0, 2, 0) } else { l };
            let start = *ch.of(&starts[..]);
            let n = ch.choose(5);
            let variable = ch.flag();
            let mut f = expect(&l, &fixed(n, 2), variable, start);
            let at_end = ch.flag();
            if at_end {
                f.copy_within(0..8, 0);
                let off: [u8; 8] = f[..8].try_into().unwrap();
                f[..8].copy_from_slice(&(-1i64).to_le_bytes());
                f.extend(off);
            } else {
                f.extend(vec![0xEE; *ch.of(&[0usize, 3, 300])]);
            }
            let mut d = Disk::window(f, start);
            let what = || format!("{} {} points variable {} at {}, offset at the end: {}", l.name, n, variable, start, at_end);
            ch.note(what);
            let t = laz::laszip::ChunkTable::read_from(&mut d, &l.vlr(chunk_param(variable, 2))).map_err(stable).must("table", what)?;
            ensure!(d.position() == start + 8, "position", "{}: left at {}", what(), d.position());
            let want: Vec<(u64, u64)> = fixed(n, 2).iter().map(|r| (if variable { (r.1 - r.0) as u64 } else { 2 }, enc(&l, *r).len() as u64)).collect();
            let got: Vec<(u64, u64)> = t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect();
            ensure!(got == want, "table", "{}: {:?} instead of {:?}", what(), got, want);
            untouched(&d.trespass, &what)?;
            ch.step();
            ch.validated();
            Ok(())
        }));
    }
    {
        // several streams one after the other in one destination
        let ls = Arc::new(layouts(&[0]));
        v.push(Scenario::new("streams one after the other", move |ch| {
            let mut d = Disk::new(junk(3), 3);
            let mut want = junk(3);
            let mut all = vec![];
            for i in 0..3 {
                let l = ch.of(&ls[..if th { ls.len().min(6) } else { 2 }]).clone();
                let by = *ch.of(&[By::Bulk(Kind::Seq), By::Bulk(Kind::Par), By::OneShot, By::ParOneShot]);
                let n = *ch.of(&[0usize, 3, 4]);
                ch.note(|| format!("{} {:?} {} points", l.name, by, n));
                let at = want.len();
                want.extend(expect(&l, &fixed(n, 2), false, at as u64));
                let Some((d2, _)) = write(ch, &l, by, false, n, 2, None, d)? else { return Ok(()) };
                d = d2;
                ensure!(d.cur.position() as usize == want.len(), "position", "stream {}: left at {} instead of {}", i, d.cur.position(), want.len());
                ensure!(d.cur.get_ref() == &want, "bytes", "stream {}: {}", i, diff(d.cur.get_ref(), &want));
                all.push((l, n, at));
            }
            let order = ch.choose(3);
            for k in 0..3 {
                let (l, n, at) = &all[(k + order) % 3];
                must_read(ch, l, 2, &want, *at as u64, if k % 2 == 0 { Kind::Seq } else { Kind::Par }, &l.points(*n))?;
            }
            let _ = d.seek(SeekFrom::Start(0));
            ch.validated();
            Ok(())
        }));
    }
    Prop::new(v, &["chunks of two points; positions up to 2^63 by a destination which holds only the stream"])
}

pub fn c18(th: bool) -> Prop {
    let mut v = vec![];
    let ls = Arc::new(all_formats(if th { &[0, 1, 2, 5] } else { &[0, 2] }));
    {
        let ls = ls.clone();
        let max = if th { 9 } else { 5 };
        v.push(Scenario::new("compressing buffers", move |ch| {
            let l = ch.of(&ls[..]);
            let cp = *ch.of(&[1u32, 2, 3, 50_000, u32::MAX - 1, VARIABLE]);
            let n = ch.choose(max + 1);
            let par = ch.flag();
            let start = *ch.of(&[0usize, 5]);
            let what = || format!("{} chunk size {} {} points par {}", l.name, cp, n, par);
            ch.note(what);
            let p = l.range(0, n);
            let mut d = Disk::new(junk(start), start as u64);
            if par {
                laz::par_compress_buffer(&mut d, &p, &l.vlr(cp)).map_err(stable).must("compress", what)?;
            } else {
                laz::compress_buffer(&mut d, &p, l.vlr(cp)).map_err(stable).must("compress", what)?;
            }
            let mut w = Wr::new(Kind::Seq, Disk::new(junk(start), start as u64), l.vlr(cp)).must("writer-new", what)?;
            w.many(Via::Inherent, &p).must("writer", what)?;
            w.done(Via::Inherent).must("writer", what)?;
            let want = w.into_inner().cur.into_inner();
            let got = d.cur.into_inner();
            ensure!(got == want, "bytes", "{}: {}", what(), diff(&got, &want));
            let chunks = if cp > 60_000 { vec![(0, n)] } else { fixed(n, cp as usize) };
            let model = file(l, &chunks, cp == VARIABLE, start);
            ensure!(got == model, "stream", "{}: {}", what(), diff(&got, &model));
            // and the part without header and table
            if par {
                let mut body = vec![];
                let t = laz::laszip::parallel::par_compress(&mut body, &p, &l.vlr(cp)).map_err(stable).must("compress", what)?;
                let wanted: Vec<(u64, u64)> = chunks.iter().filter(|r| r.1 > r.0).map(|r| (if cp == VARIABLE { (r.1 - r.0) as u64 } else { cp as u64 }, enc(l, *r).len() as u64)).collect();
                let bytes: Vec<u8> = chunks.iter().filter(|r| r.1 > r.0).flat_map(|r| enc(l, *r).to_vec()).collect();
                ensure!(body == bytes, "par_compress", "{}: {}", what(), diff(&body, &bytes));
                let t: Vec<(u64, u64)> = t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect();
                ensure!(t == wanted, "par_compress-table", "{}: table {:?} instead of {:?}", what(), t, wanted);
            }
            ch.steps(3);
            ch.validated();
            ch.outcome(&got);
            Ok(())
        }));
    }
    {
        let ss: Arc<Vec<Stream>> = Arc::new(
            ls.iter()
                .flat_map(|l| {
                    vec![
                        Stream::fixed(l.clone(), 0, 2, 0),
                        Stream::fixed(l.clone(), 1, 2, 0),
                        Stream::fixed(l.clone(), 4, 2, 0),
                        Stream::fixed(l.clone(), 5, 3, 0),
                        Stream::fixed(l.clone(), 3, 50_000, 0),
                        Stream::variable(l.clone(), &[], 0),
                        Stream::variable(l.clone(), &[1, 3, 1], 0),
                        Stream::variable(l.clone(), &[5], 0),
                        Stream::gaps(l.clone(), &[0, 2, 0, 0, 2, 0], 0),
                    ]
                })
                .collect(),
        );
        v.push(Scenario::new("decompressing buffers", move |ch| {
            let s = ch.of(&ss[..]);
            let l = &s.l;
            let ps = l.size();
            let n = s.n();
            // more points than there are, too
            let q = ch.choose(n + 4);
            let par = ch.flag();
            let extra = *ch.of(&[0usize, 40]);
            let what = || format!("{} {} points asked, par {}, {} bytes after the stream", s.name(), q, par, extra);
            ch.note(what);
            let mut f = s.file();
            f.extend(vec![0xEE; extra]);
            let mut o = vec![0x5A; q * ps];
            let r = if par { laz::par_decompress_buffer(&f, &mut o, &l.vlr(s.cp())) } else { laz::decompress_buffer(&f, &mut o, l.vlr(s.cp())) };
            ch.step();
            // what the streaming reader says
            let mut rd = Rd::new(Kind::Seq, Disk::new(f.clone(), 0), l.vlr(s.cp())).must("reader-new", what)?;
            let mut o2 = vec![0x5A; q * ps];
            let r2 = if q == 0 { Ok(()) } else { rd.many(&mut o2) };
            if q <= n {
                r.map_err(stable).must("decompress", what)?;
                r2.must("streaming-reader", what)?;
                same_points(l, &o, &l.range(0, q), 0)?;
                same_points(l, &o2, &l.range(0, q), 0)?;
            } else if s.determined() {
                ensure!(r.is_err(), "too-many", "{}: success, {} points exist", what(), n);
                ensure!(r2.is_err(), "too-many", "{}: streaming reader: success, {} points exist", what(), n);
            }
            ch.validated();
            Ok(())
        }));
    }
    {
        // buffers which are not a whole number of points: refused (the debug assertions panic), or
        // the whole points only
        let ls = ls.clone();
        v.push(Scenario::new("buffers that are not a whole number of points", move |ch| {
            let l = ch.of(&ls[..]);
            let ps = l.size();
            let cp = *ch.of(&[1u32, 2, 50_000, VARIABLE]);
            let n = ch.choose(5);
            let cut = *ch.of(&[1usize, ps / 2, ps - 1]);
            if n == 0 && cut == 0 {
                return Ok(());
            }
            let f = ch.choose(8);
            let what = || format!("{} chunk size {}: {} points and {} bytes, function {}", l.name, cp, n, cut, f);
            ch.note(what);
            let mut p = l.range(0, n);
            p.extend(&l.point(n)[..cut]);
            let vlr = l.vlr(cp);
            let chunks = if cp > 60_000 { vec![(0, 5)] } else { fixed(5, cp as usize) };
            let stream = file(l, &chunks, cp == VARIABLE, 0);
            let mut o = vec![0x5A; p.len()];
            // Some(stream written) or None
            let r: Result<Option<Vec<u8>>, String> = guarded(|| -> Option<Vec<u8>> {
                let mut d = Disk::new(vec![], 0);
                match f {
                    0 => laz::compress_buffer(&mut d, &p, vlr.clone()).ok()?,
                    1 => laz::par_compress_buffer(&mut d, &p, &vlr).ok()?,
                    2 | 3 => {
                        let mut w = Wr::new(if f == 2 { Kind::Seq } else { Kind::Par }, d, vlr.clone()).ok()?;
                        if f == 3 && cp == VARIABLE {
                            w.chunks(vec![p.clone()]).ok()?;
                        } else {
                            w.many(Via::Inherent, &p).ok()?;
                        }
                        w.done(Via::Inherent).ok()?;
                        return Some(w.into_inner().cur.into_inner());
                    }
                    4 => laz::decompress_buffer(&stream, &mut o, vlr.clone()).ok()?,
                    5 => laz::par_decompress_buffer(&stream, &mut o, &vlr).ok()?,
                    6 | 7 => {
                        let mut r = Rd::new(if f == 6 { Kind::Seq } else { Kind::Par }, Disk::new(stream.clone(), 0), vlr.clone()).ok()?;
                        r.many(&mut o).ok()?;
                    }
                    _ => unreachable!(),
                }
                Some(d.cur.into_inner())
            });
            ch.step();
            if let Ok(Some(s)) = r {
                if f < 4 {
                    // whatever was written holds only right points
                    let mut rd = Rd::new(Kind::Seq, Disk::new(s, 0), vlr).must("reader-new", what)?;
                    for k in 0..n + 2 {
                        let mut o = vec![0x5A; ps];
                        match rd.one(&mut o) {
                            Ok(()) if k < n => same_points(l, &o, &l.point(k), k)?,
                            // a partial chunk of fixed size does not say where it ends
                            Ok(()) => {
                                let determined = l.layered() || cp == VARIABLE;
                                ensure!(!determined, "made-up", "{}: the stream has a point {} which comes back as {}", what(), k, hex(&o));
                                break;
                            }
                            Err(_) => {
                                ensure!(k >= n, "lost", "{}: success, but point {} is not in the stream", what(), k);
                                break;
                            }
                        }
                    }
                } else {
                    same_points(l, &o[..n * ps], &l.range(0, n), 0)?;
                }
            }
            ch.validated();
            Ok(())
        }));
    }
    Prop::new(v, &["up to the stated number of points per buffer; the debug assertions on the sizes of buffers count as a refusal"])
}
