//! C15: interrupted writes. C16: streams without usable chunk table.
use super::append::both;
use super::faults::moved;
use super::readers::Stream;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

/// What the points of a stream look like
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Content {
    Varied,
    Constant,
    Zeros,
    Ones,
    /// zeros, but the last 8 bytes of each record hold a number
    Tail(u64),
    /// the same, and it is followed by bytes that are not zero
    TailIn(u64),
}

pub fn content(l: &Lay, k: Content, n: usize) -> Vec<u8> {
    let ps = l.size();
    match k {
        Content::Varied => l.range(0, n),
        Content::Constant => l.range(3, 4).repeat(n),
        Content::Zeros => vec![0; ps * n],
        Content::Ones => vec![0xFF; ps * n],
        Content::Tail(v) | Content::TailIn(v) => {
            let mut p = vec![0; ps];
            p[ps - 8..].copy_from_slice(&v.to_le_bytes());
            if let Content::TailIn(_) = k {
                p[..ps - 8].fill(1);
            }
            p.repeat(n)
        }
    }
}

/// The file after the first `bytes` bytes that were written
pub fn cut(base: &[u8], log: &[Op], mut bytes: usize) -> Vec<u8> {
    let mut f = base.to_vec();
    for op in log {
        if let Op::Write(pos, b) = op {
            let k = b.len().min(bytes);
            let end = *pos as usize + k;
            if k > 0 {
                if f.len() < end {
                    f.resize(end, 0);
                }
                f[*pos as usize..end].copy_from_slice(&b[..k]);
            }
            bytes -= k;
            if bytes == 0 {
                break;
            }
        }
    }
    f
}

pub fn written(log: &[Op]) -> usize {
    log.iter().map(|o| if let Op::Write(_, b) = o { b.len() } else { 0 }).sum()
}

/// Reads point by point at most as many points as `pts` holds: a correct prefix and then an error.
/// Returns the number of points.
fn prefix(l: &Lay, cp: u32, f: &[u8], start: usize, k: Kind, pts: &[u8], bulk: usize, what: &str) -> Result<usize, Fail> {
    let ps = l.size();
    let r = guarded(|| Rd::new(k, Disk::new(f.to_vec(), start as u64), l.vlr(cp)));
    let mut r = match r {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => return Ok(0),
        Err(p) => return fail("panic", format!("{}: {:?} reader: new panics: {}", what, k, p)),
    };
    let n = pts.len() / ps;
    let mut at = 0;
    let mut out = vec![0x5A; ps * n];
    while at < n {
        let m = bulk.min(n - at);
        let o = &mut out[at * ps..(at + m) * ps];
        match guarded(|| if m == 1 { r.one(o) } else { r.many(o) }) {
            Ok(Ok(())) => at += m,
            Ok(Err(_)) => break,
            Err(p) => return fail("panic", format!("{}: {:?} reader panics at point {}: {}", what, k, at, p)),
        }
    }
    if out[..at * ps] != pts[..at * ps] {
        let d = first_diff(&out[..at * ps], &pts[..at * ps]) / ps;
        return fail("wrong-point", format!("{}: {:?} reader (by {}) returns a wrong point {}: {} instead of {}", what, k, bulk, d, hex(&out[d * ps..(d + 1) * ps]), hex(&pts[d * ps..(d + 1) * ps])));
    }
    Ok(at)
}

/// Every reader on an unfinished stream. `sure`: points the sequential reader has to return
fn unfinished(ch: &Ch, l: &Lay, cp: u32, f: &[u8], start: usize, pts: &[u8], sure: usize, light: bool, what: &str) -> Res {
    let n = pts.len() / l.size();
    // most writers leave the same bytes: reading the same thing again gives the same result
    static SEEN: Mutex<Option<HashSet<u128>>> = Mutex::new(None);
    let key = {
        let of = |salt: u8| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (salt, &l.name, cp, f, start, pts, sure).hash(&mut h);
            h.finish() as u128
        };
        of(0) << 64 | of(1)
    };
    if SEEN.lock().unwrap().get_or_insert_with(HashSet::new).contains(&key) {
        ch.step();
        return Ok(());
    }
    let got = prefix(l, cp, f, start, Kind::Seq, pts, 1, what)?;
    ensure!(got >= sure, "lost", "{}: the sequential reader returns {} points, {} are in chunks that are complete", what, got, sure);
    if n > 1 && !light {
        prefix(l, cp, f, start, Kind::Seq, pts, n, what)?;
        if sure > 1 {
            let got = prefix(l, cp, f, start, Kind::Seq, &pts[..sure * l.size()], sure, what)?;
            ensure!(got == sure, "lost", "{}: the sequential reader does not return {} points at once", what, sure);
        }
    }
    for bulk in if light { vec![n.max(1)] } else { vec![1, n.max(1)] } {
        prefix(l, cp, f, start, Kind::Par, pts, bulk, what)?;
    }
    if start == 0 && !light {
        for par in [false, true] {
            let mut out = vec![0x5A; pts.len()];
            let r = guarded(|| if par { laz::laszip::parallel::par_decompress_buffer(f, &mut out, &l.vlr(cp)) } else { laz::laszip::decompress_buffer(f, &mut out, l.vlr(cp)) }.map_err(stable));
            match r {
                Ok(Ok(())) => ensure!(out == pts, "wrong-point", "{}: decompress_buffer (parallel: {}) succeeds with wrong points", what, par),
                Ok(Err(_)) => {}
                Err(p) => return fail("panic", format!("{}: decompress_buffer (parallel: {}) panics: {}", what, par, p)),
            }
        }
    }
    SEEN.lock().unwrap().as_mut().unwrap().insert(key);
    ch.step();
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Ones,
    Many,
    Chunks,
    Buffer,
}

fn do_write(l: &Lay, kind: Kind, how: How, cp: u32, chunks: &[Rng], pts: &[u8], start: usize) -> R<(Vec<Op>, Vec<u8>)> {
    let ps = l.size();
    let mut d = Disk::new(junk(start), start as u64).logged();
    let log = d.log.clone();
    let d = if how == How::Buffer {
        match kind {
            Kind::Seq => laz::laszip::compress_buffer(&mut d, pts, l.vlr(cp)).map_err(stable)?,
            Kind::Par => laz::laszip::parallel::par_compress_buffer(&mut d, pts, &l.vlr(cp)).map_err(stable)?,
        }
        d
    } else {
        let mut w = Wr::new(kind, d, l.vlr(cp))?;
        match how {
            How::Chunks => w.chunks(chunks.iter().map(|r| pts[r.0 * ps..r.1 * ps].to_vec()).collect())?,
            How::Many => w.many(Via::Inherent, pts)?,
            _ => {
                for r in chunks {
                    for i in r.0..r.1 {
                        w.one(Via::Trait, &pts[i * ps..(i + 1) * ps])?;
                    }
                    if cp == VARIABLE {
                        w.finish()?;
                    }
                }
            }
        }
        w.done(Via::Inherent)?;
        w.into_inner()
    };
    let log = log.lock().unwrap().clone();
    Ok((log, d.cur.into_inner()))
}

pub fn c15(th: bool) -> Prop {
    let mut v = vec![];
    let writes = |name: &str, ls: Vec<Lay>, contents: Vec<Content>, shapes: Vec<(usize, usize)>, starts: Vec<usize>, kinds: Vec<Kind>| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let kind = *ch.of(&kinds);
            let variable = ch.flag();
            let how = *ch.of(&[How::Ones, How::Many, How::Chunks, How::Buffer]);
            let valid = match how {
                How::Chunks => variable,
                How::Many => !variable,
                How::Buffer => !variable,
                How::Ones => !(variable && kind == Kind::Par),
            };
            if !valid {
                return Ok(());
            }
            let (n, c) = *ch.of(&shapes);
            let start = *ch.of(&starts);
            let k = *ch.of(&contents);
            // zeros and then 8: this is the table of a stream without chunks
            if k == Content::Tail(8) {
                return Ok(());
            }
            let pts = content(l, k, n);
            let cp = chunk_param(variable, c);
            let mut chunks = fixed(n, c);
            chunks.retain(|r| r.0 < r.1);
            let (log, f) = do_write(l, kind, how, cp, &chunks, &pts, start).must("write", || l.name.clone())?;
            let base = junk(start);
            let total = written(&log);
            ensure!(cut(&base, &log, total) == f, "log", "the log of the device is not what was written");
            let table = table_of(l, cp, &f, start as u64).must("table", || l.name.clone())?;
            ensure!(table.len() == chunks.len(), "table", "{}: {} chunks instead of {}", l.name, table.len(), chunks.len());
            let what = format!("{} {:?} {:?} variable {} {} points {:?} in chunks of {} start {}", l.name, kind, how, variable, n, k, c, start);
            for at in 0..=total {
                let g = cut(&base, &log, at);
                let mut end = start as u64 + 8;
                let mut sure = 0;
                for (r, t) in chunks.iter().zip(&table) {
                    end += t.1;
                    if end <= g.len() as u64 && (!variable || l.layered()) {
                        sure = r.1;
                    }
                }
                ch.note(|| format!("{}, {} of {} bytes written", what, at, total));
                unfinished(ch, l, cp, &g, start, &pts, sure, matches!(k, Content::Tail(_) | Content::TailIn(_)), &format!("{}, {} of {} bytes written", what, at, total))?;
            }
            ch.outcome(&f);
            Ok(())
        })
    };
    let basic = vec![Content::Varied, Content::Constant, Content::Zeros, Content::Ones];
    let shapes = vec![(3usize, 2usize), (4, 2), (1, 1), (2, 1), (0, 1), (3, 50)];
    v.push(writes("every writer, cut at every byte", if th { all_formats(&[0, 3]) } else { vec![lay(0, 2, 0), lay(1, 1, 2), lay(6, 3, 0), lay(8, 4, 1)] }, basic.clone(), shapes.clone(), if th { vec![0, 5] } else { vec![0] }, both()));
    v.push(writes("every format, cut at every byte", all_formats(if th { &[0, 1, 8] } else { &[0] }), if th { basic.clone() } else { vec![Content::Varied] }, vec![(3, 2)], if th { vec![0, 5] } else { vec![0] }, if th { both() } else { vec![Kind::Seq] }));
    let mut tails: Vec<Content> = vec![];
    for x in 0..if th { 400 } else { 110 } {
        tails.push(Content::Tail(x));
        tails.push(Content::TailIn(x));
        if th {
            for sh in [8, 32, 40] {
                tails.push(Content::Tail(x << sh));
            }
        }
    }
    v.push(writes("records that end with a number that may be taken for an offset", if th { vec![lay(0, 2, 8), lay(0, 1, 40), lay(6, 3, 8)] } else { vec![lay(0, 2, 8)] }, tails, if th { vec![(1, 1), (2, 1), (2, 2)] } else { vec![(2, 1)] }, vec![0], vec![Kind::Seq]));
    // appending
    let appends = |name: &str, ls: Vec<Lay>, contents: Vec<Content>| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let kind = *ch.of(&both());
            let variable = ch.flag();
            let (n, m, c) = *ch.of(&[(3usize, 2usize, 2usize), (4, 1, 2), (2, 3, 1), (0, 2, 1), (3, 0, 2), (1, 2, 3)]);
            let keep = *ch.of(&[0usize, 1, 2]).min(&n);
            // the appender may be told of fewer points
            let keep = n - keep;
            let start = *ch.of(if th { &[5usize, 0][..] } else { &[5] });
            let k = *ch.of(&contents);
            let cp = chunk_param(variable, c);
            let all = content(l, k, n + m);
            let ps = l.size();
            let old = &all[..n * ps];
            let how = if variable { How::Chunks } else { How::Many };
            let mut chunks = fixed(n, c);
            chunks.retain(|r| r.0 < r.1);
            let (_, base) = do_write(l, Kind::Seq, how, cp, &chunks, old, start).must("write", || l.name.clone())?;
            let d = Disk::new(base.clone(), start as u64).logged();
            let log = d.log.clone();
            let mut w = Wr::append(kind, d, l.vlr(cp), keep as u64).must("append-new", || l.name.clone())?;
            let add = &all[keep * ps..(keep + m) * ps];
            if variable {
                w.chunks(vec![add.to_vec()]).must("append", || l.name.clone())?;
            } else {
                w.many(Via::Inherent, add).must("append", || l.name.clone())?;
            }
            w.done(Via::Inherent).must("append", || l.name.clone())?;
            let f = w.into_inner().cur.into_inner();
            let log = log.lock().unwrap().clone();
            let total = written(&log);
            ensure!(cut(&base, &log, total) == f, "log", "the log of the device is not what was written");
            let what = format!("{} {:?} variable {} chunks of {} {:?} start {}: {} points, {} kept, {} appended", l.name, kind, variable, c, k, start, n, keep, m);
            // the chunks before the one with the last point that is kept
            let sure = if variable && !l.layered() {
                0
            } else {
                chunks.iter().filter(|r| r.1 < keep).last().map(|r| r.1).unwrap_or(0)
            };
            for at in 0..=total {
                let g = cut(&base, &log, at);
                let what = format!("{}, {} of {} bytes written", what, at, total);
                ch.note(|| what.clone());
                // never a panic; the chunks before are there
                let got = prefix(l, cp, &g, start, Kind::Seq, &all[..sure * ps], 1, &what)?;
                ensure!(got == sure, "lost-append", "{}: the sequential reader returns {} points, {} are in the chunks before", what, got, sure);
                quiet(l, cp, &g, start, n + m, &what)?;
                ch.step();
            }
            ch.outcome(&f);
            Ok(())
        })
    };
    v.push(appends("appenders, cut at every byte", if th { all_formats(&[0, 2]) } else { vec![lay(0, 2, 0), lay(3, 1, 2), lay(6, 3, 0)] }, if th { basic.clone() } else { vec![Content::Varied, Content::Zeros] }));
    Prop::new(v, &["writes reach the device in order and are cut at a byte", "the contents of the points do not happen to contain a complete chunk table describing other chunks"])
}

/// No reader panics (whatever it returns)
fn quiet(l: &Lay, cp: u32, f: &[u8], start: usize, n: usize, what: &str) -> Res {
    for k in both() {
        let r = guarded(|| -> R<()> {
            let mut r = Rd::new(k, Disk::new(f.to_vec(), start as u64), l.vlr(cp))?;
            let mut out = vec![0; l.size()];
            for _ in 0..n {
                r.one(&mut out)?;
            }
            Ok(())
        });
        if let Err(p) = r {
            return fail("panic", format!("{}: {:?} reader panics: {}", what, k, p));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// All the points front to back, by one and in bulk
fn front_to_back(ch: &Ch, l: &Lay, cp: u32, d: impl Fn() -> Disk, pts: &[u8], what: &str) -> Res {
    let ps = l.size();
    let n = pts.len() / ps;
    for bulk in [1, n.max(2)] {
        let mut r = Rd::new(Kind::Seq, d(), l.vlr(cp)).must("reader-new", || what.to_string())?;
        let mut out = vec![0x5A; pts.len()];
        for o in out.chunks_mut(bulk * ps) {
            if o.len() == ps { r.one(o) } else { r.many(o) }.must("read", || what.to_string())?;
        }
        same_points(l, &out, pts, 0).map_err(|f| Fail { key: f.key, msg: format!("{}: {}", what, f.msg) })?;
        ch.step();
    }
    Ok(())
}

pub fn c16(th: bool) -> Prop {
    let mut v = vec![];
    let fields = |start: usize, len: usize| {
        let s = start as i64;
        let l = len as i64;
        vec![-1, 0, s, s + 7, -2, i64::MIN, l, l + 1, l + 5000, i64::MAX, i64::MAX - 8]
    };
    let tableless = |name: &str, ls: Vec<Lay>, contents: Vec<Content>, shapes: Vec<(usize, usize)>, starts: Vec<usize>| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let variable = l.layered() && ch.flag();
            let (n, c) = *ch.of(&shapes);
            let start = *ch.of(&starts);
            let k = *ch.of(&contents);
            let pts = content(l, k, n);
            let cp = chunk_param(variable, c);
            let mut chunks = fixed(n, c);
            chunks.retain(|r| r.0 < r.1);
            let (_, f) = do_write(l, Kind::Seq, if variable { How::Chunks } else { How::Many }, cp, &chunks, &pts, start).must("write", || l.name.clone())?;
            let table = table_of(l, cp, &f, start as u64).must("table", || l.name.clone())?;
            let end = start + 8 + table.iter().map(|t| t.1 as usize).sum::<usize>();
            for o in fields(start, end) {
                let mut g = f[..end].to_vec();
                g[start..start + 8].copy_from_slice(&o.to_le_bytes());
                let what = format!("{} variable {} {} points {:?} in chunks of {} start {}, no chunk table, offset field {}", l.name, variable, n, k, c, start, o);
                ch.note(|| what.clone());
                front_to_back(ch, l, cp, || Disk::new(g.clone(), start as u64), &pts, &what)?;
                // the parallel reader needs it: an error, or the right points
                prefix(l, cp, &g, start, Kind::Par, &pts, n.max(1), &what)?;
            }
            ch.outcome(&f);
            Ok(())
        })
    };
    let basic = vec![Content::Varied, Content::Constant, Content::Zeros, Content::Ones];
    v.push(tableless("no table: every format", all_formats(if th { &[0, 1, 3, 8] } else { &[0] }), basic, vec![(3, 2), (4, 2), (1, 1), (2, 1), (0, 1), (3, 50), (5, 3)], if th { vec![0, 5] } else { vec![5] }));
    let mut tails: Vec<Content> = vec![];
    for x in 0..if th { 600 } else { 120 } {
        tails.push(Content::Tail(x));
        tails.push(Content::TailIn(x));
        for sh in [8, 32, 40] {
            tails.push(Content::Tail(x << sh));
        }
    }
    v.push(tableless("no table: records that end with a number that may be taken for an offset", if th { vec![lay(0, 2, 8), lay(0, 1, 40), lay(6, 3, 8)] } else { vec![lay(0, 2, 8), lay(6, 3, 8)] }, tails, if th { vec![(1, 1), (2, 1), (2, 2)] } else { vec![(2, 1)] }, vec![0]));
    // part of a table
    let ls = Arc::new(if th { all_formats(&[0, 2]) } else { vec![lay(0, 2, 0), lay(3, 1, 2), lay(6, 3, 0), lay(8, 4, 1)] });
    let l2 = ls.clone();
    v.push(Scenario::new("part of a table, or something else in its place", move |ch| {
        let l = ch.of(&l2[..]);
        let variable = l.layered() && ch.flag();
        let (n, c) = *ch.of(&[(3usize, 2usize), (5, 1), (0, 1), (2, 2)]);
        let start = *ch.of(&[0usize, 5]);
        let s = if variable { Stream::variable(l.clone(), &fixed(n, c).iter().map(|r| r.1 - r.0).collect::<Vec<_>>(), start) } else { Stream::fixed(l.clone(), n, c, start) };
        let f = s.file();
        let t = i64::from_le_bytes(f[start..start + 8].try_into().unwrap()) as usize;
        let pts = l.range(0, n);
        for keep in t..f.len() {
            for fill in [None, Some(0u8), Some(0xFF)] {
                let mut g = f[..keep].to_vec();
                if let Some(b) = fill {
                    g.extend(vec![b; f.len() - keep]);
                    if keep >= t + 8 {
                        continue;
                    }
                }
                let what = format!("{} with {} of {} bytes of its table{}", s.name(), keep - t, f.len() - t, match fill { None => "", Some(0) => " and then zeros", _ => " and then ones" });
                ch.note(|| what.clone());
                front_to_back(ch, l, s.cp(), || Disk::new(g.clone(), start as u64), &pts, &what)?;
            }
        }
        Ok(())
    }));
    // sources that cannot be positioned
    let l2 = ls.clone();
    v.push(Scenario::new("sources on which the table cannot be reached", move |ch| {
        let l = ch.of(&l2[..]);
        let variable = l.layered() && ch.flag();
        let (n, c) = *ch.of(&[(3usize, 2usize), (5, 1), (0, 1), (2, 2), (4, 50)]);
        let start = *ch.of(&[0usize, 5]);
        let s = if variable { Stream::variable(l.clone(), &fixed(n, c).iter().map(|r| r.1 - r.0).collect::<Vec<_>>(), start) } else { Stream::fixed(l.clone(), n, c, start) };
        let broken = 1 + ch.choose(15);
        let field = ch.choose(3);
        let short = ch.flag();
        if broken & 2 != 0 && broken & 4 == 0 && field != 0 {
            // moved to its end by looking for the offset, the source cannot come back
            return Ok(());
        }
        let mut f = s.file();
        match field {
            0 => {}
            1 => f = moved(f, start),
            _ => {
                let t = i64::from_le_bytes(f[start..start + 8].try_into().unwrap()) as usize;
                f.truncate(t);
                f[start..start + 8].fill(0xFF);
            }
        }
        let what = format!("{}, {}, of tell, seek-start, seek-end, seek-current only {:04b} fail", s.name(), ["offset field", "offset at the end", "no table"][field], broken);
        ch.note(|| what.clone());
        let hook: Hook = Arc::new(move |op, _| {
            let bit = match op {
                "tell" => 1,
                "seek-start" => 2,
                "seek-end" => 4,
                "seek-current" => 8,
                _ => 0,
            };
            if broken & bit != 0 {
                Verdict::Error
            } else if short {
                Verdict::Short(1)
            } else {
                Verdict::Normal
            }
        });
        front_to_back(ch, l, s.cp(), || Disk::new(f.clone(), start as u64).hooked(hook.clone()), &l.range(0, n), &what)
    }));
    // the offset at the very end
    let l2 = Arc::new(all_formats(if th { &[0, 2] } else { &[0] }));
    v.push(Scenario::new("offset stored at the very end", move |ch| {
        let l = ch.of(&l2[..]);
        let variable = ch.flag();
        let (n, c) = *ch.of(&[(5usize, 2usize), (4, 2), (0, 1), (1, 1)]);
        let start = *ch.of(&[0usize, 5]);
        let s = if variable { Stream::variable(l.clone(), &fixed(n, c).iter().map(|r| r.1 - r.0).collect::<Vec<_>>(), start) } else { Stream::fixed(l.clone(), n, c, start) };
        let f = moved(s.file(), start);
        let pts = l.range(0, n);
        let ps = l.size();
        let what = format!("{}, offset at the very end", s.name());
        ch.note(|| what.clone());
        for k in both() {
            for bulk in [1, n.max(1)] {
                let got = prefix(l, s.cp(), &f, start, k, &pts, bulk, &what)?;
                ensure!(got == n, "lost", "{}: {:?} reader returns {} points", what, k, got);
            }
            for to in 0..n {
                for from in 0..n {
                    let mut r = Rd::new(k, Disk::new(f.clone(), start as u64), l.vlr(s.cp())).must("reader-new", || what.clone())?;
                    let mut out = vec![0; from * ps];
                    r.many(&mut out).must("read", || what.clone())?;
                    r.seek(to as u64).must("seek", || what.clone())?;
                    let mut out = vec![0; (n - to) * ps];
                    r.many(&mut out).must("read", || what.clone())?;
                    same_points(l, &out, &pts[to * ps..], to)?;
                    ch.step();
                }
            }
        }
        if start == 0 {
            let mut out = vec![0; pts.len()];
            laz::laszip::decompress_buffer(&f, &mut out, l.vlr(s.cp())).map_err(stable).must("one-shot", || what.clone())?;
            same_points(l, &out, &pts, 0)?;
            let mut out = vec![0; pts.len()];
            laz::laszip::parallel::par_decompress_buffer(&f, &mut out, &l.vlr(s.cp())).map_err(stable).must("one-shot", || what.clone())?;
            same_points(l, &out, &pts, 0)?;
        }
        // and more can be appended to it
        for k in both() {
            let mut w = Wr::append(k, Disk::new(f.clone(), start as u64), l.vlr(s.cp()), n as u64).must("append-new", || what.clone())?;
            let add = l.range(n, n + 3);
            if variable {
                w.chunks(vec![add]).must("append", || what.clone())?;
            } else {
                w.many(Via::Inherent, &add).must("append", || what.clone())?;
            }
            w.done(Via::Inherent).must("append", || what.clone())?;
            let g = w.into_inner().cur.into_inner();
            for rk in both() {
                must_read(ch, l, s.cp(), &g, start as u64, rk, &l.range(0, n + 3))?;
                ch.validated();
            }
        }
        Ok(())
    }));
    // the oldest compressor: one chunk, neither offset nor table
    let l2 = Arc::new(if th { all_formats(&[0, 2]) } else { all_formats(&[0]) }.into_iter().filter(|l| !l.layered()).collect::<Vec<_>>());
    v.push(Scenario::new("one chunk without offset and table", move |ch| {
        let l = ch.of(&l2[..]);
        let n = 1 + ch.choose(5);
        let start = *ch.of(&[0usize, 5]);
        let cs = *ch.of(&[50_000u32, 2, 0, u32::MAX]);
        let what = format!("{} {} points without chunks, chunk size {} start {}", l.name, n, cs, start);
        ch.note(|| what.clone());
        let mut f = junk(start);
        f.extend(&*enc(l, (0, n)));
        let pts = l.range(0, n);
        let vlr = || laz::LazVlr::from_buffer(record_data(1, cs, &l.item_codes())).expect("parameter record");
        for broken in [false, true] {
            let hook: Hook = Arc::new(move |op, _| if broken && (op == "tell" || op.starts_with("seek")) { Verdict::Error } else { Verdict::Normal });
            let mut r = Rd::new(Kind::Seq, Disk::new(f.clone(), start as u64).hooked(hook), vlr()).must("reader-new", || what.clone())?;
            let mut out = vec![0; pts.len()];
            r.many(&mut out).must("read", || what.clone())?;
            same_points(l, &out, &pts, 0)?;
            ensure!(r.seek(0).is_err(), "seek", "{}: seeking succeeds", what);
            ch.step();
            ch.validated();
        }
        ensure!(Rd::new(Kind::Par, Disk::new(f.clone(), start as u64), vlr()).is_err(), "par", "{}: the parallel reader accepts it", what);
        Ok(())
    }));
    Prop::new(v, &["the contents of the points do not happen to contain a complete chunk table describing other chunks"])
}
