//! Sizes about powers of two that counters might be cut to: more than 2^16 points in a chunk,
//! more than 2^8 chunks.
use super::stream::*;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::sync::{Arc, Mutex, OnceLock};

/// The first points of a layout (memoised)
fn pts(l: &Lay, r: Rng) -> Vec<u8> {
    static M: OnceLock<Mutex<Vec<(String, Arc<Vec<u8>>)>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap();
    let ps = l.size();
    if let Some((_, b)) = m.iter().find(|x| x.0 == l.name && x.1.len() >= r.1 * ps) {
        return b[r.0 * ps..r.1 * ps].to_vec();
    }
    let b = Arc::new(l.range(0, r.1.next_power_of_two()));
    m.retain(|x| x.0 != l.name);
    m.push((l.name.clone(), b.clone()));
    b[r.0 * ps..r.1 * ps].to_vec()
}

fn layouts() -> Vec<Lay> {
    vec![lay(0, 2, 0), lay(6, 3, 0)]
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Write(Kind),
    WriteVariable,
    Read(Kind),
    Seek,
    Append,
}

/// The chunkings, in numbers of points and parameter
fn shapes(variable: bool, th: bool) -> Vec<(Vec<usize>, usize)> {
    let mut v = vec![];
    if variable {
        v.extend([vec![65_537], vec![65_535, 65_536], vec![3, 65_537, 2]].map(|s| (s, 0)));
        v.push(((0..300).map(|k| 1 + k % 3).collect(), 0));
    } else {
        for c in [65_535usize, 65_536, 65_537] {
            for n in [c - 1, c + 1].into_iter().chain(if th { vec![c, 2 * c, 2 * c + 1] } else { vec![] }) {
                v.push((fixed(n, c).iter().map(|r| r.1 - r.0).collect(), c));
            }
        }
        v.push((vec![2; 300], 2));
        v.push((vec![1; 257], 1));
    }
    v
}

pub fn scenario(what: What, th: bool) -> Scenario {
    let ls = Arc::new(layouts());
    let mut ss: Vec<(Vec<usize>, usize)> = vec![];
    if what != What::WriteVariable {
        ss.extend(shapes(false, th));
    }
    if !matches!(what, What::Write(_)) {
        ss.extend(shapes(true, th));
    }
    let ss = Arc::new(ss);
    Scenario::new("more than 65535 points in a chunk, more than 255 chunks", move |ch| {
        let l = ch.of(&ls[..]);
        let (sizes, c) = ch.of(&ss[..]);
        let variable = *c == 0;
        let cp = chunk_param(variable, *c);
        let chunks = parts(sizes);
        let n = chunks.last().unwrap().1;
        let short = if sizes.len() > 3 { format!("{} chunks", sizes.len()) } else { format!("chunks {:?}", sizes) };
        let name = format!("{} {} variable {}", l.name, short, variable);
        ch.note(|| name.clone());
        let all = pts(l, (0, n));
        let ps = l.size();
        let f = file(l, &chunks, variable, 0);
        let nm = || name.clone();
        let same = |d: &Disk| -> Res {
            let g = d.cur.get_ref();
            ensure!(*g == f, "stream-bytes", "{}: {}", name, diff(g, &f));
            Ok(())
        };
        match what {
            What::Write(kind) => {
                let mut w = Wr::new(kind, Disk::new(vec![], 0), l.vlr(cp)).must("writer-new", nm)?;
                let (a, b) = all.split_at(*ch.of(&[0, 1, n - 1]) * ps);
                w.many(Via::Inherent, a).must("compress", nm)?;
                w.many(Via::Inherent, b).must("compress", nm)?;
                w.done(Via::Inherent).must("done", nm)?;
                ch.steps(3);
                same(&w.into_inner())?;
            }
            What::WriteVariable => {
                let kind = *ch.of(&[Kind::Seq, Kind::Par]);
                let data: Vec<Vec<u8>> = chunks.iter().map(|r| all[r.0 * ps..r.1 * ps].to_vec()).collect();
                let mut w = Wr::new(kind, Disk::new(vec![], 0), l.vlr(cp)).must("writer-new", nm)?;
                if kind == Kind::Seq && ch.flag() {
                    for d in data {
                        w.many(Via::Inherent, &d).must("compress", nm)?;
                        w.finish().must("finish", nm)?;
                    }
                } else {
                    w.chunks(data).must("compress", nm)?;
                }
                w.done(Via::Inherent).must("done", nm)?;
                ch.steps(3);
                same(&w.into_inner())?;
                let kind = *ch.of(&[Kind::Seq, Kind::Par]);
                must_read(ch, l, cp, &f, 0, kind, &all)?;
            }
            What::Read(kind) => {
                let at = *ch.of(&[0, 1, n - 1]);
                let mut r = Rd::new(kind, Disk::new(f.clone(), 0), l.vlr(cp)).must("reader-new", nm)?;
                let mut o = vec![0x5A; n * ps];
                let (a, b) = o.split_at_mut(at * ps);
                r.many(a).must("read", nm)?;
                r.many(b).must("read", nm)?;
                ch.steps(3);
                same_points(l, &o, &all, 0)?;
            }
            What::Seek => {
                let kind = *ch.of(&[Kind::Seq, Kind::Par]);
                let mut ts = vec![0usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, n - 1];
                ts.extend(chunks.iter().take(3).flat_map(|r| [r.0, r.1 - 1]));
                ts.retain(|t| *t < n);
                let mut r = Rd::new(kind, Disk::new(f.clone(), 0), l.vlr(cp)).must("reader-new", nm)?;
                for _ in 0..2 {
                    let t = *ch.of(&ts);
                    r.seek(t as u64).must("seek", nm)?;
                    let m = (n - t).min(4);
                    let mut o = vec![0x5A; m * ps];
                    r.many(&mut o).must("read", nm)?;
                    ch.steps(2);
                    same_points(l, &o, &all[t * ps..(t + m) * ps], t)?;
                }
            }
            What::Append => {
                // the last points, or all of the last chunk, come from an appender
                let kind = *ch.of(&[Kind::Seq, Kind::Par]);
                let k = *ch.of(&[n - 1, chunks.last().unwrap().0]);
                let mut first: Vec<Rng> = chunks.clone();
                first.retain(|r| r.0 < k);
                if let Some(r) = first.last_mut() {
                    r.1 = r.1.min(k);
                }
                let d = Disk::new(file(l, &first, variable, 0), 0);
                let mut w = Wr::append(kind, d, l.vlr(cp), k as u64).must("append-new", nm)?;
                let rest = all[k * ps..].to_vec();
                if variable {
                    w.chunks(vec![rest]).must("compress", nm)?;
                } else {
                    w.many(Via::Inherent, &rest).must("compress", nm)?;
                }
                w.done(Via::Inherent).must("done", nm)?;
                ch.steps(3);
                let d = w.into_inner();
                if !variable {
                    same(&d)?;
                }
                must_read(ch, l, cp, d.cur.get_ref(), 0, kind, &all)?;
                let t = table_of(l, cp, d.cur.get_ref(), 0).must("table", nm)?;
                let total: u64 = t.iter().map(|e| e.0).sum();
                ensure!(!variable || total == n as u64, "table-counts", "{}: the table announces {} points", name, total);
            }
        }
        ch.validated();
        Ok(())
    })
}

/// Streams of many chunks of different sizes: the contexts of the chunk table
pub fn many_chunks(th: bool) -> Scenario {
    let ls = Arc::new(if th { all_formats(&[0, 1]) } else { vec![lay(0, 2, 0), lay(3, 1, 1), lay(6, 3, 0), lay(9, 4, 2)] });
    Scenario::new("streams of up to 40 chunks of different sizes", move |ch| {
        let l = ch.of(&ls[..]);
        let m = ch.choose(41);
        let pat = ch.choose(4);
        let variable = pat > 0;
        let sizes: Vec<usize> = (0..m)
            .map(|k| match pat {
                0 => 3,
                1 => 1 + k % 2,
                2 => 1 + k * k * 7 % 11,
                _ => [1, 120, 2, 40][k % 4],
            })
            .collect();
        let chunks = parts(&sizes);
        let n = chunks.last().map(|r| r.1).unwrap_or(0);
        let cp = chunk_param(variable, 3);
        ch.note(|| format!("{} chunks of {:?} points", l.name, sizes));
        let nm = || l.name.clone();
        let mut w = Wr::new(Kind::Seq, Disk::new(vec![], 0), l.vlr(cp)).must("writer-new", nm)?;
        if variable {
            w.chunks(chunks.iter().map(|r| pts(l, *r)).collect()).must("compress", nm)?;
        } else {
            w.many(Via::Inherent, &pts(l, (0, n))).must("compress", nm)?;
        }
        w.done(Via::Inherent).must("done", nm)?;
        let d = w.into_inner();
        let want = file(l, &chunks, variable, 0);
        ensure!(*d.cur.get_ref() == want, "stream-bytes", "{} chunks of {:?} points: {}", l.name, sizes, diff(d.cur.get_ref(), &want));
        must_read(ch, l, cp, &want, 0, Kind::Seq, &pts(l, (0, n)))?;
        ch.steps(m as u64);
        ch.outcome(&want);
        ch.validated();
        Ok(())
    })
}
