//! C10: appending.
use super::readers::Stream;
use super::stream::*;
use super::writers::{apply, finished, VModel, VOp};
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::sync::Arc;

pub fn both() -> Vec<Kind> {
    vec![Kind::Seq, Kind::Par]
}

pub fn c10(th: bool) -> Prop {
    let mut v = vec![];
    // fixed-size chunks: the file is the one written in one go
    let fix = |name: &str, ls: Vec<Lay>, n0max: usize, mmax: usize, cs: Vec<usize>, sessions: usize, starts: Vec<usize>, budget: i64| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let c = *ch.of(&cs);
            let start = *ch.of(&starts);
            let mut n = ch.choose(n0max + 1);
            let mut f = file(l, &fixed(n, c), false, start);
            let ns = 1 + ch.choose(sessions);
            for i in 0..ns {
                let kind = *ch.of(&both());
                let m = ch.choose(mmax + 1);
                ch.note(|| format!("{} chunk size {} start {}: session {} {:?} appends {} points to {}", l.name, c, start, i, kind, m, n));
                let mut w = Wr::append(kind, Disk::new(f, start as u64), l.vlr(c as u32), n as u64).must("append-new", || format!("{} {:?} appender on {} points in chunks of {}", l.name, kind, n, c))?;
                feed_from(ch, l, &mut w, n, n + m, budget > 0)?;
                w.done(Via::Inherent).must("done", || l.name.clone())?;
                n += m;
                let d = w.into_inner();
                f = d.cur.get_ref().clone();
                finished(ch, l, d, &file(l, &fixed(n, c), false, start), start, "append")?;
            }
            Ok(())
        })
        .with_budget(budget)
    };
    v.push(fix("fixed-size chunks: one session, every division", pair(), if th { 5 } else { 4 }, if th { 5 } else { 4 }, vec![1, 2, 3, 50_000], 1, if th { vec![0, 11] } else { vec![11] }, if th { 1 } else { 0 }));
    v.push(fix("fixed-size chunks: several sessions", vec![lay(0, 2, 0), lay(6, 3, 1)], if th { 4 } else { 3 }, 2, vec![1, 2, 3], if th { 3 } else { 2 }, vec![0], 0));
    v.push(fix("fixed-size chunks: huge chunks", pair(), 2, 2, super::writers::HUGE.to_vec(), 1, vec![0], 0));
    v.push(fix("fixed-size chunks: every layout", all_formats(if th { &[0, 1, 3] } else { &[0, 2] }), 3, 2, vec![2], 1, vec![0], 0));
    // the number of points given is not the number of points of the stream
    let ls = Arc::new(if th { all_formats(&[0, 1]) } else { vec![lay(0, 2, 0), lay(3, 1, 1), lay(6, 3, 0), lay(8, 4, 1)] });
    v.push(Scenario::new("a lower number of points: the others are replaced", move |ch| {
        let l = ch.of(&ls[..]);
        let c = *ch.of(&[1usize, 2, 3]);
        let n0 = 1 + ch.choose(5);
        let k = ch.choose(n0);
        let m = ch.choose(3);
        let kind = *ch.of(&both());
        let variable = ch.flag();
        let start = *ch.of(&[0usize, 9]);
        ch.note(|| format!("{} {} points in chunks of {} variable {}: {:?} appender keeps {} and adds {}", l.name, n0, c, variable, kind, k, m));
        // the new points are not those that were there
        let add = l.range(n0 + 1, n0 + 1 + m);
        let cp = chunk_param(variable, c);
        let mut w = Wr::append(kind, Disk::new(file(l, &fixed(n0, c), variable, start), start as u64), l.vlr(cp), k as u64).must("append-new", || l.name.clone())?;
        if variable && kind == Kind::Par {
            w.chunks(vec![add.clone()]).must("compress", || l.name.clone())?;
        } else {
            w.many(Via::Inherent, &add).must("compress", || l.name.clone())?;
        }
        w.done(Via::Inherent).must("done", || l.name.clone())?;
        ch.step();
        let d = w.into_inner();
        let mut want = l.range(0, k);
        want.extend(&add);
        for rk in both() {
            must_read(ch, l, cp, d.cur.get_ref(), start as u64, rk, &want)?;
            ch.validated();
        }
        ensure!(d.cur.get_ref()[..start] == junk(start)[..], "before-start", "{}: bytes before the stream changed", l.name);
        // and nothing is left of the others
        let t = table_of(l, cp, d.cur.get_ref(), start as u64).must("table", || l.name.clone())?;
        let total: u64 = t.iter().map(|e| e.0).sum();
        if variable {
            ensure!(total == (k + m) as u64, "table-counts", "{}: the table announces {} points instead of {}", l.name, total, k + m);
        } else {
            ensure!(t.len() == (k + m + c - 1) / c, "table-counts", "{}: the table has {} chunks of {} points for {} points", l.name, t.len(), c, k + m);
        }
        ch.outcome(d.cur.get_ref());
        Ok(())
    }));
    let ls = Arc::new(vec![lay(0, 2, 0), lay(3, 1, 1), lay(6, 3, 0), lay(8, 4, 1)]);
    v.push(Scenario::new("a higher number of points: the stream decides", move |ch| {
        let l = ch.of(&ls[..]);
        let c = *ch.of(&[1usize, 2, 3]);
        let n0 = ch.choose(5);
        let variable = ch.flag();
        let cp = chunk_param(variable, c);
        let s = if variable { Stream::variable(l.clone(), &fixed(n0, c).iter().map(|r| r.1 - r.0).collect::<Vec<_>>(), 0) } else { Stream::fixed(l.clone(), n0, c, 0) };
        if !s.determined() {
            return Ok(());
        }
        let k = *ch.of(&[n0 as u64 + 1, n0 as u64 + 2, n0 as u64 + 3, n0 as u64 + 1000, u32::MAX as u64, 1 << 32, (1 << 32) + 1, (1 << 32) + n0 as u64, u64::MAX - 1, u64::MAX]);
        let m = ch.choose(4);
        let kind = *ch.of(&both());
        ch.note(|| format!("{}: {:?} appender told there are {} points, adds {}", s.name(), kind, k, m));
        let mut w = Wr::append(kind, Disk::new(s.file(), 0), l.vlr(cp), k).must("append-new", || l.name.clone())?;
        let add = l.range(n0, n0 + m);
        if variable && kind == Kind::Par {
            w.chunks(vec![add]).must("compress", || l.name.clone())?;
        } else {
            w.many(Via::Inherent, &add).must("compress", || l.name.clone())?;
        }
        w.done(Via::Inherent).must("done", || l.name.clone())?;
        ch.step();
        let d = w.into_inner();
        for rk in both() {
            must_read(ch, l, cp, d.cur.get_ref(), 0, rk, &l.range(0, n0 + m))?;
            ch.validated();
        }
        if !variable {
            finished(ch, l, d, &file(l, &fixed(n0 + m, c), false, 0), 0, "append, too high count")?;
        }
        Ok(())
    }));
    // variable-size chunks: every history of calls, against the chunk model
    let hist = |name: &str, kind: Kind, ls: Vec<Lay>, firsts: Vec<Vec<usize>>, depth: usize, sessions: usize| {
        let ls = Arc::new(ls);
        let ops = Arc::new(match kind {
            Kind::Seq => vec![VOp::One, VOp::End, VOp::Many(2), VOp::Chunks(vec![1]), VOp::Chunks(vec![2, 0, 1]), VOp::Many(0)],
            Kind::Par => vec![VOp::Chunks(vec![1]), VOp::Chunks(vec![2, 1]), VOp::Chunks(vec![]), VOp::Chunks(vec![0, 2])],
        });
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let first = ch.of(&firsts).clone();
            let start = *ch.of(&[0usize, 13]);
            let mut m = VModel { done: parts(&first), from: first.iter().sum(), to: first.iter().sum() };
            let mut f = file(l, &m.done, true, start);
            for _ in 0..1 + ch.choose(sessions) {
                let mut w = Wr::append(kind, Disk::new(f.clone(), start as u64), l.vlr(VARIABLE), m.to as u64).must("append-new", || format!("{} {:?} appender on chunks {:?}", l.name, kind, m.done))?;
                ch.note(|| format!("{} {:?} appender on chunks {:?}", l.name, kind, m.done));
                let before = m.done.len();
                for _ in 0..ch.choose(depth + 1) {
                    let op = ch.of(&ops[..]);
                    ch.note(|| format!("{:?}", op));
                    apply(&mut w, &mut m, l, op)?;
                    ch.step();
                }
                w.done(Via::Inherent).must("done", || l.name.clone())?;
                m.end();
                let d = w.into_inner();
                f = d.cur.get_ref().clone();
                // the points, and a table that agrees with them
                let want = l.range(0, m.to);
                must_read(ch, l, VARIABLE, &f, start as u64, Kind::Seq, &want)?;
                must_read(ch, l, VARIABLE, &f, start as u64, Kind::Par, &want)?;
                ch.validated();
                let t = table_of(l, VARIABLE, &f, start as u64).must("table", || "chunk table".into())?;
                let total: u64 = t.iter().map(|e| e.0).sum();
                ensure!(total == m.to as u64, "table-counts", "chunk table {:?} for {} points", t, m.to);
                // whether the first points appended join the last chunk is up to the appender: take
                // the partition it chose, everything else follows from it
                let mut k = 0;
                let parts: Vec<Rng> = t
                    .iter()
                    .map(|e| {
                        k += e.0 as usize;
                        (k - e.0 as usize, k)
                    })
                    .collect();
                // chunk ends asked for are chunk ends
                for (i, r) in m.done.iter().enumerate() {
                    ensure!(i + 1 == before || r.1 == m.to || parts.iter().any(|p| p.1 == r.1), "chunk-ends", "{} {:?}: chunk end after point {} lost: chunks {:?} instead of {:?}", l.name, kind, r.1, parts, m.done);
                }
                finished(ch, l, d, &file(l, &parts, true, start), start, "append, variable-size chunks")?;
                m.done = parts;
                m.from = m.to;
            }
            Ok(())
        })
    };
    let firsts = vec![vec![], vec![1], vec![3], vec![2, 1], vec![1, 2], vec![1, 1, 1]];
    v.push(hist("variable-size chunks: sequential appender", Kind::Seq, vec![lay(0, 2, 0), lay(6, 3, 0)], firsts.clone(), if th { 4 } else { 2 }, 1));
    v.push(hist("variable-size chunks: parallel appender", Kind::Par, vec![lay(0, 2, 0), lay(6, 3, 0)], firsts.clone(), if th { 4 } else { 2 }, 1));
    v.push(hist("variable-size chunks: sequential appender, several sessions", Kind::Seq, vec![lay(1, 2, 0)], vec![vec![], vec![2, 1]], if th { 2 } else { 1 }, 2));
    v.push(hist("variable-size chunks: parallel appender, several sessions", Kind::Par, vec![lay(1, 2, 0)], vec![vec![], vec![2, 1]], if th { 2 } else { 1 }, 2));
    v.push(hist("variable-size chunks: every layout", Kind::Seq, all_formats(if th { &[0, 1, 3] } else { &[1] }), vec![vec![2, 1]], 1, 1));
    v.push(super::big::scenario(super::big::What::Append, th));
    // schedules
    let ls = Arc::new(vec![lay(0, 1, 0)]);
    v.push(
        Scenario::new("parallel appender: schedules", move |ch| {
            let l = ch.of(&ls[..]);
            let wk = *ch.of(&[1usize, 2, 3]);
            let n0 = *ch.of(&[1usize, 2, 3]);
            let m = *ch.of(&[3usize, 6]);
            let c = 2;
            let variable = ch.flag();
            let cp = chunk_param(variable, c);
            let d = pool(ch, wk, false, || -> Result<Disk, Fail> {
                let mut w = Wr::append(Kind::Par, Disk::new(file(l, &fixed(n0, c), variable, 0), 0), l.vlr(cp), n0 as u64).must("append-new", || l.name.clone())?;
                if variable {
                    w.chunks((0..m).map(|k| l.point(n0 + k)).collect()).must("compress", || l.name.clone())?;
                } else {
                    w.many(Via::Inherent, &l.range(n0, n0 + m)).must("compress", || l.name.clone())?;
                }
                w.done(Via::Inherent).must("done", || l.name.clone())?;
                Ok(w.into_inner())
            })??;
            must_read(ch, l, cp, d.cur.get_ref(), 0, Kind::Seq, &l.range(0, n0 + m))?;
            if !variable {
                finished(ch, l, d, &file(l, &fixed(n0 + m, c), false, 0), 0, "parallel append")?;
            }
            ch.validated();
            Ok(())
        })
        .with_budget(if th { 3 } else { 2 }),
    );
    Prop::new(v, &["streams to append to are from the reference encoder", "points from one fixed varied sequence per layout"])
}

/// Feeds points `from..to` in every division over calls.
pub fn feed_from(ch: &Ch, l: &Lay, w: &mut Wr, from: usize, to: usize, empties: bool) -> Res {
    let mut k = from;
    loop {
        if empties && ch.deviate(2) == 1 {
            ch.note(|| "many(0)".into());
            w.many(Via::Inherent, &[]).must("compress", || format!("{} empty compress_many", l.name))?;
            ch.step();
        }
        if k == to {
            return Ok(());
        }
        let j = ch.choose(to - k + 1);
        if j == 0 {
            ch.note(|| "one".into());
            w.one(Via::Inherent, &l.point(k)).must("compress", || format!("{} compress_one", l.name))?;
            k += 1;
        } else {
            ch.note(|| format!("many({})", j));
            w.many(Via::Inherent, &l.range(k, k + j)).must("compress", || format!("{} compress_many", l.name))?;
            k += j;
        }
        ch.step();
    }
}
