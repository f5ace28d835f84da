//! C05 (slicing), C06 (parallel writer), C09 (variable-size chunks), C18 writer part.
use super::big;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::sync::Arc;

/// Checks the bytes and the final position of a finished writer's destination.
pub fn finished(ch: &Ch, l: &Lay, d: Disk, want: &[u8], start: usize, what: &str) -> Res {
    let got = d.cur.get_ref();
    if &got[..] != want {
        return fail(format!("bytes:{}", what), format!("{} {}: the file differs from the LASzip stream of these points: {}", l.name, what, diff(got, want)));
    }
    ensure!(
        d.cur.position() as usize == want.len(),
        "position",
        "{} {}: destination left at {} of {} (stream start {})",
        l.name,
        what,
        d.cur.position(),
        want.len(),
        start
    );
    ch.validated();
    ch.outcome(got);
    Ok(())
}

/// Feeds points `0..n` to a fixed-size-chunks writer in every division over calls.
pub fn feed(ch: &Ch, l: &Lay, w: &mut Wr, n: usize, via: Via, empties: bool) -> Res {
    let mut k = 0;
    loop {
        if empties && ch.deviate(2) == 1 {
            ch.note(|| "many(0)".into());
            w.many(via, &[]).must("compress", || format!("{} empty compress_many", l.name))?;
            ch.step();
        }
        if k == n {
            return Ok(());
        }
        // 0: one point by compress_one; j: j points by compress_many
        let j = ch.choose(n - k + 1);
        if j == 0 {
            ch.note(|| "one".into());
            w.one(via, &l.point(k)).must("compress", || format!("{} compress_one", l.name))?;
            k += 1;
        } else {
            ch.note(|| format!("many({})", j));
            w.many(via, &l.range(k, k + j)).must("compress", || format!("{} compress_many", l.name))?;
            k += j;
        }
        ch.step();
    }
}

/// Chunk sizes that no memory can hold
pub const HUGE: [usize; 3] = [50_000_000, 1 << 31, u32::MAX as usize - 1];

pub fn c05(th: bool) -> Prop {
    let mut v = vec![];
    let seq = |name: &str, kind: Kind, ls: Vec<Lay>, nmax: usize, cs: Vec<usize>, budget: i64| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let c = *ch.of(&cs);
            let via = *ch.of(&[Via::Inherent, Via::Trait]);
            let reserve = ch.flag();
            let n = ch.choose(nmax + 1);
            ch.note(|| format!("{} chunk size {} {:?} explicit reserve {} points {}", l.name, c, via, reserve, n));
            let start = *ch.of(&[0usize, 11]);
            let mut w = Wr::new(kind, Disk::new(junk(start), start as u64), l.vlr(c as u32)).must("writer-new", || l.name.clone())?;
            if reserve {
                w.reserve(via).must("reserve", || l.name.clone())?;
            }
            feed(ch, l, &mut w, n, via, true)?;
            w.done(via).must("done", || l.name.clone())?;
            finished(ch, l, w.into_inner(), &file(l, &fixed(n, c), false, start), start, "fixed")
        })
        .with_budget(budget)
    };
    v.push(seq("every division over calls", Kind::Seq, pair(), if th { 6 } else { 4 }, vec![1, 2, 3, 50_000], 1));
    v.push(big::scenario(big::What::Write(Kind::Seq), th));
    v.push(seq("huge chunks", Kind::Seq, pair(), 2, HUGE.to_vec(), 0));
    v.push(seq("every division, every layout", Kind::Seq, all_formats(if th { &[0, 1, 3] } else { &[0, 2] }), if th { 3 } else { 2 }, vec![2], 0));
    v.push(seq("long divisions", Kind::Seq, vec![lay(0, 2, 0)], if th { 9 } else { 6 }, vec![2, 3], 1));
    v.push(seq("parallel writer: every division over calls", Kind::Par, pair(), if th { 6 } else { 4 }, vec![1, 2, 3], 0));
    v.push(seq("parallel writer: long divisions", Kind::Par, vec![lay(0, 2, 0)], if th { 9 } else { 6 }, vec![2, 3], 0));
    // the chunks of the parallel writer, divided over calls of compress_chunks
    {
        let ls = Arc::new(pair());
        v.push(Scenario::new("parallel writer: variable-size chunks divided over calls", move |ch| {
            let l = ch.of(&ls[..]);
            let reserve = ch.flag();
            let start = *ch.of(&[0usize, 11]);
            let mut w = Wr::new(Kind::Par, Disk::new(junk(start), start as u64), l.vlr(VARIABLE)).must("writer-new", || l.name.clone())?;
            if reserve {
                w.reserve(Via::Inherent).must("reserve", || l.name.clone())?;
            }
            division(ch);
            let mut left = ch.choose(if th { 7 } else { 5 });
            let (mut at, mut sizes, mut call, mut calls) = (0, vec![], vec![], vec![]);
            while left > 0 {
                let s = 1 + ch.choose(left);
                sizes.push(s);
                call.push(l.range(at, at + s));
                at += s;
                left -= s;
                if left == 0 || ch.flag() {
                    calls.push(call.len());
                    w.chunks(std::mem::take(&mut call)).must("compress", || "chunks".into())?;
                    ch.step();
                }
            }
            ch.note(|| format!("{} reserve {} start {}: chunks {:?} in calls of {:?}", l.name, reserve, start, sizes, calls));
            w.done(Via::Inherent).must("done", || l.name.clone())?;
            finished(ch, l, w.into_inner(), &file(l, &parts(&sizes), true, start), start, "parallel variable")
        }));
    }
    // variable-size chunks: one fixed partition, every way to call for it
    let ls = Arc::new(pair());
    let nmax = if th { 5 } else { 4 };
    v.push(
        Scenario::new("variable-size chunks: every way to write a partition", move |ch| {
            let l = ch.of(&ls[..]);
            let via = *ch.of(&[Via::Inherent, Via::Trait]);
            let reserve = ch.flag();
            let start = 0;
            let mut w = Wr::new(Kind::Seq, Disk::new(junk(start), start as u64), l.vlr(VARIABLE)).must("writer-new", || l.name.clone())?;
            if reserve {
                w.reserve(via).must("reserve", || l.name.clone())?;
            }
            let mut left = 1 + ch.choose(nmax);
            let mut at = 0;
            let mut sizes = vec![];
            while left > 0 {
                let s = 1 + ch.choose(left);
                sizes.push(s);
                left -= s;
                let last = left == 0;
                // how the chunk is written and ended
                match ch.choose(if last { 4 } else { 3 }) {
                    0 => w.chunks(vec![l.range(at, at + s)]).must("compress", || "chunks".into())?,
                    1 => {
                        w.many(via, &l.range(at, at + s)).must("compress", || "many".into())?;
                        w.finish().must("finish", || "".into())?;
                    }
                    2 => {
                        for k in at..at + s {
                            w.one(via, &l.point(k)).must("compress", || "one".into())?;
                        }
                        w.finish().must("finish", || "".into())?;
                    }
                    _ => w.many(via, &l.range(at, at + s)).must("compress", || "many".into())?,
                }
                ch.step();
                at += s;
            }
            ch.note(|| format!("{} {:?} chunks {:?}", l.name, via, sizes));
            w.done(via).must("done", || l.name.clone())?;
            finished(ch, l, w.into_inner(), &file(l, &parts(&sizes), true, start), start, "variable")
        }),
    );
    Prop::new(v, &["points from one fixed varied sequence per layout (all values are C01/C02)", "numbers of points up to the stated bound"])
}

pub fn c06(th: bool) -> Prop {
    let mut v = vec![];
    let par = |name: &str, ls: Vec<Lay>, ns: Vec<usize>, cs: Vec<usize>, workers: Vec<usize>, free: bool, budget: i64, starts: Vec<usize>| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let c = *ch.of(&cs);
            let wk = *ch.of(&workers);
            let via = *ch.of(&[Via::Inherent, Via::Trait]);
            let reserve = ch.flag();
            let n = *ch.of(&ns);
            let start = *ch.of(&starts);
            ch.note(|| format!("{} chunk size {} {:?} reserve {} points {} workers {}", l.name, c, via, reserve, n, wk));
            let d = pool(ch, wk, free, || -> Result<Disk, Fail> {
                let mut w = Wr::new(Kind::Par, Disk::new(junk(start), start as u64), l.vlr(c as u32)).must("writer-new", || l.name.clone())?;
                if reserve {
                    w.reserve(via).must("reserve", || l.name.clone())?;
                }
                feed(ch, l, &mut w, n, via, wk == 0)?;
                w.done(via).must("done", || l.name.clone())?;
                Ok(w.into_inner())
            })??;
            finished(ch, l, d, &file(l, &fixed(n, c), false, start), start, "parallel")
        })
        .with_budget(budget)
    };
    let upto = |n: usize| (0..=n).collect::<Vec<_>>();
    v.push(par("every division over calls", pair(), upto(if th { 6 } else { 4 }), vec![1, 2, 3, 50_000], vec![0], true, 1, vec![0, 11]));
    v.push(big::scenario(big::What::Write(Kind::Par), th));
    v.push(par("huge chunks", pair(), upto(2), HUGE.to_vec(), vec![0], true, 0, vec![0]));
    v.push(par("long divisions", vec![lay(0, 2, 0)], upto(if th { 9 } else { 5 }), vec![2, 3], vec![0], true, 1, vec![0]));
    v.push(par("every division, every layout", all_formats(if th { &[0, 1, 3] } else { &[0, 2] }), upto(if th { 3 } else { 2 }), vec![2], vec![0], true, 0, vec![0]));
    // schedules: one bulk call of several chunks
    let bulk = |name: &str, ls: Vec<Lay>, chunks: Vec<usize>, workers: Vec<usize>, free: bool, budget: i64, alloc: bool| {
        let ls = Arc::new(ls);
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let wk = *ch.of(&workers);
            let nch = *ch.of(&chunks);
            let c = 2;
            // rest before the bulk call, partial chunk after it
            let (head, tail) = if alloc && !th { (0, 0) } else { (ch.choose(2), ch.choose(2)) };
            let oneshot = head == 0 && ch.flag();
            let n = head + nch * c + tail;
            ch.note(|| format!("{} {} chunks, {} before, {} after, {} workers, one-shot {}", l.name, nch, head, tail, wk, oneshot));
            let d = pool_alloc(ch, wk, free, alloc, || -> Result<Disk, Fail> {
                if oneshot {
                    let mut d = Disk::new(vec![], 0);
                    laz::par_compress_buffer(&mut d, &l.range(0, n), &l.vlr(c as u32)).map_err(stable).must("par_compress_buffer", || l.name.clone())?;
                    return Ok(d);
                }
                let mut w = Wr::new(Kind::Par, Disk::new(vec![], 0), l.vlr(c as u32)).must("writer-new", || l.name.clone())?;
                if head > 0 {
                    w.many(Via::Inherent, &l.range(0, head)).must("compress", || l.name.clone())?;
                }
                w.many(Via::Inherent, &l.range(head, n)).must("compress", || l.name.clone())?;
                w.done(Via::Inherent).must("done", || l.name.clone())?;
                Ok(w.into_inner())
            });
            finished(ch, l, d??, &file(l, &fixed(n, c), false, 0), 0, "parallel schedules")
        })
        .with_budget(budget)
    };
    v.push(bulk("every schedule, two chunks", vec![lay(0, 1, 0)], vec![2], vec![1, 2], true, 0, false));
    v.push(bulk("up to two scheduling deviations", vec![lay(0, 1, 0), lay(6, 3, 0)], vec![2, 3, 5], vec![1, 2, 3], false, if th { 3 } else { 2 }, false));
    v.push(bulk("one preemption at any allocation", vec![lay(0, if th { 2 } else { 1 }, if th { 1 } else { 0 })], vec![2], vec![2], false, 1, true));
    if th {
        v.push(bulk("every schedule, three chunks", vec![lay(0, 1, 0)], vec![3], vec![2], true, 0, false));
        v.push(bulk("one preemption at any allocation, layered", vec![lay(6, 3, 1)], vec![2], vec![2], false, 1, true));
    }
    Prop::new(
        v,
        &["rayon's scheduling is that of the controlled replacement of rayon-core (work stealing deques, fork-join): all decisions at fork, pop, steal and wait points, and preemptions at allocations"],
    )
}

/// One operation of a writer of variable-size chunks
#[derive(Clone, Debug)]
pub enum VOp {
    One,
    Many(usize),
    End,
    Chunks(Vec<usize>),
}

fn seq_ops(th: bool) -> Vec<VOp> {
    let mut v = vec![VOp::One, VOp::End, VOp::Many(2), VOp::Chunks(vec![1]), VOp::Chunks(vec![0]), VOp::Chunks(vec![2, 0, 1]), VOp::Many(0)];
    if th {
        v.push(VOp::Chunks(vec![]));
        v.push(VOp::Chunks(vec![0, 0]));
        v.push(VOp::Chunks(vec![3]));
    }
    v
}

fn par_ops(th: bool) -> Vec<VOp> {
    let mut v = vec![VOp::Chunks(vec![1]), VOp::Chunks(vec![2, 1]), VOp::Chunks(vec![0]), VOp::Chunks(vec![]), VOp::Chunks(vec![2, 0, 1]), VOp::Chunks(vec![3, 0, 0, 1, 0])];
    if th {
        v.push(VOp::Chunks(vec![1, 1, 1, 0]));
        v.push(VOp::Chunks(vec![0, 0]));
    }
    v
}

/// The model: chunks so far and points in the open one.
#[derive(Default, Clone)]
pub struct VModel {
    pub done: Vec<Rng>,
    pub from: usize,
    pub to: usize,
}
impl VModel {
    pub fn add(&mut self, n: usize) -> Rng {
        self.to += n;
        (self.to - n, self.to)
    }
    pub fn end(&mut self) {
        if self.to > self.from {
            self.done.push((self.from, self.to));
        }
        self.from = self.to;
    }
}

pub fn apply(w: &mut Wr, m: &mut VModel, l: &Lay, op: &VOp) -> Res {
    let g = |r: Rng| l.range(r.0, r.1);
    match op {
        VOp::One => {
            let r = m.add(1);
            w.one(Via::Inherent, &g(r)).must("compress", || "compress_one".into())
        }
        VOp::Many(n) => {
            let r = m.add(*n);
            w.many(Via::Inherent, &g(r)).must("compress", || "compress_many".into())
        }
        VOp::End => {
            m.end();
            w.finish().must("finish", || "finish_current_chunk".into())
        }
        VOp::Chunks(s) => {
            let mut data = vec![];
            for n in s {
                let r = m.add(*n);
                m.end();
                data.push(g(r));
            }
            w.chunks(data).must("compress", || "compress_chunks".into())
        }
    }
}

/// All readers over a finished variable-size-chunks stream.
pub fn read_back(ch: &Ch, l: &Lay, f: &[u8], start: usize, m: &VModel) -> Res {
    let want = l.range(0, m.to);
    must_read(ch, l, VARIABLE, f, start as u64, Kind::Seq, &want)?;
    must_read(ch, l, VARIABLE, f, start as u64, Kind::Par, &want)?;
    let t = table_of(l, VARIABLE, f, start as u64).must("table", || "chunk table".into())?;
    let counts: Vec<u64> = t.iter().map(|e| e.0).collect();
    let model: Vec<u64> = m.done.iter().map(|r| (r.1 - r.0) as u64).collect();
    ensure!(counts == model, "table-counts", "chunk table has point counts {:?}, the chunks were {:?}", counts, model);
    Ok(())
}

pub fn c09(th: bool) -> Prop {
    let mut v = vec![];
    let hist = |name: &str, kind: Kind, ls: Vec<Lay>, depth: usize| {
        let ls = Arc::new(ls);
        let ops = Arc::new(if kind == Kind::Seq { seq_ops(th) } else { par_ops(th) });
        Scenario::new(name, move |ch| {
            let l = ch.of(&ls[..]);
            let start = *ch.of(&[0usize, 13]);
            let n = ch.choose(depth + 1);
            let mut w = Wr::new(kind, Disk::new(junk(start), start as u64), l.vlr(VARIABLE)).must("writer-new", || l.name.clone())?;
            let mut m = VModel::default();
            let mut log = vec![];
            for _ in 0..n {
                let op = ch.of(&ops[..]);
                log.push(format!("{:?}", op));
                apply(&mut w, &mut m, l, op)?;
                ch.step();
            }
            ch.note(|| format!("{} {:?} start {}: {}", l.name, kind, start, log.join(" ")));
            w.done(Via::Inherent).must("done", || l.name.clone())?;
            m.end();
            let want = file(l, &m.done, true, start);
            let d = w.into_inner();
            read_back(ch, l, d.cur.get_ref(), start, &m)?;
            finished(ch, l, d, &want, start, "variable-size chunks")
        })
    };
    v.push(hist("sequential writer: every history of calls", Kind::Seq, vec![lay(0, 2, 0), lay(6, 3, 0)], if th { 4 } else { 3 }));
    v.push(hist("sequential writer: long histories", Kind::Seq, vec![lay(0, 1, 0)], if th { 6 } else { 4 }));
    v.push(hist("parallel writer: every history of calls", Kind::Par, vec![lay(0, 2, 0), lay(6, 3, 0)], if th { 4 } else { 3 }));
    v.push(hist("every layout", Kind::Seq, all_formats(if th { &[0, 1, 3] } else { &[1] }), if th { 2 } else { 1 }));
    // streams with chunks of every size read by every reader in every slicing is C07; here: every
    // partition of up to n points
    let nmax = if th { 9 } else { 7 };
    let ls = Arc::new(vec![lay(1, 2, 0), lay(7, 3, 0)]);
    v.push(Scenario::new("every partition of the points, both writers", move |ch| {
        let l = ch.of(&ls[..]);
        let kind = *ch.of(&[Kind::Seq, Kind::Par]);
        let mut left = ch.choose(nmax + 1);
        let mut sizes = vec![];
        while left > 0 {
            let s = 1 + ch.choose(left);
            sizes.push(s);
            left -= s;
        }
        ch.note(|| format!("{} {:?} {:?}", l.name, kind, sizes));
        let mut w = Wr::new(kind, Disk::new(vec![], 0), l.vlr(VARIABLE)).must("writer-new", || l.name.clone())?;
        let mut m = VModel::default();
        if kind == Kind::Par {
            division(ch);
        }
        apply(&mut w, &mut m, l, &VOp::Chunks(sizes))?;
        w.done(Via::Inherent).must("done", || l.name.clone())?;
        ch.steps(m.done.len() as u64);
        let d = w.into_inner();
        read_back(ch, l, d.cur.get_ref(), 0, &m)?;
        finished(ch, l, d, &file(l, &m.done, true, 0), 0, "partition")
    }));
    v.push(big::scenario(big::What::WriteVariable, th));
    // schedules of the parallel writer's compress_chunks
    let ls = Arc::new(vec![lay(0, 1, 0)]);
    v.push(
        Scenario::new("parallel writer: schedules", move |ch| {
            let l = ch.of(&ls[..]);
            let wk = *ch.of(&[1usize, 2, 3]);
            let sizes: Vec<usize> = [vec![2usize, 1], vec![1, 0, 2], vec![1, 2, 1, 3]][ch.choose(3)].clone();
            let mut m = VModel::default();
            let d = pool(ch, wk, false, || -> Result<Disk, Fail> {
                let mut w = Wr::new(Kind::Par, Disk::new(vec![], 0), l.vlr(VARIABLE)).must("writer-new", || l.name.clone())?;
                apply(&mut w, &mut m, l, &VOp::Chunks(sizes.clone()))?;
                apply(&mut w, &mut m, l, &VOp::Chunks(vec![2]))?;
                w.done(Via::Inherent).must("done", || l.name.clone())?;
                Ok(w.into_inner())
            })??;
            finished(ch, l, d, &file(l, &m.done, true, 0), 0, "parallel variable")
        })
        .with_budget(if th { 3 } else { 2 }),
    );
    Prop::new(v, &["points from one fixed varied sequence per layout", "histories up to the stated number of calls"])
}
