//! C07 (parallel reader), C08 (seek), C24 (past the end), C11 (selection).
use super::big;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::sync::Arc;

/// A stream to read: its chunks and chunking parameter
#[derive(Clone, Debug)]
pub struct Stream {
    pub l: Lay,
    pub chunks: Vec<Rng>,
    pub variable: bool,
    pub c: usize,
    pub start: usize,
    /// chunks without points are recorded with that many bytes
    pub gaps: Option<usize>,
    /// bytes after the stream, as in a file with extended records
    pub tail: usize,
}

impl Stream {
    pub fn fixed(l: Lay, n: usize, c: usize, start: usize) -> Stream {
        Stream { l, chunks: fixed(n, c), variable: false, c, start, gaps: None, tail: if start > 0 { 301 } else { 0 } }
    }
    pub fn variable(l: Lay, sizes: &[usize], start: usize) -> Stream {
        Stream { l, chunks: parts(sizes), variable: true, c: 0, start, gaps: None, tail: if start > 0 { 301 } else { 0 } }
    }
    /// As other writers do: chunks without points in the table
    pub fn gaps(l: Lay, sizes: &[usize], gap: usize) -> Stream {
        Stream { gaps: Some(gap), ..Stream::variable(l, sizes, 0) }
    }
    pub fn tail(self, tail: usize) -> Stream {
        Stream { tail, ..self }
    }
    pub fn n(&self) -> usize {
        self.chunks.last().map(|r| r.1).unwrap_or(0)
    }
    pub fn cp(&self) -> u32 {
        chunk_param(self.variable, self.c)
    }
    pub fn file(&self) -> Vec<u8> {
        let mut f = junk(self.start);
        f.extend(expect_gaps(&self.l, &self.chunks, self.variable, self.start as u64, self.gaps));
        // zeroes make chunks that can be read, other bytes fail early
        f.extend(if self.tail % 2 == 0 { vec![0; self.tail] } else { junk(self.tail) });
        f
    }
    /// the number of points is known from the stream alone
    pub fn determined(&self) -> bool {
        self.variable || self.l.layered() || self.n() % self.c == 0
    }
    /// ... from the chunk table alone
    pub fn table_determined(&self) -> bool {
        self.variable || self.n() % self.c == 0
    }
    pub fn open(&self, k: Kind) -> Result<Rd, Fail> {
        Rd::new(k, Disk::new(self.file(), self.start as u64), self.l.vlr(self.cp())).must("reader-new", || format!("{:?} reader on {}", k, self.name()))
    }
    pub fn name(&self) -> String {
        format!(
            "{} {} start {} tail {}",
            self.l.name,
            if self.variable { format!("variable {:?}", self.chunks.iter().map(|r| r.1 - r.0).collect::<Vec<_>>()) } else { format!("{} points in chunks of {}", self.n(), self.c) },
            self.start,
            self.tail
        )
    }
}

/// Every stream shape up to a number of points
fn shapes(ls: &[Lay], nmax: usize) -> Vec<Stream> {
    let mut v = vec![];
    for l in ls {
        for n in 0..=nmax {
            for c in 1..=3 {
                v.push(Stream::fixed(l.clone(), n, c, if c == 2 { 9 } else { 0 }));
                if n % c != 0 {
                    let t = v.last().unwrap().tail;
                    v.push(v.last().unwrap().clone().tail(if t == 0 { 300 } else { 0 }));
                }
            }
            // every composition of n
            if n > 0 {
                for m in 0..1u32 << (n - 1) {
                    let mut sizes = vec![1];
                    for b in 0..n - 1 {
                        if m >> b & 1 == 1 {
                            sizes.push(1)
                        } else {
                            *sizes.last_mut().unwrap() += 1
                        }
                    }
                    v.push(Stream::variable(l.clone(), &sizes, if m % 2 == 0 { 0 } else { 21 }));
                }
            } else {
                v.push(Stream::variable(l.clone(), &[], 0));
            }
        }
    }
    v
}

/// a few representative shapes
fn some_shapes(ls: &[Lay]) -> Vec<Stream> {
    let mut v = vec![];
    for l in ls {
        v.push(Stream::fixed(l.clone(), 5, 2, 0));
        v.push(Stream::fixed(l.clone(), 5, 2, 0).tail(300));
        v.push(Stream::fixed(l.clone(), 4, 2, 7));
        v.push(Stream::variable(l.clone(), &[2, 1, 2], 0));
        v.push(Stream::variable(l.clone(), &[1, 3], 7));
        v.push(Stream::gaps(l.clone(), &[0, 2, 0, 0, 1, 0], 0));
        v.push(Stream::fixed(l.clone(), 3, super::writers::HUGE[2], 0));
    }
    v
}

/// Reads in requests whose sizes are all explored; returns the points
fn read_sliced(ch: &Ch, s: &Stream, r: &mut Rd, at: usize, upto: usize) -> Res {
    let ps = s.l.size();
    let mut k = at;
    while k < upto {
        let j = 1 + ch.choose(upto - k);
        let how = if j == 1 { ch.choose(2) } else { 0 };
        let mut out = vec![0x5A; j * ps];
        let res = match how {
            0 => r.many(&mut out),
            _ => r.one(&mut out),
        };
        ch.step();
        ch.note(|| format!("read {} ({}) -> {:?}", j, if how == 0 { "many" } else { "one" }, res.is_ok()));
        res.must("read", || format!("{}: points {}..{}", s.name(), k, k + j))?;
        same_points(&s.l, &out, &s.l.range(k, k + j), k)?;
        ch.validated();
        k += j;
    }
    Ok(())
}

pub fn c07(th: bool) -> Prop {
    let mut v = vec![];
    let all = Arc::new(shapes(&[lay(0, 2, 0), lay(6, 3, 0)], if th { 6 } else { 4 }));
    {
        let all = all.clone();
        v.push(Scenario::new("every stream shape, every slicing of the requests", move |ch| {
            let s = ch.of(&all[..]);
            ch.note(|| s.name());
            division(ch);
            let mut r = s.open(Kind::Par)?;
            read_sliced(ch, s, &mut r, 0, s.n())
        }));
    }
    {
        let all = all.clone();
        v.push(Scenario::new("more points than the chunks can hold", move |ch| {
            let s = ch.of(&all[..]);
            let ps = s.l.size();
            let cap: usize = if s.variable { s.n() } else { s.chunks.len() * s.c };
            let first = ch.choose(s.n() + 1);
            let more = cap - first + 1 + ch.choose(3);
            ch.note(|| format!("{}: {} points, then {}", s.name(), first, more));
            let mut r = s.open(Kind::Par)?;
            if first > 0 {
                let mut o = vec![0; first * ps];
                r.many(&mut o).must("read", || s.name())?;
                same_points(&s.l, &o, &s.l.range(0, first), 0)?;
            }
            let mut o = vec![0; more * ps];
            let e = r.many(&mut o);
            ensure!(e.is_err(), "too-many", "{}: after {} points, {} more than the chunks hold were delivered", s.name(), first, more);
            ch.steps(2);
            ch.validated();
            Ok(())
        }));
    }
    let some = Arc::new(some_shapes(&all_formats(if th { &[0, 1, 3] } else { &[1] })));
    v.push(Scenario::new("every layout", move |ch| {
        let s = ch.of(&some[..]);
        ch.note(|| s.name());
        let mut r = s.open(Kind::Par)?;
        let a = ch.choose(3);
        let n = s.n();
        let ps = s.l.size();
        let mut k = 0;
        for j in [a, n - a] {
            if j == 0 {
                continue;
            }
            let mut o = vec![0; j * ps];
            r.many_dyn(&mut o).must("read", || s.name())?;
            same_points(&s.l, &o, &s.l.range(k, k + j), k)?;
            k += j;
            ch.step();
        }
        ch.validated();
        Ok(())
    }));
    v.push(big::scenario(big::What::Read(Kind::Par), th));
    // one-shot functions
    {
        let all = all.clone();
        v.push(Scenario::new("one-shot parallel functions", move |ch| {
            let s = ch.of(&all[..]);
            oneshot(ch, s)
        }));
        let some = Arc::new(some_shapes(&all_formats(&[1])));
        v.push(Scenario::new("one-shot parallel functions, every layout", move |ch| {
            let s = ch.of(&some[..]);
            oneshot(ch, s)
        }));
    }
    // schedules
    let sch = |name: &str, ss: Vec<Stream>, workers: Vec<usize>, free: bool, budget: i64, alloc: bool| {
        let ss = Arc::new(ss);
        Scenario::new(name, move |ch| {
            let s = ch.of(&ss[..]);
            let wk = *ch.of(&workers);
            let ps = s.l.size();
            let n = s.n();
            // one request; or a first one that ends inside a chunk
            let a = ch.choose(2);
            let f = s.file();
            ch.note(|| format!("{} {} workers, first request {}", s.name(), wk, a));
            let out = pool_alloc(ch, wk, free, alloc, || -> Result<Vec<u8>, Fail> {
                let mut r = Rd::new(Kind::Par, Disk::new(f, s.start as u64), s.l.vlr(s.cp())).must("reader-new", || s.name())?;
                let mut o = vec![0x5A; n * ps];
                if a > 0 {
                    r.many(&mut o[..a * ps]).must("read", || s.name())?;
                }
                r.many(&mut o[a * ps..]).must("read", || s.name())?;
                Ok(o)
            })??;
            ch.outcome(&out);
            same_points(&s.l, &out, &s.l.range(0, n), 0)?;
            ch.validated();
            Ok(())
        })
        .with_budget(budget)
    };
    v.push(sch(
        "every schedule",
        vec![Stream::fixed(lay(0, 1, 0), 5, 2, 0), Stream::variable(lay(0, 1, 0), &[1, 2], 0)],
        vec![1, 2],
        true,
        0,
        false,
    ));
    v.push(sch(
        "up to two scheduling deviations",
        vec![Stream::fixed(lay(0, 1, 0), 9, 2, 0), Stream::variable(lay(0, 1, 0), &[1, 2, 1, 3], 0), Stream::fixed(lay(6, 3, 0), 5, 2, 0)],
        vec![2, 3],
        false,
        if th { 3 } else { 2 },
        false,
    ));
    v.push(sch("one preemption at any allocation", vec![if th { Stream::fixed(lay(0, 2, 1), 5, 2, 0) } else { Stream::fixed(lay(0, 1, 0), 3, 2, 0) }], vec![2], false, 1, true));
    Prop::new(
        v,
        &["streams from the reference encoder", "rayon's scheduling is that of the controlled replacement of rayon-core"],
    )
}

fn oneshot(ch: &Ch, s: &Stream) -> Res {
    let ps = s.l.size();
    let n = s.n();
    // buffer functions expect offsets from the start of the point data
    let f = expect(&s.l, &s.chunks, s.variable, 0);
    let vlr = s.l.vlr(s.cp());
    let want = s.l.range(0, n);
    let which = ch.choose(3);
    division(ch);
    ch.note(|| format!("{} function {}", s.name(), which));
    let mut out = vec![0x5A; n * ps];
    let table = laz::laszip::ChunkTable::read_from(&mut std::io::Cursor::new(&f[..]), &vlr).map_err(stable).must("table", || s.name())?;
    let body = &f[8..8 + table.as_ref().iter().map(|e| e.byte_count as usize).sum::<usize>()];
    let r = match which {
        0 => laz::laszip::parallel::par_decompress_buffer(&f, &mut out, &vlr),
        1 => laz::laszip::parallel::par_decompress(body, &mut out, &vlr, table.as_ref()),
        _ => laz::laszip::parallel::par_decompress_selective(body, &mut out, &vlr, table.as_ref(), laz::las::selective::DecompressionSelection::all()),
    };
    r.map_err(stable).must("oneshot", || s.name())?;
    same_points(&s.l, &out, &want, 0)?;
    ch.step();
    ch.validated();
    // room for more points than the chunks can hold: an error
    if ch.flag() {
        let cap = if s.variable { n } else { s.chunks.len() * s.c.min(1000) };
        let mut out = vec![0x5A; (cap + 1) * ps];
        let r = match which {
            0 => laz::laszip::parallel::par_decompress_buffer(&f, &mut out, &vlr),
            1 => laz::laszip::parallel::par_decompress(body, &mut out, &vlr, table.as_ref()),
            _ => laz::laszip::parallel::par_decompress_selective(body, &mut out, &vlr, table.as_ref(), laz::las::selective::DecompressionSelection::all()),
        };
        ensure!(r.is_err(), "oneshot-too-many", "{}: function {} delivered {} points from chunks that hold {}", s.name(), which, cap + 1, n);
    }
    Ok(())
}

/// A history of reads and seeks against the model "position in the point sequence".
/// `None`: the position is at or beyond the end, nothing may be returned any more.
pub fn history(ch: &Ch, s: &Stream, kind: Kind, depth: usize, wk: usize) -> Res {
    let n = s.n();
    let ps = s.l.size();
    let mut r = s.open(kind)?;
    let mut pos = 0usize;
    let mut lost = false; // after an error only a seek defines the position again
    for _ in 0..depth {
        // operations: read 1, read 2, read all the rest, seek 0..=n+2 and far
        let op = ch.choose(3 + n + 3);
        if op < 3 {
            let want = match op {
                0 => 1,
                1 => 2,
                _ => n.saturating_sub(pos).max(1),
            };
            let mut out = vec![0x5A; want * ps];
            let res = if wk > 0 { pool(ch, wk, false, || r.many(&mut out))? } else if want == 1 { r.one(&mut out) } else { r.many(&mut out) };
            ch.note(|| format!("read {} -> {}", want, if let Err(e) = &res { e.clone() } else { "ok".into() }));
            if lost {
                return Ok(());
            }
            if pos + want <= n {
                res.must("read", || format!("{}: {:?} reader at point {} reading {}", s.name(), kind, pos, want))?;
                same_points(&s.l, &out, &s.l.range(pos, pos + want), pos)?;
                pos += want;
            } else if s.determined_for(kind) {
                ensure!(res.is_err(), "past-end", "{}: {:?} reader at point {} of {} returned {} points", s.name(), kind, pos, n, want);
                lost = true;
            } else {
                // the caller is responsible for not asking (partial last chunk of a point-wise layout)
                lost = true;
            }
            ch.validated();
        } else {
            let to = if op - 3 < n + 2 { op - 3 } else { n + 1000 };
            let res = r.seek(to as u64);
            ch.note(|| format!("seek {} -> {}", to, if let Err(e) = &res { e.clone() } else { "ok".into() }));
            if to < n {
                res.must("seek", || format!("{}: {:?} reader seek to {}", s.name(), kind, to))?;
                pos = to;
                lost = false;
            } else if res.is_err() {
                lost = true;
            } else {
                pos = to;
                lost = false;
            }
        }
        ch.step();
    }
    Ok(())
}

impl Stream {
    /// whether this reader can know where the points end
    pub fn determined_for(&self, _k: Kind) -> bool {
        self.determined()
    }
}

pub fn c08(th: bool) -> Prop {
    let mut v = vec![];
    let mk = |name: &str, ss: Vec<Stream>, kinds: Vec<Kind>, depth: usize| {
        let ss = Arc::new(ss);
        Scenario::new(name, move |ch| {
            let s = ch.of(&ss[..]);
            let kind = *ch.of(&kinds);
            ch.note(|| format!("{} {:?}", s.name(), kind));
            history(ch, s, kind, depth, 0)
        })
    };
    let both = vec![Kind::Seq, Kind::Par];
    let (p, q) = (lay(0, 2, 0), lay(6, 3, 0));
    v.push(mk(
        "every history of reads and seeks",
        vec![
            Stream::fixed(p.clone(), 5, 2, 0),
            Stream::fixed(p.clone(), 3, 2, 0).tail(300),
            Stream::fixed(p.clone(), 4, 2, 5),
            Stream::variable(p.clone(), &[2, 1, 2], 0),
            Stream::variable(p.clone(), &[1, 3], 5),
        ],
        both.clone(),
        if th { 4 } else { 3 },
    ));
    v.push(mk(
        "every history of reads and seeks, layered",
        vec![
            Stream::fixed(q.clone(), 5, 2, 0),
            Stream::fixed(q.clone(), 3, 2, 0).tail(300),
            Stream::fixed(q.clone(), 4, 2, 5),
            Stream::variable(q.clone(), &[2, 1, 2], 0),
            Stream::variable(q.clone(), &[1, 3], 5),
        ],
        both.clone(),
        if th { 3 } else { 2 },
    ));
    v.push(mk("every stream shape", shapes(&[p.clone(), q.clone()], if th { 5 } else { 4 }), both.clone(), 2));
    v.push(mk("every layout", some_shapes(&all_formats(if th { &[0, 1, 3] } else { &[1] })), both.clone(), if th { 2 } else { 1 }));
    v.push(big::scenario(big::What::Seek, th));
    // far beyond the end
    let ss = Arc::new(shapes(&[p.clone(), q.clone(), lay(10, 4, 1)], 4).into_iter().filter(|s| s.determined()).collect::<Vec<_>>());
    v.push(Scenario::new("targets far beyond the end", move |ch| {
        let s = ch.of(&ss[..]);
        let kind = *ch.of(&[Kind::Seq, Kind::Par]);
        let (n, ps) = (s.n(), s.l.size());
        let k = ch.choose(n + 1) as u64;
        let to = k + *ch.of(&[255u64, 256, 65_535, 65_536, 1 << 24, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 33, 1 << 63, u64::MAX - n as u64]);
        if to < n as u64 {
            return Ok(());
        }
        ch.note(|| format!("{} {:?} seek to {}", s.name(), kind, to));
        let mut r = s.open(kind)?;
        if ch.flag() && n > 0 {
            r.one(&mut vec![0; ps]).must("read", || s.name())?;
        }
        if r.seek(to).is_ok() {
            for m in [1, 2] {
                let mut o = vec![0; m * ps];
                let x = if m == 1 { r.one(&mut o) } else { r.many(&mut o) };
                ensure!(x.is_err(), "past-end", "{}: {:?} reader delivers a point after a seek to {}", s.name(), kind, to);
            }
        }
        // the way back
        if n > 0 {
            r.seek(0).must("seek", || s.name())?;
            let mut o = vec![0; n * ps];
            r.many(&mut o).must("read", || s.name())?;
            same_points(&s.l, &o, &s.l.range(0, n), 0)?;
        }
        ch.steps(4);
        ch.validated();
        Ok(())
    }));
    // a call that fails, because the source does, is part of the history
    let ss = Arc::new(vec![
        Stream::fixed(p.clone(), 5, 2, 3),
        Stream::variable(p.clone(), &[2, 1, 2], 0),
        Stream::variable(q.clone(), &[2, 1, 1], 3),
    ]);
    v.push(
        Scenario::new("an operation of the source fails, then a seek", move |ch| {
            use super::faults::*;
            let s = ch.of(&ss[..]);
            let kind = *ch.of(&[Kind::Seq, Kind::Par]);
            let (n, ps) = (s.n(), s.l.size());
            let fa = Faulty::new(Mode::Faults);
            let hook = fa.hook(ch);
            let armed = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let a2 = armed.clone();
            let d = Disk::new(s.file(), s.start as u64).hooked(Arc::new(move |op, k| if a2.load(std::sync::atomic::Ordering::SeqCst) { hook(op, k) } else { Verdict::Normal }));
            let mut r = Rd::new(kind, d, s.l.vlr(s.cp())).must("reader-new", || s.name())?;
            let before = ch.choose(n + 1);
            if before > 0 {
                r.many(&mut vec![0; before * ps]).must("read", || s.name())?;
            }
            let (seeks, k) = (ch.flag(), ch.choose(n + 1));
            armed.store(true, std::sync::atomic::Ordering::SeqCst);
            let what = if seeks { "seek to" } else { "read of points up to" };
            // the call that fails: whatever it is, a position has to be defined again
            let _ = fa.attempt(what, || if seeks { r.seek(k as u64) } else { r.many(&mut vec![0; k.saturating_sub(before) * ps]) })?;
            armed.store(false, std::sync::atomic::Ordering::SeqCst);
            if !fa.any() {
                return Ok(());
            }
            let to = ch.choose(n + 1);
            ch.note(|| format!("{} {:?} reader: {} points read, {} {}, then seek to {}", s.name(), kind, before, what, k, to));
            let res = r.seek(to as u64);
            if to < n {
                res.must("seek", || format!("{}: {:?} reader seek to {} after a failed call", s.name(), kind, to))?;
                let mut o = vec![0x5A; (n - to) * ps];
                r.many(&mut o).must("read", || format!("{}: {:?} reader after a failed call and a seek to {}", s.name(), kind, to))?;
                same_points(&s.l, &o, &s.l.range(to, n), to)?;
                ch.validated();
            } else if res.is_ok() && s.determined() {
                ensure!(r.one(&mut vec![0; ps]).is_err(), "past-end", "{}: {:?} reader delivers a point after a seek to the end", s.name(), kind);
            }
            ch.steps(3);
            Ok(())
        })
        .with_budget(if th { 2 } else { 1 }),
    );
    // realistic sizes: every target in a longer stream
    let n = if th { 60 } else { 24 };
    let ss = Arc::new(vec![
        Stream::fixed(p.clone(), n, 7, 0),
        Stream::fixed(p.clone(), n, 7, 0).tail(300),
        Stream::fixed(p.clone(), n - n % 7 + 7, 7, 0),
        Stream::variable(p.clone(), &[5, 1, 9, 2, 7], 3),
        Stream::fixed(q.clone(), n, 7, 0),
        Stream::fixed(q.clone(), n, 7, 0).tail(300),
        Stream::variable(q.clone(), &[5, 1, 9, 2, 7], 3),
    ]);
    v.push(Scenario::new("every pair of targets in longer streams", move |ch| {
        let s = ch.of(&ss[..]);
        let kind = *ch.of(&[Kind::Seq, Kind::Par]);
        let n = s.n();
        let (a, b) = (ch.choose(n), ch.choose(n));
        let ps = s.l.size();
        ch.note(|| format!("{} {:?} seek {} then {}", s.name(), kind, a, b));
        let mut r = s.open(kind)?;
        for t in [a, b] {
            r.seek_dyn(t as u64).must("seek", || s.name())?;
            let m = (n - t).min(3);
            let mut out = vec![0; m * ps];
            r.many_dyn(&mut out).must("read", || s.name())?;
            same_points(&s.l, &out, &s.l.range(t, t + m), t)?;
            ch.steps(2);
        }
        let t = b + (n - b).min(3);
        if t < n {
            let mut out = vec![0; (n - t) * ps];
            r.many(&mut out).must("read", || s.name())?;
            same_points(&s.l, &out, &s.l.range(t, n), t)?;
        }
        ch.validated();
        Ok(())
    }));
    Prop::new(v, &["streams from the reference encoder", "histories up to the stated number of calls; after an error only a seek defines the position"])
}

/// Reads everything and beyond, in every request size; never more than the stream's points.
pub fn c24(th: bool) -> Prop {
    let mut v = vec![];
    let mk = |name: &str, ss: Vec<Stream>, extra: usize| {
        let ss: Arc<Vec<Stream>> = Arc::new(ss.into_iter().filter(|s| s.determined()).collect());
        Scenario::new(name, move |ch| {
            let s = ch.of(&ss[..]);
            let kind = *ch.of(&[Kind::Seq, Kind::Par]);
            let sel = ch.flag();
            let n = s.n();
            let ps = s.l.size();
            let d = Disk::new(s.file(), s.start as u64);
            let mut r = if sel {
                Rd::selective(kind, d, s.l.vlr(s.cp()), laz::las::selective::DecompressionSelection::all())
            } else {
                Rd::new(kind, d, s.l.vlr(s.cp()))
            }
            .must("reader-new", || s.name())?;
            let mut k = 0;
            // front part in one go, then single steps over the end
            let first = ch.choose(n + 1);
            ch.note(|| format!("{} {:?} selective {} first {}", s.name(), kind, sel, first));
            if first > 0 {
                let mut o = vec![0; first * ps];
                r.many(&mut o).must("read", || s.name())?;
                same_points(&s.l, &o, &s.l.range(0, first), 0)?;
                k = first;
            }
            for _ in 0..extra {
                let j = 1 + ch.choose(n - k.min(n) + 2);
                let mut o = vec![0x5A; j * ps];
                let res = if j == 1 && ch.flag() { r.one(&mut o) } else { r.many(&mut o) };
                ch.note(|| format!("read {} -> {:?}", j, res));
                ch.step();
                if k + j <= n {
                    res.must("read", || format!("{} at {}", s.name(), k))?;
                    same_points(&s.l, &o, &s.l.range(k, k + j), k)?;
                    k += j;
                } else {
                    ensure!(res.is_err(), "past-end", "{}: {:?} reader at point {} of {} delivered {} points", s.name(), kind, k, n, j);
                    if k < n {
                        // whether the bulk request has consumed the remaining points is not said
                        break;
                    }
                }
                ch.validated();
            }
            Ok(())
        })
    };
    v.push(mk("every stream shape", shapes(&[lay(0, 2, 0), lay(6, 3, 0)], if th { 4 } else { 3 }), 2));
    v.push(mk("every layout", some_shapes(&all_formats(if th { &[0, 1, 3] } else { &[1] })), 1));
    // after the end: more requests, all of them errors
    let some: Arc<Vec<Stream>> = Arc::new(some_shapes(&[lay(0, 2, 0), lay(5, 1, 1), lay(6, 3, 0), lay(10, 4, 1)]).into_iter().filter(|s| s.determined()).collect());
    v.push(Scenario::new("at every further request", move |ch| {
        let s = ch.of(&some[..]);
        let kind = *ch.of(&[Kind::Seq, Kind::Par]);
        let n = s.n();
        let ps = s.l.size();
        // trailing bytes after the stream, as in a file with extended records
        let trail = *ch.of(&[0usize, 1, 64, 4096]);
        let mut f = s.file();
        f.extend(junk(trail));
        ch.note(|| format!("{} {:?} {} bytes after the stream", s.name(), kind, trail));
        let mut r = Rd::new(kind, Disk::new(f, s.start as u64), s.l.vlr(s.cp())).must("reader-new", || s.name())?;
        let mut o = vec![0; n * ps];
        r.many(&mut o).must("read", || s.name())?;
        same_points(&s.l, &o, &s.l.range(0, n), 0)?;
        for i in 0..4 {
            let j = 1 + ch.choose(2);
            let mut o = vec![0; j * ps];
            let res = r.many(&mut o);
            ensure!(res.is_err(), "past-end", "{}: {:?} reader: request {} after the last point returned {} points", s.name(), kind, i, j);
            ch.step();
            ch.validated();
        }
        Ok(())
    }));
    Prop::new(v, &["streams from the reference encoder", "streams whose number of points is determined: layered, variable-size chunks, or full last chunk"])
}
