//! C14: failing, short and interrupted I/O.
use super::append::both;
use super::las::{las_file, LasSpec};
use super::readers::Stream;
use super::selection::same_selected;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use std::sync::{Arc, Mutex};

/// How the operations of a device are disturbed
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// any one operation (as many as the deviation budget allows) fails or is short
    Faults,
    /// every transfer is of at most that many bytes
    Short(usize),
    /// every transfer is first interrupted
    Interrupted,
    /// ... and then short
    Both(usize),
    /// seeking fails, always
    NoSeek,
}

pub const HARMLESS: [Mode; 5] = [Mode::Short(1), Mode::Short(2), Mode::Short(7), Mode::Interrupted, Mode::Both(1)];

#[derive(Default)]
struct State {
    ops: usize,
    /// an error was reported by the device since the last call began
    fired: Option<String>,
    any: bool,
    last: Option<(&'static str, usize)>,
}

#[derive(Clone)]
pub struct Faulty {
    st: Arc<Mutex<State>>,
    pub mode: Mode,
}

pub enum Called<T> {
    Done(T),
    /// the call reported the error of the device
    Refused,
}

impl Faulty {
    pub fn new(mode: Mode) -> Faulty {
        Faulty { st: Default::default(), mode }
    }
    pub fn hook(&self, ch: &Ch) -> Hook {
        let st = self.st.clone();
        let ch = ch.clone();
        let mode = self.mode;
        Arc::new(move |op, n| {
            let mut st = st.lock().unwrap();
            st.ops += 1;
            let transfer = n > 0 && (op == "read" || op == "write");
            match mode {
                Mode::Short(k) => Verdict::Short(k),
                Mode::NoSeek if op.starts_with("seek") => {
                    st.fired = Some("seeking does not work".into());
                    Verdict::Error
                }
                Mode::NoSeek => Verdict::Normal,
                Mode::Interrupted | Mode::Both(_) => {
                    // a transfer that is tried again is not interrupted again
                    if transfer && st.last != Some((op, n)) {
                        st.last = Some((op, n));
                        return Verdict::Interrupted;
                    }
                    st.last = None;
                    if let Mode::Both(k) = mode {
                        Verdict::Short(k)
                    } else {
                        Verdict::Normal
                    }
                }
                Mode::Faults => {
                    let kinds: &[Verdict] = match op {
                        "read" if n > 0 => &[Verdict::Normal, Verdict::Error, Verdict::Short(1), Verdict::Interrupted],
                        "write" if n > 1 => &[Verdict::Normal, Verdict::Error, Verdict::Short(1), Verdict::Interrupted, Verdict::Zero, Verdict::PartialError(1), Verdict::PartialError(n - 1)],
                        "write" if n > 0 => &[Verdict::Normal, Verdict::Error, Verdict::Interrupted, Verdict::Zero],
                        "read" | "write" => &[Verdict::Normal],
                        _ => &[Verdict::Normal, Verdict::Error],
                    };
                    let v = kinds[ch.deviate(kinds.len())];
                    if v != Verdict::Normal {
                        st.any = true;
                        let at = st.ops;
                        ch.note(|| format!("operation {} of the device ({} of {} bytes): {:?}", at, op, n, v));
                        if matches!(v, Verdict::Error | Verdict::Zero | Verdict::PartialError(_)) {
                            st.fired = Some(format!("operation {} of the device ({} of {} bytes) ended with {:?}", at, op, n, v));
                        }
                    }
                    v
                }
            }
        })
    }
    /// an error was reported, or transfers were disturbed, at any time
    pub fn any(&self) -> bool {
        self.st.lock().unwrap().any
    }
    /// Runs one call of the library
    pub fn call<T>(&self, what: &str, f: impl FnOnce() -> R<T>) -> Result<Called<T>, Fail> {
        let r = self.attempt(what, f)?;
        match (r, self.fired()) {
            (Ok(v), None) => Ok(Called::Done(v)),
            (Err(_), Some(_)) => Ok(Called::Refused),
            (Ok(_), Some(w)) => fail("swallowed", format!("{} reports success although {}", what, w)),
            (Err(e), None) => fail("error-without-failure", format!("{} reports an error although no operation of the device failed: {}", what, e)),
        }
    }
    /// A call that may get over an error of the device
    pub fn lenient<T>(&self, what: &str, f: impl FnOnce() -> R<T>) -> Result<Called<T>, Fail> {
        match (self.attempt(what, f)?, self.fired()) {
            (Ok(v), _) => Ok(Called::Done(v)),
            (Err(_), Some(_)) => Ok(Called::Refused),
            (Err(e), None) => fail("error-without-failure", format!("{} reports an error although no operation of the device failed: {}", what, e)),
        }
    }
    /// A call that only has to end
    pub fn attempt<T>(&self, what: &str, f: impl FnOnce() -> R<T>) -> Result<R<T>, Fail> {
        self.st.lock().unwrap().fired = None;
        match guarded(f) {
            Ok(r) => Ok(r),
            Err(p) => fail("panic", format!("{} panics: {} ({:?})", what, p, self.fired())),
        }
    }
    pub fn fired(&self) -> Option<String> {
        self.st.lock().unwrap().fired.clone()
    }
}

macro_rules! done {
    ($e:expr) => {
        match $e? {
            Called::Done(v) => v,
            Called::Refused => return Ok(()),
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Feed {
    Ones,
    Many,
    /// 1 then the others
    Split,
}

/// A writer of fixed-size chunks, a writer of variable-size chunks, with every kind of call
fn write_with(ch: &Ch, l: &Lay, mode: Mode, kind: Kind, variable: bool, n: usize, c: usize, start: usize) -> Res {
    let ps = l.size();
    let fa = Faulty::new(mode);
    let cp = chunk_param(variable, c);
    let d = Disk::new(junk(start), start as u64).hooked(fa.hook(ch));
    let reserve = ch.flag();
    let pts = l.range(0, n);
    let what = format!("{} {:?} writer variable {} chunks of {}", l.name, kind, variable, c);
    ch.note(|| what.clone());
    let mut w = done!(fa.call(&format!("{}: new", what), || Wr::new(kind, d, l.vlr(cp))));
    if reserve {
        done!(fa.call(&format!("{}: reserve_offset_to_chunk_table", what), || w.reserve(Via::Inherent)));
    }
    let mut chunks = fixed(n, c);
    if !variable {
        match ch.of(&[Feed::Ones, Feed::Many, Feed::Split]) {
            Feed::Ones => {
                for p in pts.chunks(ps) {
                    done!(fa.call(&format!("{}: compress_one", what), || w.one(Via::Trait, p)));
                }
            }
            Feed::Many => done!(fa.call(&format!("{}: compress_many", what), || w.many(Via::Inherent, &pts))),
            Feed::Split => {
                let (a, b) = pts.split_at(ps.min(pts.len()));
                done!(fa.call(&format!("{}: compress_many", what), || w.many(Via::Inherent, a)));
                done!(fa.call(&format!("{}: compress_many", what), || w.many(Via::Trait, b)));
            }
        }
    } else if kind == Kind::Seq && ch.flag() {
        for r in &chunks {
            done!(fa.call(&format!("{}: compress_many", what), || w.many(Via::Inherent, &l.range(r.0, r.1))));
            done!(fa.call(&format!("{}: finish_current_chunk", what), || w.finish()));
        }
    } else {
        let data: Vec<_> = chunks.iter().map(|r| l.range(r.0, r.1)).collect();
        if ch.flag() {
            done!(fa.call(&format!("{}: compress_chunks", what), || w.chunks(data)));
        } else {
            for d in data {
                done!(fa.call(&format!("{}: compress_chunks", what), || w.chunks(vec![d])));
            }
        }
    }
    chunks.retain(|r| r.0 < r.1);
    done!(fa.call(&format!("{}: done", what), || w.done(Via::Inherent)));
    let f = w.into_inner().cur.into_inner();
    ch.step();
    let want = file(l, &chunks, variable, start);
    ensure!(f == want, "wrong-bytes", "{}: all calls reported success, but the stream is not right: {}", what, diff(&f, &want));
    ch.outcome(&f);
    Ok(())
}

fn append_with(ch: &Ch, l: &Lay, mode: Mode, kind: Kind, variable: bool, n: usize, m: usize, c: usize, start: usize) -> Res {
    let fa = Faulty::new(mode);
    let cp = chunk_param(variable, c);
    let d = Disk::new(file(l, &fixed(n, c), variable, start), start as u64).hooked(fa.hook(ch));
    let what = format!("{} {:?} appender variable {} chunks of {}, {} points and {} more", l.name, kind, variable, c, n, m);
    ch.note(|| what.clone());
    let mut w = done!(fa.call(&format!("{}: new", what), || Wr::append(kind, d, l.vlr(cp), n as u64)));
    let add = l.range(n, n + m);
    if variable && (kind == Kind::Par || ch.flag()) {
        done!(fa.call(&format!("{}: compress_chunks", what), || w.chunks(vec![add])));
    } else {
        done!(fa.call(&format!("{}: compress_many", what), || w.many(Via::Inherent, &add)));
    }
    done!(fa.call(&format!("{}: done", what), || w.done(Via::Inherent)));
    let f = w.into_inner().cur.into_inner();
    ch.step();
    if variable {
        must_read(ch, l, cp, &f, start as u64, Kind::Seq, &l.range(0, n + m))?;
        must_read(ch, l, cp, &f, start as u64, Kind::Par, &l.range(0, n + m))?;
    } else {
        let want = file(l, &fixed(n + m, c), false, start);
        ensure!(f == want, "wrong-bytes", "{}: all calls reported success, but the stream is not right: {}", what, diff(&f, &want));
    }
    ch.outcome(&f);
    Ok(())
}

/// `moved`: the offset field holds -1 and the offset is at the end of the file
pub fn moved(mut f: Vec<u8>, start: usize) -> Vec<u8> {
    let o = f[start..start + 8].to_vec();
    f.extend(o);
    f[start..start + 8].copy_from_slice(&(-1i64).to_le_bytes());
    f
}

fn read_with(ch: &Ch, s: &Stream, mode: Mode, kind: Kind, at_end: bool) -> Res {
    let (l, n) = (&s.l, s.n());
    let ps = l.size();
    let f = if at_end { moved(s.file(), s.start) } else { s.file() };
    let pts = l.range(0, n);
    let fa = Faulty::new(mode);
    let what = format!("{:?} reader of {}{}", kind, s.name(), if at_end { ", offset at the end" } else { "" });
    ch.note(|| what.clone());
    let d = Disk::new(f, s.start as u64).hooked(fa.hook(ch));
    // without a table, the sequential reader does what it can
    let tableless = kind == Kind::Seq && (!s.variable || l.layered());
    let mut r = if kind == Kind::Seq {
        done!(fa.lenient(&format!("{}: new", what), || Rd::new(kind, d, l.vlr(s.cp()))))
    } else {
        done!(fa.call(&format!("{}: new", what), || Rd::new(kind, d, l.vlr(s.cp()))))
    };
    let no_table = tableless && fa.fired().is_some();
    if no_table && s.gaps.is_some() {
        // nothing tells where the bytes of chunks without points are
        return Ok(());
    }
    let plan: &[i64] = match ch.choose(4) {
        // negative: read that many points; positive: seek
        0 => &[-100],
        1 => &[-1, -1, -1, -100],
        2 => &[-2, 1, -1, 3, -100],
        _ => &[2, -100, 0, -100],
    };
    let mut at = Some(0usize);
    let mut todo: std::collections::VecDeque<i64> = plan.iter().copied().collect();
    let mut recovered = 0;
    while let Some(op) = todo.pop_front() {
        let failed = if op < 0 {
            let k = ((-op) as usize).min(n - at.unwrap());
            let from = at.unwrap();
            let mut out = vec![0x5Au8; k * ps];
            match fa.call(&format!("{}: {} points from {}", what, k, from), || if k == 1 { r.one(&mut out) } else { r.many(&mut out) })? {
                Called::Done(()) => {
                    same_points(l, &out, &pts[from * ps..(from + k) * ps], from)?;
                    at = Some(from + k);
                    false
                }
                Called::Refused => true,
            }
        } else {
            let to = (op as usize).min(n);
            if no_table {
                // the reader says so, or has a table all the same
                match fa.attempt(&format!("{}: seek to {}", what, to), || r.seek(to as u64))? {
                    Ok(()) => at = Some(to),
                    // nothing was done
                    Err(_) if fa.fired().is_none() => {}
                    Err(_) => return Ok(()),
                }
                continue;
            }
            match fa.call(&format!("{}: seek to {}", what, to), || r.seek(to as u64))? {
                Called::Done(()) => {
                    at = Some(to);
                    false
                }
                Called::Refused => true,
            }
        };
        if failed {
            if no_table {
                return Ok(());
            }
            // only a seek says where we are
            recovered += 1;
            if recovered > 3 {
                return Ok(());
            }
            todo.clear();
            todo.extend([*ch.of(&[0i64, 1, 2]), -1, -100]);
        }
    }
    ch.step();
    ch.outcome(format!("{:?}", at).as_bytes());
    Ok(())
}

pub fn c14(th: bool) -> Prop {
    let mut v = vec![];
    let budget = if th { 2 } else { 1 };
    let some = move || if th { vec![lay(0, 2, 0), lay(1, 1, 1), lay(3, 2, 2), lay(6, 3, 0), lay(7, 3, 2), lay(10, 4, 1)] } else { vec![lay(0, 2, 0), lay(3, 1, 2), lay(6, 3, 0), lay(10, 4, 1)] };
    let wide = move || if th { all_formats(&[0, 2]) } else { some() };
    for (name, modes, b) in [("one operation fails", vec![Mode::Faults], budget), ("short and interrupted transfers", HARMLESS.to_vec(), 0)] {
        let faults = b > 0;
        let ls = Arc::new(if faults { some() } else { wide() });
        let m2 = modes.clone();
        let l2 = ls.clone();
        v.push(
            Scenario::new(format!("writers: {}", name), move |ch| {
                let l = ch.of(&l2[..]);
                let mode = *ch.of(&m2);
                let (kind, variable) = (*ch.of(&both()), ch.flag());
                let (n, c) = *ch.of(&[(3usize, 2usize), (2, 2), (0, 1), (1, 1), (4, 1)]);
                write_with(ch, l, mode, kind, variable, n, c, 5)
            })
            .with_budget(b),
        );
        let (m2, l2) = (modes.clone(), ls.clone());
        v.push(
            Scenario::new(format!("one-shot writers: {}", name), move |ch| {
                let l = ch.of(&l2[..]);
                let mode = *ch.of(&m2);
                let (n, c) = *ch.of(&[(3usize, 2usize), (2, 1), (0, 1), (1, 3)]);
                let fa = Faulty::new(mode);
                let mut d = Disk::new(junk(5), 5).hooked(fa.hook(ch));
                let pts = l.range(0, n);
                let mut want = file(l, &fixed(n, c), false, 5);
                let which = ch.choose(3);
                let what = ["compress_buffer", "par_compress_buffer", "par_compress"][which];
                ch.note(|| format!("{} {} of {} points in chunks of {}", l.name, what, n, c));
                let table = match which {
                    0 => done!(fa.call(what, || laz::laszip::compress_buffer(&mut d, &pts, l.vlr(c as u32)).map(|_| None).map_err(stable))),
                    1 => done!(fa.call(what, || laz::laszip::parallel::par_compress_buffer(&mut d, &pts, &l.vlr(c as u32)).map(|_| None).map_err(stable))),
                    _ => Some(done!(fa.call(what, || laz::laszip::parallel::par_compress(&mut d, &pts, &l.vlr(c as u32)).map_err(stable)))),
                };
                if let Some(t) = table {
                    // only the chunks
                    let total: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
                    want = [&junk(5)[..], &want[13..13 + total as usize]].concat();
                }
                let f = d.cur.into_inner();
                ch.step();
                ensure!(f == want, "wrong-bytes", "{} {}: success was reported, but the stream is not right: {}", l.name, what, diff(&f, &want));
                ch.outcome(&f);
                Ok(())
            })
            .with_budget(b),
        );
        let (m2, l2) = (modes.clone(), ls.clone());
        v.push(
            Scenario::new(format!("appenders: {}", name), move |ch| {
                let l = ch.of(&l2[..]);
                let mode = *ch.of(&m2);
                let (kind, variable) = (*ch.of(&both()), ch.flag());
                let (n, m, c) = *ch.of(&[(3usize, 2usize, 2usize), (2, 1, 2), (0, 1, 1), (1, 0, 1), (3, 1, 4)]);
                append_with(ch, l, mode, kind, variable, n, m, c, 5)
            })
            .with_budget(b),
        );
        let (m2, l2) = (modes.clone(), ls.clone());
        v.push(
            Scenario::new(format!("readers: {}", name), move |ch| {
                let l = ch.of(&l2[..]);
                let mode = *ch.of(&m2);
                let kind = *ch.of(&both());
                let shape = ch.choose(5);
                let at_end = ch.flag();
                let s = match shape {
                    0 => Stream::fixed(l.clone(), 5, 2, 3),
                    1 => Stream::fixed(l.clone(), 4, 2, 0),
                    2 => Stream::variable(l.clone(), &[2, 1, 2], 3),
                    3 => Stream::gaps(l.clone(), &[0, 2, 0, 2, 0], 3),
                    _ => Stream::fixed(l.clone(), 3, 50, 0),
                };
                read_with(ch, &s, mode, kind, at_end)
            })
            .with_budget(b),
        );
        let (m2, l2) = (modes.clone(), ls.clone());
        v.push(
            Scenario::new(format!("file reader: {}", name), move |ch| {
                let l = ch.of(&l2[..]);
                let mode = *ch.of(&m2);
                let laz = ch.flag();
                let spec = LasSpec { before: 1, after: 1, header_extra: 2, gap: 3, ..LasSpec::new(l, 3, if laz { Some(fixed(3, 2)) } else { None }, 2, ch.flag()) };
                let points = l.range(0, 3);
                let f = las_file(&spec);
                let fa = Faulty::new(mode);
                let d = Disk::new(f, 0).hooked(fa.hook(ch));
                // the decompressor does without its table, except for variable-size chunks of the older formats
                let what = format!("SimpleReader of {}{}", l.name, if laz { " compressed" } else { "" });
                let mut r = done!(fa.lenient(&format!("{}: new", what), || laz::las::file::SimpleReader::new(d).map_err(stable)));
                ensure!(laz || fa.fired().is_none(), "swallowed", "{}: new reports success although {:?}", what, fa.fired());
                let ps = l.size();
                if ch.flag() {
                    let mut buf = vec![];
                    let n = done!(fa.call(&format!("{}: read_to_end", what), || r.read_to_end(&mut buf).map_err(stable)));
                    ensure!(n == 3, "count", "{}: read_to_end says it read {} points", what, n);
                    same_points(l, &buf, &points, 0)?;
                } else {
                    for i in 0..3 {
                        let p = done!(fa.call(&format!("{}: read_next", what), || match r.read_next() {
                            None => Err("no more points".into()),
                            Some(p) => p.map(|p| p.to_vec()).map_err(stable),
                        }));
                        same_points(l, &p, &points[i * ps..(i + 1) * ps], i)?;
                    }
                    ensure!(r.read_next().is_none(), "count", "{}: more points than there are", what);
                }
                ch.step();
                Ok(())
            })
            .with_budget(b),
        );
    }
    // layers that are not selected are passed over, by seeking or by reading
    let ls = Arc::new(vec![lay(6, 3, 0), lay(10, 4, 1)]);
    v.push(
        Scenario::new("selective readers: one operation fails, or seeking never works", move |ch| {
            let l = ch.of(&ls[..]);
            let sel = *ch.of(&[0u32, !0, 1 << 7, !(1 << 7), 1 << 10 | 1]);
            let kind = *ch.of(&both());
            let s = if ch.flag() { Stream::variable(l.clone(), &[2, 1], 0) } else { Stream::fixed(l.clone(), 3, 2, 0) };
            let mode = *ch.of(&[Mode::Faults, Mode::Short(1), Mode::Both(1), Mode::NoSeek]);
            if mode == Mode::NoSeek && kind == Kind::Par {
                return Ok(());
            }
            let fa = Faulty::new(mode);
            let what = format!("{:?} reader of {}, selection {:#x}", kind, s.name(), sel);
            ch.note(|| what.clone());
            let d = Disk::new(s.file(), 0).hooked(fa.hook(ch));
            let mut r = done!(fa.lenient(&format!("{}: new", what), || Rd::selective(kind, d, l.vlr(s.cp()), laz::DecompressionSelection(sel))));
            let mut out = vec![0x5A; 3 * l.size()];
            let (a, b) = out.split_at_mut(l.size());
            done!(fa.lenient(&format!("{}: first point", what), || r.one(a)));
            done!(fa.lenient(&format!("{}: other points", what), || r.many(b)));
            ch.step();
            same_selected(l, sel, &out, &l.range(0, 3), 0)
        })
        .with_budget(budget),
    );
    // a reader that is used on after a failed call does not deliver points of its own making
    let ls = Arc::new(some());
    let l2 = ls.clone();
    v.push(
        Scenario::new("readers: reading goes on after an operation failed", move |ch| {
            let l = ch.of(&l2[..]);
            let kind = *ch.of(&both());
            let s = match ch.choose(4) {
                0 => Stream::fixed(l.clone(), 5, 2, 3),
                1 => Stream::fixed(l.clone(), 3, 50, 0),
                2 => Stream::gaps(l.clone(), &[0, 2, 0, 2, 0], 3),
                _ => Stream::variable(l.clone(), &[2, 1, 2], 0),
            };
            let (n, ps) = (s.n(), l.size());
            let fa = Faulty::new(Mode::Faults);
            let what = format!("{:?} reader of {}", kind, s.name());
            ch.note(|| what.clone());
            let d = Disk::new(s.file(), s.start as u64).hooked(fa.hook(ch));
            let mut r = match fa.attempt(&format!("{}: new", what), || Rd::new(kind, d, l.vlr(s.cp())))? {
                Ok(r) if fa.fired().is_none() => r,
                // refused, or without a table
                _ => return Ok(()),
            };
            let plan: &[i64] = *ch.of(&[&[-1i64, -1, -1, -1, -1, -1, -1][..], &[-2, -1, -2, -1, -1, -1, -1], &[-5, -1, -1, -1], &[-1, 3, -1, -1, -1], &[2, -1, -2, -1, -1]]);
            // where the reader may be: known until a call fails
            let mut at = vec![0usize];
            let mut failed = false;
            for &op in plan {
                if op < 0 {
                    let k = -op as usize;
                    let mut out = vec![0x5A; k * ps];
                    let w = format!("{}: {} points", what, k);
                    match fa.attempt(&w, || if k == 1 { r.one(&mut out) } else { r.many(&mut out) })? {
                        Ok(()) => {
                            ensure!(fa.fired().is_none(), "swallowed", "{} reports success although {:?}", w, fa.fired());
                            let before = at.clone();
                            at.retain(|&a| a + k <= n && same_points(l, &out, &l.range(a, a + k), a).is_ok());
                            if at.is_empty() && !failed && before[0] + k > n && !s.determined() {
                                return Ok(());
                            }
                            ensure!(!at.is_empty(), "made-up", "{}: success, {}, but these are not the points from {:?}", w, if failed { "after a failed call" } else { "no call failed" }, before);
                            at.iter_mut().for_each(|a| *a += k);
                        }
                        Err(e) => {
                            ensure!(failed || fa.fired().is_some() || at[0] + k > n, "error-without-failure", "{} reports an error although no operation of the device failed: {}", w, e);
                            failed = true;
                            at = (at[0]..=*at.last().unwrap() + k).collect();
                        }
                    }
                } else {
                    let to = (op as usize).min(n);
                    match fa.attempt(&format!("{}: seek to {}", what, to), || r.seek(to as u64))? {
                        Ok(()) => {
                            at = vec![to];
                            failed = false;
                        }
                        Err(_) => {
                            at.push(to);
                            at.sort();
                            failed = true;
                        }
                    }
                }
                ch.step();
            }
            ch.validated();
            Ok(())
        })
        .with_budget(budget),
    );
    let l2 = ls.clone();
    v.push(
        Scenario::new("file reader: reading goes on after an operation failed", move |ch| {
            let l = ch.of(&l2[..]);
            let spec = LasSpec { before: 1, header_extra: 2, gap: 3, ..LasSpec::new(l, 4, if ch.flag() { Some(fixed(4, 2)) } else { None }, 2, ch.flag()) };
            let points = l.range(0, 4);
            let ps = l.size();
            let fa = Faulty::new(Mode::Faults);
            let d = Disk::new(las_file(&spec), 0).hooked(fa.hook(ch));
            let mut r = match fa.attempt("SimpleReader::new", || laz::las::file::SimpleReader::new(d).map_err(stable))? {
                Ok(r) => r,
                Err(_) => return Ok(()),
            };
            let mut at = vec![0usize];
            for i in 0..6 {
                let p = fa.attempt("SimpleReader::read_next", || match r.read_next() {
                    None => Ok(None),
                    Some(p) => p.map(|p| Some(p.to_vec())).map_err(stable),
                })?;
                match p {
                    Ok(Some(p)) => {
                        ensure!(fa.fired().is_none(), "swallowed", "read_next reports success although {:?}", fa.fired());
                        let before = at.clone();
                        at.retain(|&a| a < 4 && p == points[a * ps..(a + 1) * ps]);
                        ensure!(!at.is_empty(), "made-up", "{}: call {} of read_next does not return a point from {:?}", l.name, i, before);
                        at.iter_mut().for_each(|a| *a += 1);
                    }
                    Ok(None) => break,
                    Err(_) => at = (at[0]..=*at.last().unwrap() + 1).collect(),
                }
                ch.step();
            }
            ch.validated();
            Ok(())
        })
        .with_budget(budget),
    );
    // the same with worker threads
    let ls = Arc::new(vec![lay(0, 2, 0), lay(6, 3, 1)]);
    v.push(
        Scenario::new("parallel users with worker threads: one operation fails", move |ch| {
            let l = ch.of(&ls[..]);
            let write = ch.choose(3);
            let variable = ch.flag();
            let ch2 = ch.clone();
            pool(ch, 2, false, move || match write {
                0 => write_with(&ch2, l, Mode::Faults, Kind::Par, variable, 4, 1, 0),
                1 => append_with(&ch2, l, Mode::Faults, Kind::Par, variable, 2, 3, 1, 0),
                _ => read_with(&ch2, &if variable { Stream::variable(l.clone(), &[2, 1, 1], 0) } else { Stream::fixed(l.clone(), 4, 1, 0) }, Mode::Faults, Kind::Par, false),
            })?
        })
        .with_budget(budget),
    );
    Prop::new(
        v,
        &["a failing operation reports an error and transfers nothing, one byte, or all but one byte; operations after it work", "writers are not used after a call that failed; readers are, with a seek or without"],
    )
}
