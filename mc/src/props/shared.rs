//! The instrumented build (feature `visible`): what several threads share. All atomic operations and
//! all accesses to static memory by the code under test are points where the scheduler may switch
//! (C06, C07, C22).
use super::fresh::*;
use super::stream::*;
use super::Prop;
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use crate::refc;
use laz::las::selective::DecompressionSelection as Sel;
use rayon_core::mc::visible;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// The points that one chunk or stream needs to have
const CHUNK: usize = 12;

struct Case {
    l: Lay,
    pts: Vec<u8>,
    fixed: Vec<u8>,
    variable: Vec<u8>,
}

/// two chunks and a part of a third; points that leave the codecs in very different states
fn case(l: Lay) -> Case {
    let ps = l.size();
    let s = sequences(&l, 8);
    let get = |n: &str| s.iter().find(|x| x.0 == n).unwrap().1.clone();
    let pts = [get("times and channels"), get("noise")[..4 * ps].to_vec(), get("varied"), get("times and channels"), l.point(3).repeat(3)].concat();
    let c: Vec<&[u8]> = pts.chunks(CHUNK * ps).collect();
    let fixed = refc::encode_stream(&l.l, &c, false, 0);
    let (x, y) = (5 * ps, 20 * ps);
    let variable = refc::encode_stream(&l.l, &[&pts[..x], &pts[x..y], &pts[y..]], true, 0);
    Case { l, pts, fixed, variable }
}

fn same_bytes(l: &Lay, got: &[u8], want: &[u8]) -> Res {
    ensure!(got == want, "bytes", "{}: {}", l.name, diff(got, want));
    Ok(())
}

fn write(k: &Case, how: usize) -> Res {
    let what = || format!("{} way {}", k.l.name, how);
    let d = Disk::new(vec![], 0);
    let ps = k.l.size();
    let fixed = k.l.vlr(CHUNK as u32);
    match how {
        0 => {
            let mut w = Wr::new(Kind::Par, d, fixed).must("writer-new", what)?;
            w.many(Via::Inherent, &k.pts).must("compress", what)?;
            w.done(Via::Inherent).must("done", what)?;
            same_bytes(&k.l, &w.into_inner().cur.into_inner(), &k.fixed)
        }
        1 => {
            let mut w = Wr::new(Kind::Par, d, k.l.vlr(VARIABLE)).must("writer-new", what)?;
            w.chunks(vec![k.pts[..5 * ps].to_vec(), k.pts[5 * ps..20 * ps].to_vec(), k.pts[20 * ps..].to_vec()]).must("compress", what)?;
            w.done(Via::Inherent).must("done", what)?;
            same_bytes(&k.l, &w.into_inner().cur.into_inner(), &k.variable)
        }
        2 => {
            let mut d = d;
            visible(|| laz::par_compress_buffer(&mut d, &k.pts, &fixed).map_err(stable)).must("compress", what)?;
            same_bytes(&k.l, &d.cur.into_inner(), &k.fixed)
        }
        _ => {
            // appended to the first points
            let first = refc::encode_stream(&k.l.l, &[&k.pts[..3 * ps]], false, 0);
            let mut w = Wr::append(Kind::Par, Disk::new(first, 0), fixed, 3).must("append-new", what)?;
            w.many(Via::Inherent, &k.pts[3 * ps..]).must("compress", what)?;
            w.done(Via::Inherent).must("done", what)?;
            same_bytes(&k.l, &w.into_inner().cur.into_inner(), &k.fixed)
        }
    }
}

fn read(k: &Case, how: usize) -> Res {
    let what = || format!("{} way {}", k.l.name, how);
    let mut o = vec![0x5A; k.pts.len()];
    let (f, vlr) = if how & 1 == 0 { (&k.fixed, k.l.vlr(CHUNK as u32)) } else { (&k.variable, k.l.vlr(VARIABLE)) };
    match how / 2 {
        0 => Rd::new(Kind::Par, Disk::new(f.clone(), 0), vlr).must("reader-new", what)?.many(&mut o).must("read", what)?,
        _ => visible(|| laz::par_decompress_buffer(f, &mut o, &vlr).map_err(stable)).must("decompress", what)?,
    }
    same_points(&k.l, &o, &k.pts, 0)
}

fn parallel(th: bool, name: &str, hows: usize, f: fn(&Case, usize) -> Res) -> Prop {
    let ks: Arc<Vec<Case>> = Arc::new(all_formats(if th { &[0, 1, 3] } else { &[2] }).into_iter().map(case).collect());
    let s = Scenario::new(name, move |ch| {
        let k = ch.of(&ks[..]);
        let how = ch.choose(hows);
        let wk = 2 + ch.choose(if th { 2 } else { 1 });
        ch.note(|| format!("{} way {} {} workers", k.l.name, how, wk));
        // what is initialised on first use is
        f(k, how)?;
        pool(ch, wk, false, || f(k, how))??;
        ch.steps(2);
        ch.validated();
        Ok(())
    })
    .with_budget(if th { 3 } else { 1 });
    Prop::new(vec![s], &[])
}

fn c22(th: bool) -> Prop {
    let mut v = vec![];
    let ds: Arc<Vec<Deep>> = Arc::new(all_formats(if th { &[0, 1, 3] } else { &[2] }).into_iter().map(|l| Deep::new(l, 8)).collect());
    v.push(
        Scenario::new("two long streams on two threads, a switch at any visible operation", move |ch| {
            let d = ch.of(&ds[..]);
            let w = [ch.flag(), ch.flag()];
            ch.note(|| format!("{} {:?} writes", d.l.name, w));
            let run = |i: usize| -> Res {
                let mut u = rayon_core::mc::invisible(|| d.user(i, w[i]))?;
                let n = d.n();
                u.go(1)?;
                u.go(n - 1)?;
                u.end()
            };
            run(0)?;
            run(1)?;
            let (a, b) = pool(ch, 2, false, || rayon_core::join(|| run(0), || run(1)))?;
            a?;
            b?;
            ch.steps(4);
            ch.validated();
            Ok(())
        })
        .with_budget(if th { 2 } else { 1 }),
    );
    let ls = Arc::new(if th { vec![lay(3, 2, 1), lay(5, 1, 2), lay(7, 3, 1), lay(10, 4, 2)] } else { vec![lay(5, 2, 1), lay(10, 3, 1)] });
    v.push(
        Scenario::new("two streams of every kind on two threads, a switch at any visible operation", move |ch| {
            let l = ch.of(&ls[..]);
            let k = [ch.choose(ACTORS.len()), ch.choose(ACTORS.len())];
            ch.note(|| format!("{} {:?}", l.name, k.map(|k| ACTORS[k])));
            let run = |i: usize| -> Res {
                let mut a = actor(k[i], l, 10 * i, false);
                while !a()? {}
                Ok(())
            };
            run(0)?;
            run(1)?;
            let (a, b) = pool(ch, 2, false, || rayon_core::join(|| run(0), || run(1)))?;
            a?;
            b?;
            ch.steps(2);
            ch.validated();
            Ok(())
        })
        .with_budget(if th { 2 } else { 1 }),
    );
    let ks: Arc<Vec<Case>> = Arc::new(if th { all_formats(&[1]) } else { vec![lay(3, 2, 1), lay(7, 3, 1)] }.into_iter().map(case).collect());
    v.push(
        Scenario::new("two parallel calls on two threads, a switch at any visible operation", move |ch| {
            let k = ch.of(&ks[..]);
            let how = [ch.choose(9), ch.choose(9)];
            ch.note(|| format!("{} ways {:?}", k.l.name, how));
            let run = |i: usize| match how[i] {
                h @ 0..=3 => write(k, h),
                h @ 4..=7 => read(k, h - 4),
                _ => {
                    let what = || k.l.name.clone();
                    let mut o = vec![0x5A; k.pts.len()];
                    let s = Sel(Sel::RGB | Sel::INTENSITY);
                    Rd::selective(Kind::Par, Disk::new(k.fixed.clone(), 0), k.l.vlr(CHUNK as u32), s).must("new", what)?.many(&mut o).must("read", what)?;
                    super::selection::same_selected(&k.l, s.0, &o, &k.pts, 0)
                }
            };
            run(0)?;
            run(1)?;
            let (a, b) = pool(ch, 2, false, || rayon_core::join(|| run(0), || run(1)))?;
            a?;
            b?;
            ch.steps(2);
            ch.validated();
            Ok(())
        })
        .with_budget(if th { 2 } else { 1 }),
    );
    Prop::new(v, &[])
}

pub fn get(id: &str, th: bool) -> Option<Prop> {
    Some(match id {
        "C06" => parallel(th, "chunks written by several threads, a switch at any visible operation", 4, write),
        "C07" => parallel(th, "chunks read by several threads, a switch at any visible operation", 4, read),
        "C22" => c22(th),
        _ => return None,
    })
}

/// Does the instrumentation work? Lost updates of a static counter and a static cell, and a lock that
/// is held across a switch, have to be found.
pub fn works() -> bool {
    static A: AtomicU32 = AtomicU32::new(0);
    static mut B: u32 = 0;
    static C: Mutex<u32> = Mutex::new(0);
    let seen: Arc<Mutex<std::collections::BTreeSet<(u32, u32, u32)>>> = Default::default();
    let s2 = seen.clone();
    let s = Scenario::new("self test", move |ch| {
        fn job() {
            let a = A.load(SeqCst);
            A.store(a + 1, SeqCst);
            unsafe {
                let b = std::ptr::read_volatile(&raw const B);
                std::ptr::write_volatile(&raw mut B, b + 1);
            }
            let mut c = C.lock().unwrap();
            *c += 1;
        }
        A.store(0, SeqCst);
        unsafe { B = 0 };
        *C.lock().unwrap() = 0;
        pool(ch, 2, false, || rayon_core::join(|| visible(job), || visible(job)))?;
        s2.lock().unwrap().insert((A.load(SeqCst), unsafe { std::ptr::read_volatile(&raw const B) }, *C.lock().unwrap()));
        Ok(())
    })
    .with_budget(2);
    let cfg = Config {
        threads: 1,
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(60),
        hang: std::time::Duration::from_secs(60),
        collect: false,
        known: vec![],
        slots: None,
        give_up: || false,
        share: None,
        slot0: 0,
    };
    let (st, v) = explore(&[s], &cfg);
    let seen = seen.lock().unwrap();
    let want = [(2, 2, 2), (1, 2, 2), (2, 1, 2)];
    let ok = v.is_none() && st.diverged == 0 && !st.capped && want.iter().all(|w| seen.contains(w)) && seen.iter().all(|s| s.2 == 2);
    println!("instrumentation: {} executions, {} choices, outcomes {:?}", st.executions, st.choice_points, seen);
    ok
}
