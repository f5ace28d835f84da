//! Drivers for whole streams: writers, readers, expected bytes.
use crate::engine::*;
use crate::io::*;
use crate::lay::*;
use crate::refc;
use laz::las::selective::DecompressionSelection;
use laz::laszip::{ChunkTable, LazCompressor, LazDecompressor};
use laz::{LasZipAppender, LasZipCompressor, LasZipDecompressor, LazVlr, ParLasZipAppender, ParLasZipCompressor, ParLasZipDecompressor};
use rayon_core::mc::visible;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// points `from..to` of a layout's fixed point sequence
pub type Rng = (usize, usize);

/// Reference encoding of one chunk (memoised)
pub fn enc(l: &Lay, r: Rng) -> Arc<Vec<u8>> {
    rayon_core::mc::atomic(|| enc_(l, r))
}
fn enc_(l: &Lay, r: Rng) -> Arc<Vec<u8>> {
    static M: OnceLock<Mutex<HashMap<(String, Rng), Arc<Vec<u8>>>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(b) = m.lock().unwrap().get(&(l.name.clone(), r)) {
        return b.clone();
    }
    let b = Arc::new(refc::encode_chunk(&l.l, &l.range(r.0, r.1)));
    m.lock().unwrap().insert((l.name.clone(), r), b.clone());
    b
}

/// The LASzip stream whose chunks are the given point ranges (empty ones are not chunks)
pub fn expect(l: &Lay, chunks: &[Rng], variable: bool, start: u64) -> Vec<u8> {
    expect_gaps(l, chunks, variable, start, None)
}

/// `gaps`: chunks without points are recorded, with that many bytes
pub fn expect_gaps(l: &Lay, chunks: &[Rng], variable: bool, start: u64, gaps: Option<usize>) -> Vec<u8> {
    rayon_core::mc::atomic(|| expect_(l, chunks, variable, start, gaps))
}
fn expect_(l: &Lay, chunks: &[Rng], variable: bool, start: u64, gaps: Option<usize>) -> Vec<u8> {
    let mut body = vec![];
    let mut table = vec![];
    for r in chunks {
        if r.0 == r.1 {
            if let Some(g) = gaps {
                table.push((0, g as u32));
                body.extend(vec![0; g]);
            }
            continue;
        }
        let b = enc(l, *r);
        table.push(((r.1 - r.0) as u32, b.len() as u32));
        body.extend_from_slice(&b);
    }
    let mut out = (start as i64 + 8 + body.len() as i64).to_le_bytes().to_vec();
    out.extend(body);
    out.extend(refc::encode_table(&table, variable));
    out
}

/// fixed-size chunks of `n` points
pub fn fixed(n: usize, c: usize) -> Vec<Rng> {
    let mut v = vec![];
    let mut k = 0;
    while k < n {
        v.push((k, (k + c).min(n)));
        k += c;
    }
    v
}

/// chunks from their sizes
pub fn parts(sizes: &[usize]) -> Vec<Rng> {
    let mut k = 0;
    sizes
        .iter()
        .map(|s| {
            k += s;
            (k - s, k)
        })
        .collect()
}

/// A file: `start` bytes of something else and then the stream
pub fn file(l: &Lay, chunks: &[Rng], variable: bool, start: usize) -> Vec<u8> {
    let mut f = junk(start);
    f.extend(expect(l, chunks, variable, start as u64));
    f
}

pub fn junk(n: usize) -> Vec<u8> {
    (0..n).map(|i| 0xC3 ^ (i * 7) as u8).collect()
}

pub fn stable(e: impl std::fmt::Display) -> String {
    e.to_string()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Inherent,
    Trait,
}

pub enum Wr {
    Seq(LasZipCompressor<'static, Disk>),
    Par(ParLasZipCompressor<Disk>),
    SeqApp(LasZipAppender<'static, Disk>),
    ParApp(ParLasZipAppender<Disk>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Seq,
    Par,
}

pub type R<T> = Result<T, String>;

impl Wr {
    pub fn new(k: Kind, d: Disk, vlr: LazVlr) -> R<Wr> {
        visible(|| {
            Ok(match k {
                Kind::Seq => Wr::Seq(LasZipCompressor::new(d, vlr).map_err(stable)?),
                Kind::Par => Wr::Par(ParLasZipCompressor::new(d, vlr).map_err(stable)?),
            })
        })
    }
    pub fn append(k: Kind, d: Disk, vlr: LazVlr, count: u64) -> R<Wr> {
        visible(|| {
            Ok(match k {
                Kind::Seq => Wr::SeqApp(LasZipAppender::new(d, vlr, count).map_err(stable)?),
                Kind::Par => Wr::ParApp(ParLasZipAppender::new(d, vlr, count).map_err(stable)?),
            })
        })
    }
    pub fn one(&mut self, via: Via, p: &[u8]) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) if via == Via::Inherent => w.compress_one(p).map_err(stable),
            Wr::Seq(w) => LazCompressor::compress_one(w, p).map_err(stable),
            Wr::Par(w) if via == Via::Inherent => w.compress_many(p).map_err(stable),
            Wr::Par(w) => LazCompressor::compress_one(w, p).map_err(stable),
            Wr::SeqApp(w) => w.compress_one(p).map_err(stable),
            Wr::ParApp(w) => w.compress_many(p).map_err(stable),
        })
    }
    pub fn many(&mut self, via: Via, p: &[u8]) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) if via == Via::Inherent => w.compress_many(p).map_err(stable),
            Wr::Seq(w) => LazCompressor::compress_many(w, p).map_err(stable),
            Wr::Par(w) if via == Via::Inherent => w.compress_many(p).map_err(stable),
            Wr::Par(w) => LazCompressor::compress_many(w, p).map_err(stable),
            Wr::SeqApp(w) => w.compress_many(p).map_err(stable),
            Wr::ParApp(w) => w.compress_many(p).map_err(stable),
        })
    }
    pub fn chunks(&mut self, c: Vec<Vec<u8>>) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) => w.compress_chunks(c).map_err(stable),
            Wr::Par(w) => w.compress_chunks(c).map_err(stable),
            Wr::SeqApp(w) => w.compress_chunks(c).map_err(stable),
            Wr::ParApp(w) => w.compress_chunks(c).map_err(stable),
        })
    }
    pub fn finish(&mut self) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) => w.finish_current_chunk().map_err(stable),
            Wr::SeqApp(w) => w.finish_current_chunk().map_err(stable),
            _ => panic!("parallel writers have no finish_current_chunk"),
        })
    }
    pub fn reserve(&mut self, via: Via) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) if via == Via::Inherent => w.reserve_offset_to_chunk_table().map_err(stable),
            Wr::Seq(w) => LazCompressor::reserve_offset_to_chunk_table(w).map_err(stable),
            Wr::Par(w) if via == Via::Inherent => w.reserve_offset_to_chunk_table().map_err(stable),
            Wr::Par(w) => LazCompressor::reserve_offset_to_chunk_table(w).map_err(stable),
            _ => Ok(()),
        })
    }
    pub fn done(&mut self, via: Via) -> R<()> {
        visible(|| match self {
            Wr::Seq(w) if via == Via::Inherent => w.done().map_err(stable),
            Wr::Seq(w) => LazCompressor::done(w).map_err(stable),
            Wr::Par(w) if via == Via::Inherent => w.done().map_err(stable),
            Wr::Par(w) => LazCompressor::done(w).map_err(stable),
            Wr::SeqApp(w) => w.done().map_err(stable),
            Wr::ParApp(w) => w.done().map_err(stable),
        })
    }
    pub fn inner_mut(&mut self) -> &mut Disk {
        match self {
            Wr::Seq(w) => w.get_mut(),
            Wr::Par(w) => w.get_mut(),
            Wr::SeqApp(w) => w.get_mut(),
            Wr::ParApp(w) => w.get_mut(),
        }
    }
    pub fn into_inner(self) -> Disk {
        visible(|| match self {
            Wr::Seq(w) => w.into_inner(),
            Wr::Par(w) => w.into_inner(),
            Wr::SeqApp(w) => w.into_inner(),
            Wr::ParApp(w) => w.into_inner(),
        })
    }
}

pub enum Rd {
    Seq(LasZipDecompressor<'static, Disk>),
    Par(ParLasZipDecompressor<Disk>),
}

impl Rd {
    pub fn new(k: Kind, d: Disk, vlr: LazVlr) -> R<Rd> {
        visible(|| {
            Ok(match k {
                Kind::Seq => Rd::Seq(LasZipDecompressor::new(d, vlr).map_err(stable)?),
                Kind::Par => Rd::Par(ParLasZipDecompressor::new(d, vlr).map_err(stable)?),
            })
        })
    }
    pub fn selective(k: Kind, d: Disk, vlr: LazVlr, s: DecompressionSelection) -> R<Rd> {
        visible(|| {
            Ok(match k {
                Kind::Seq => Rd::Seq(LasZipDecompressor::selective(d, vlr, s).map_err(stable)?),
                Kind::Par => Rd::Par(ParLasZipDecompressor::selective(d, vlr, s).map_err(stable)?),
            })
        })
    }
    pub fn one(&mut self, out: &mut [u8]) -> R<()> {
        visible(|| match self {
            Rd::Seq(r) => r.decompress_one(out).map_err(stable),
            Rd::Par(r) => LazDecompressor::decompress_one(r, out).map_err(stable),
        })
    }
    pub fn many(&mut self, out: &mut [u8]) -> R<()> {
        visible(|| match self {
            Rd::Seq(r) => r.decompress_many(out).map_err(stable),
            Rd::Par(r) => r.decompress_many(out).map_err(stable),
        })
    }
    /// the same through the trait
    pub fn many_dyn(&mut self, out: &mut [u8]) -> R<()> {
        visible(|| match self {
            Rd::Seq(r) => LazDecompressor::decompress_many(r, out).map_err(stable),
            Rd::Par(r) => LazDecompressor::decompress_many(r, out).map_err(stable),
        })
    }
    pub fn seek(&mut self, to: u64) -> R<()> {
        visible(|| match self {
            Rd::Seq(r) => r.seek(to).map_err(stable),
            Rd::Par(r) => r.seek(to).map_err(stable),
        })
    }
    pub fn seek_dyn(&mut self, to: u64) -> R<()> {
        visible(|| match self {
            Rd::Seq(r) => LazDecompressor::seek(r, to).map_err(stable),
            Rd::Par(r) => LazDecompressor::seek(r, to).map_err(stable),
        })
    }
    pub fn into_inner(self) -> Disk {
        visible(|| match self {
            Rd::Seq(r) => r.into_inner(),
            Rd::Par(r) => r.into_inner(),
        })
    }
}

pub fn chunk_param(variable: bool, c: usize) -> u32 {
    if variable {
        VARIABLE
    } else {
        c as u32
    }
}

/// Turns an unexpected error of the code into a failure
pub trait Must<T> {
    fn must(self, key: &str, what: impl FnOnce() -> String) -> Result<T, Fail>;
}
impl<T> Must<T> for R<T> {
    fn must(self, key: &str, what: impl FnOnce() -> String) -> Result<T, Fail> {
        match self {
            Ok(v) => Ok(v),
            Err(e) => fail(key, format!("{}: {}", what(), e)),
        }
    }
}

/// How rayon divides work that runs inline: as with one worker (jobs of several items) or as with
/// many (every item is a job).
pub fn division(ch: &Ch) {
    let n = *ch.of(&[1usize, 64]);
    ch.note(|| format!("divided as by {} workers", n));
    rayon_core::mc::set_inline_threads(n);
}

/// Runs `f` on a pool of `workers` controlled threads (0: inline, no pool). Every scheduling
/// decision is explored; `free` lists the labels whose decisions are all explored, the others cost
/// a deviation each.
pub fn pool<T>(ch: &Ch, workers: usize, free: bool, f: impl FnOnce() -> T) -> Result<T, Fail> {
    pool_alloc(ch, workers, free, false, f)
}
/// In the instrumented build, every operation that another thread can see is a point for a switch.
pub const VISIBLE: bool = cfg!(feature = "visible");
pub fn pool_alloc<T>(ch: &Ch, workers: usize, free: bool, alloc: bool, f: impl FnOnce() -> T) -> Result<T, Fail> {
    if workers == 0 {
        return Ok(f());
    }
    let c2 = ch.clone();
    let chooser: rayon_core::Chooser = Box::new(move |n, label| {
        if free && label != "alloc" && label != "io" && label != "op" {
            c2.choose(n)
        } else {
            c2.deviate(n)
        }
    });
    let (r, st) = rayon_core::mc::run_with(workers, chooser, alloc, VISIBLE, f);
    ch.steps(st.switches);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            fail("panic-in-pool", format!("panic under the pool: {}", m))
        }
    }
}

/// Reads everything front to back with the sequential reader, one bulk request, and compares.
pub fn must_read(ch: &Ch, l: &Lay, cp: u32, bytes: &[u8], start: u64, k: Kind, want: &[u8]) -> Res {
    let ps = l.size();
    let n = want.len() / ps;
    let mut r = Rd::new(k, Disk::new(bytes.to_vec(), start), l.vlr(cp)).must("reader-new", || format!("{} {:?} reader", l.name, k))?;
    let mut out = vec![0x5Au8; want.len()];
    if n > 0 {
        r.many(&mut out).must("read", || format!("{} {:?} reader, {} points", l.name, k, n))?;
    }
    ch.steps(1);
    same_points(l, &out, want, 0)
}

pub fn same_points(l: &Lay, got: &[u8], want: &[u8], first: usize) -> Res {
    if got != want {
        let ps = l.size();
        let d = first_diff(got, want);
        return fail(
            "points",
            format!(
                "{}: point {} comes back as {} instead of {}",
                l.name,
                first + d / ps,
                hex(&got[d / ps * ps..((d / ps + 1) * ps).min(got.len())]),
                hex(&want[d / ps * ps..((d / ps + 1) * ps).min(want.len())])
            ),
        );
    }
    Ok(())
}

pub fn table_of(l: &Lay, cp: u32, bytes: &[u8], start: u64) -> R<Vec<(u64, u64)>> {
    let mut c = std::io::Cursor::new(bytes);
    c.set_position(start);
    let t = ChunkTable::read_from(&mut c, &l.vlr(cp)).map_err(stable)?;
    Ok(t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect())
}
