//! C04: the integer coder is lossless for every width, context and value.
use super::Prop;
use crate::engine::*;
use crate::refc::coder as rc;
use laz::compressors::IntegerCompressor;
use laz::decoders::ArithmeticDecoder;
use laz::decompressors::IntegerDecompressor;
use laz::encoders::ArithmeticEncoder;
use std::io::Cursor;

#[derive(Clone, Copy, Debug)]
pub struct Conf {
    pub bits: u32,
    pub contexts: u32,
    pub high: u32,
    pub range: u32,
}

/// (prediction, value, context)
pub type Step = (i32, i32, u32);

pub fn run(ch: &Ch, c: Conf, prog: &[Step]) -> Res {
    let key = "int";
    let mut ic = IntegerCompressor::new(c.bits, c.contexts, c.high, c.range);
    ic.init();
    let mut rf = rc::IntCoder::full(c.bits, c.contexts, c.high, c.range);
    let mut e = ArithmeticEncoder::new(Vec::new());
    let mut re = rc::Enc::new();
    let mut ks = vec![];
    for s in prog {
        if let Err(er) = ic.compress(&mut e, s.0, s.1, s.2) {
            return fail(key, format!("{:?} {:?}: {}", c, s, er));
        }
        rf.code(&mut re, s.0, s.1, s.2);
        ensure!(ic.k() == rf.k, key, "{:?} {:?}: k is {}, reference {}", c, s, ic.k(), rf.k);
        ks.push(ic.k());
    }
    ch.steps(prog.len() as u64 * 2);
    e.done().unwrap();
    let bytes = e.into_inner();
    let rbytes = re.done();
    ensure!(bytes == rbytes, key, "{:?} {:?}: bytes differ from the reference: {}", c, &prog[..prog.len().min(8)], crate::lay::diff(&bytes, &rbytes));
    ch.validated();
    let mut id = IntegerDecompressor::new(c.bits, c.contexts, c.high, c.range);
    id.init();
    let mut d = ArithmeticDecoder::new(Cursor::new(&bytes[..]));
    d.read_init_bytes().unwrap();
    for (n, s) in prog.iter().enumerate() {
        match id.decompress(&mut d, s.0, s.2) {
            Ok(v) => ensure!(v == s.1 && id.k() == ks[n], key, "{:?} step {} {:?}: decoded {} (k {}, encoder {})", c, n, s, v, id.k(), ks[n]),
            Err(er) => return fail(key, format!("{:?} step {} {:?}: {}", c, n, s, er)),
        }
    }
    ch.outcome(&bytes);
    Ok(())
}

/// Interesting values of `0..range` (range 0: all of i32)
fn values(range: u64) -> Vec<i32> {
    let mut v: Vec<i64> = vec![];
    if range == 0 {
        v.extend([0, 1, -1, 2, -2, 127, 128, 255, 256, 257, -255, -256, -257, 65535, 1 << 24, i32::MAX as i64, i32::MAX as i64 - 1, i32::MIN as i64, i32::MIN as i64 + 1, 0x1234_5678, -0x4000_0000, 0x4000_0001]);
    } else {
        let r = range as i64;
        v.extend([0, 1, 2, 3, r / 2 - 1, r / 2, r / 2 + 1, r - 3, r - 2, r - 1, r / 3, 255, 256, 257, r - 257]);
        v.retain(|x| *x >= 0 && *x < r);
    }
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as i32).collect()
}

pub fn prop(th: bool) -> Prop {
    let mut v = vec![];
    let highs: &'static [u32] = &[1, 2, 7, 8, 9, 11];
    // all configurations, all pairs of interesting values
    v.push(Scenario::new("every width: all (prediction, value) pairs, then all second values", move |ch| {
        let bits = 1 + ch.choose(32) as u32;
        let high = *ch.of(highs);
        let range = if bits == 32 { 0 } else { 1u64 << bits };
        let vals = values(range);
        let p = *ch.of(&vals);
        let x = *ch.of(&vals);
        let contexts = 1 + ch.choose(2) as u32;
        // second step: every other value in one go, alternating contexts
        let mut prog = vec![(p, x, 0)];
        for (k, y) in vals.iter().enumerate() {
            prog.push((x, *y, k as u32 % contexts));
            prog.push((*y, p, (contexts - 1) * (k as u32 / 2 % 2)));
        }
        ch.note(|| format!("bits {} high {} contexts {} prog {:?}", bits, high, contexts, prog));
        run(ch, Conf { bits, contexts, high, range: 0 }, &prog)
    }));
    // small widths completely
    let small = if th { 4 } else { 3 };
    v.push(Scenario::new("small widths: every sequence of three pairs", move |ch| {
        let bits = 1 + ch.choose(small) as u32;
        let high = 1 + ch.choose(3) as u32;
        let d = if bits >= 3 { 2 } else { 3 };
        let prog: Vec<Step> = (0..d).map(|_| (ch.choose(1 << bits) as i32, ch.choose(1 << bits) as i32, 0)).collect();
        ch.note(|| format!("bits {} high {} prog {:?}", bits, high, prog));
        run(ch, Conf { bits, contexts: 1, high, range: 0 }, &prog)
    }));
    let wide = if th { 11 } else { 9 };
    v.push(Scenario::new("medium widths: every value pair in one stream", move |ch| {
        let bits = 4 + ch.choose(wide - 3) as u32;
        let high = *ch.of(&[1u32, 3, 8, 9]);
        let n = 1i32 << bits;
        let p = ch.choose(n as usize) as i32;
        let prog: Vec<Step> = (0..n).map(|x| (p, x, (x & 1) as u32)).collect();
        run(ch, Conf { bits, contexts: 2, high, range: 0 }, &prog)
    }));
    // ranges instead of widths
    let maxr = if th { 700usize } else { 140 };
    v.push(Scenario::new("every small range: every value pair", move |ch| {
        let range = 2 + ch.choose(maxr - 1) as u32;
        let high = *ch.of(&[1u32, 4, 8]);
        let p = ch.choose(range as usize) as i32;
        let prog: Vec<Step> = (0..range as i32).map(|x| (p, x, 0)).collect();
        run(ch, Conf { bits: 16, contexts: 1, high, range }, &prog)
    }));
    v.push(Scenario::new("large ranges around powers of two", move |ch| {
        let k = 7 + ch.choose(24) as u32;
        let d = ch.choose(5) as i64 - 2;
        let range = ((1i64 << k) + d).min(1 << 30) as u64;
        let high = *ch.of(highs);
        let vals = values(range);
        let p = *ch.of(&vals);
        let prog: Vec<Step> = vals.iter().map(|x| (p, *x, 0)).collect();
        ch.note(|| format!("range {} high {} prog {:?}", range, high, prog));
        run(ch, Conf { bits: 8, contexts: 1, high, range: range as u32 }, &prog)
    }));
    // correctors around every power of two
    v.push(Scenario::new("differences around every power of two", move |ch| {
        let bits = *ch.of(&[32u32, 31, 24, 16, 8]);
        let high = *ch.of(highs);
        let mut prog = vec![];
        let base = if bits == 32 { *ch.of(&[0i32, i32::MAX, i32::MIN, -1, 77]) } else { ch.of(&[0i64, (1 << bits) - 1, 1 << (bits - 1), 77]).clone() as i32 };
        for k in 0..bits {
            for d in [-2i64, -1, 0, 1, 2] {
                for sg in [1i64, -1] {
                    let diff = sg * (1i64 << k) + d;
                    let x = (base as i64 + diff) as i128;
                    let x = if bits == 32 { (base as i64).wrapping_add(diff) as i32 } else { x.rem_euclid(1i128 << bits) as i32 };
                    prog.push((base, x, k & 1));
                }
            }
        }
        run(ch, Conf { bits, contexts: 2, high, range: 0 }, &prog)
    }));
    // long runs so that the bucket models are rescaled
    v.push(Scenario::new("long runs", move |ch| {
        let bits = *ch.of(&[8u32, 16, 32]);
        let pat = ch.choose(5);
        let n = if th { 400_000 } else { 60_000 };
        let m = if bits == 32 { u32::MAX } else { (1u32 << bits) - 1 };
        let prog: Vec<Step> = (0..n as u32)
            .map(|i| match pat {
                0 => (5, 5, 0),
                1 => (5, 6, 0),
                2 => ((i & m) as i32, (i.wrapping_mul(2654435761) & m) as i32, i % 3),
                3 => (0, ((1u32 << (i % bits)) & m) as i32, i % 2),
                _ => (0, m as i32 & 0x7FFF_FFFF, 2),
            })
            .collect();
        run(ch, Conf { bits, contexts: 3, high: 8, range: 0 }, &prog)
    }));
    Prop::new(v, &["bits_high 1..=11 (the models' limit of 2048 symbols)", "ranges 2..=2^30; predictions and values inside the range", "wide values: the listed extreme values, all pairs"])
}
