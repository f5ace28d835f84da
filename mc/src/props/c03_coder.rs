//! C03: the entropy coder is lossless for every mix of coding calls.
use super::Prop;
use crate::engine::*;
use crate::refc::coder::{self as rc, Coder};
use laz::decoders::ArithmeticDecoder;
use laz::encoders::ArithmeticEncoder;
use laz::models::{ArithmeticBitModel, ArithmeticModel};
use std::io::Cursor;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    /// model slot, symbol
    Sym(usize, u32),
    Bit(usize, u32),
    Raw(u32, u32),
    RawBit(u32),
    Byte(u8),
    Short(u16),
    Int(u32),
    Int64(u64),
}

/// Runs a program of calls through the real encoder, the reference encoder, the real decoder and
/// the reference decoder. `sizes` are the alphabet sizes of the model slots.
pub fn run(ch: &Ch, sizes: &[u32], bits: usize, prog: impl Iterator<Item = Call> + Clone, key: &str) -> Res {
    let (bytes, expect) = encode(ch, sizes, bits, prog.clone())?;
    if bytes != expect {
        return fail(format!("{}bytes", key), format!("encoder bytes differ from the reference coder: {}", crate::lay::diff(&bytes, &expect)));
    }
    ch.validated();
    decode(ch, sizes, bits, prog, &bytes, key)
}

pub fn encode(ch: &Ch, sizes: &[u32], bits: usize, prog: impl Iterator<Item = Call>) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    let mut ms: Vec<_> = sizes.iter().map(|s| ArithmeticModel::new(*s, true, &[])).collect();
    let mut bs: Vec<_> = (0..bits).map(|_| ArithmeticBitModel::new()).collect();
    let mut rms: Vec<_> = sizes.iter().map(|s| rc::Model::new(*s)).collect();
    let mut rbs: Vec<_> = (0..bits).map(|_| rc::BitModel::new()).collect();
    let mut e = ArithmeticEncoder::new(Vec::<u8>::new());
    let mut r = rc::Enc::new();
    let mut n = 0;
    for c in prog {
        n += 1;
        let ok = match c {
            Call::Sym(m, s) => {
                r.sym(&mut rms[m], s);
                e.encode_symbol(&mut ms[m], s)
            }
            Call::Bit(m, b) => {
                r.bit(&mut rbs[m], b == 1);
                e.encode_bit(&mut bs[m], b)
            }
            Call::Raw(k, v) => {
                r.raw(k, v);
                e.write_bits(k, v)
            }
            Call::RawBit(v) => {
                r.raw(1, v);
                e.write_bit(v)
            }
            Call::Byte(v) => {
                r.raw(8, v as u32);
                e.write_byte(v)
            }
            Call::Short(v) => {
                r.raw(16, v as u32);
                e.write_short(v)
            }
            Call::Int(v) => {
                r.raw32(v);
                e.write_int(v)
            }
            Call::Int64(v) => {
                r.raw64(v);
                e.write_int64(v)
            }
        };
        if let Err(er) = ok {
            return fail("enc-error", format!("{:?}: {}", c, er));
        }
    }
    if let Err(er) = e.done() {
        return fail("enc-error", format!("done: {}", er));
    }
    ch.steps(n);
    Ok((e.into_inner(), r.done()))
}

pub fn decode(ch: &Ch, sizes: &[u32], bits: usize, prog: impl Iterator<Item = Call>, bytes: &[u8], key: &str) -> Res {
    let mut ms: Vec<_> = sizes.iter().map(|s| ArithmeticModel::new(*s, false, &[])).collect();
    let mut bs: Vec<_> = (0..bits).map(|_| ArithmeticBitModel::new()).collect();
    let mut d = ArithmeticDecoder::new(Cursor::new(bytes));
    if let Err(e) = d.read_init_bytes() {
        return fail(format!("{}dec-error", key), format!("read_init_bytes: {}", e));
    }
    for (n, c) in prog.enumerate() {
        let r: std::io::Result<(u64, u64)> = match c {
            Call::Sym(m, s) => d.decode_symbol(&mut ms[m]).map(|v| (v as u64, s as u64)),
            Call::Bit(m, b) => d.decode_bit(&mut bs[m]).map(|v| (v as u64, b as u64)),
            Call::Raw(k, v) => d.read_bits(k).map(|x| (x as u64, v as u64)),
            Call::RawBit(v) => d.read_bit().map(|x| (x as u64, v as u64)),
            Call::Byte(v) => d.read_bits(8).map(|x| (x as u64, v as u64)),
            Call::Short(v) => d.read_bits(16).map(|x| (x as u64, v as u64)),
            Call::Int(v) => d.read_int().map(|x| (x as u64, v as u64)),
            Call::Int64(v) => d.read_int_64().map(|x| (x, v)),
        };
        match r {
            Ok((got, want)) if got == want => {}
            Ok((got, want)) => return fail(format!("{}value", key), format!("call {} {:?}: decoded {} instead of {}", n, c, got, want)),
            Err(e) => return fail(format!("{}dec-error", key), format!("call {} {:?}: {}", n, c, e)),
        }
    }
    // (the decoder only ever reads from the slice, so it cannot have consumed more than all of it)
    let used = d.get_ref().position();
    ch.outcome(&[bytes, &used.to_le_bytes()[..]].concat());
    Ok(())
}

const SIZES: [u32; 5] = [2, 16, 17, 64, 256];

fn calls(small: bool) -> Vec<Call> {
    let mut v = vec![
        Call::Sym(0, 0),
        Call::Sym(0, 1),
        Call::Sym(1, 0),
        Call::Sym(1, 15),
        Call::Sym(2, 16),
        Call::Sym(2, 3),
        Call::Sym(4, 0),
        Call::Sym(4, 255),
        Call::Bit(0, 0),
        Call::Bit(0, 1),
        Call::RawBit(1),
        Call::Byte(0xFF),
        Call::Short(0xFFFF),
        Call::Raw(19, (1 << 19) - 1),
        Call::Raw(20, (1 << 20) - 1),
        Call::Raw(32, u32::MAX),
        Call::Int(0xFFFF_0001),
        Call::Int64(0xFFFF_FFFF_0000_FFFE),
    ];
    if !small {
        v.extend([
            Call::Sym(3, 63),
            Call::Sym(3, 31),
            Call::Sym(4, 127),
            Call::Sym(2, 0),
            Call::Bit(1, 1),
            Call::RawBit(0),
            Call::Byte(0),
            Call::Byte(0x7F),
            Call::Short(0),
            Call::Short(0x8000),
            Call::Int(0),
            Call::Int(u32::MAX),
            Call::Int64(u64::MAX),
            Call::Int64(1 << 63 | 1 << 31 | 1 << 15),
            Call::Raw(31, 1 << 30),
            Call::Raw(17, 1),
            Call::Raw(32, 0x8000_0000),
        ]);
    }
    v
}

/// A program that keeps the code value straddling a byte boundary for `n` bytes (so that the
/// bytes written are either all 0xFF or all 0x00 until the last call decides) after `lead` raw
/// bytes.
fn straddle(lead: usize, n: usize, up: bool) -> Vec<Call> {
    let mut p: Vec<Call> = (0..lead).map(|k| Call::Byte((k * 37 % 251) as u8)).collect();
    let mut r = rc::Enc::new();
    for c in &p {
        if let Call::Byte(b) = c {
            r.raw(8, *b as u32);
        }
    }
    // A first call that puts the boundary well inside of the interval
    // Relative to the interval the boundary is where base would wrap round after one more byte.
    // Distance from base to the next multiple of 2^24 above it, in units of the current base.
    let mut dist: Option<u64> = None; // boundary - base, scaled like base
    let mut bytes = 0;
    let mut guard = 0;
    while bytes < n && guard < 20 * n + 100 {
        guard += 1;
        let (base, len) = r.state();
        let d = match dist {
            Some(d) => d,
            None => {
                // boundary: the smallest number > base whose low 24 bits are 0
                let d = (1u64 << 24) - (base as u64 & 0xFF_FFFF);
                if d > 0 && d < len as u64 {
                    dist = Some(d);
                    d
                } else {
                    p.push(Call::RawBit(1));
                    r.raw(1, 1);
                    continue;
                }
            }
        };
        // halve the interval, keeping the half that has the boundary strictly inside
        let half = (len >> 1) as u64;
        let bit = if d < half {
            0
        } else if d > half {
            1
        } else {
            // boundary between the halves: a three way split with an 8 bit call moves off it
            break;
        };
        let before = r.out.len();
        r.raw(1, bit);
        p.push(Call::RawBit(bit));
        let mut nd = d - if bit == 1 { half } else { 0 };
        for _ in before..r.out.len() {
            nd <<= 8;
            bytes += 1;
        }
        if nd == 0 || nd >= r.state().1 as u64 {
            break;
        }
        dist = Some(nd);
    }
    // the deciding calls
    for _ in 0..40 {
        p.push(Call::RawBit(up as u32));
    }
    p
}

/// Run of equal carry-affected bytes in a program's output is bounded by the coder's buffer
const BUF: usize = 4096;

pub fn prop(th: bool) -> Prop {
    let mut v = vec![];
    let depth = if th { 4 } else { 3 };
    for (name, small, d) in [("all calls", false, depth), ("main calls", true, depth + 1)] {
        let cs = calls(small);
        v.push(Scenario::new(format!("programs of up to {} {}", d, name), move |ch| {
            let n = ch.choose(d + 1);
            let p: Vec<Call> = (0..n).map(|_| *ch.of(&cs)).collect();
            ch.note(|| format!("{:?}", p));
            run(ch, &SIZES, 2, p.iter().copied(), "")
        }));
    }
    // every raw width with its extreme values, from every position in a preceding program
    v.push(Scenario::new("raw bits of every width", move |ch| {
        let k = 1 + ch.choose(32) as u32;
        let max = if k == 32 { u32::MAX } else { (1 << k) - 1 };
        let vals = [0, 1, max, max / 2, max / 2 + 1, max ^ 1, 0x5555_5555 & max];
        let pre = ch.choose(5);
        let v1 = *ch.of(&vals);
        let v2 = *ch.of(&vals);
        let mut p: Vec<Call> = (0..pre).map(|i| if i % 2 == 0 { Call::Bit(0, 1) } else { Call::Sym(2, 7) }).collect();
        p.extend([Call::Raw(k, v1), Call::Bit(0, 0), Call::Raw(k, v2), Call::Sym(1, 3)]);
        ch.note(|| format!("{:?}", p));
        run(ch, &SIZES, 1, p.iter().copied(), "")
    }));
    // long runs: every alphabet size, through many model rescalings
    let sizes: Vec<u32> = if th {
        (2..=2048).collect()
    } else {
        (2..=34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 516, 1023, 1024, 1025, 2047, 2048]).collect()
    };
    let reps = if th { 120_000 } else { 70_000 };
    v.push(Scenario::new("long runs over every alphabet size", move |ch| {
        let s = *ch.of(&sizes);
        let pat = ch.choose(6);
        ch.note(|| format!("alphabet {} pattern {}", s, pat));
        let prog = (0..reps as u32).map(move |i| {
            Call::Sym(
                0,
                match pat {
                    0 => 0,
                    1 => s - 1,
                    2 => i % s,
                    3 => (i / 700) % s,
                    4 => {
                        if i % 97 == 0 {
                            (i / 97) % s
                        } else {
                            s / 2
                        }
                    }
                    _ => i.wrapping_mul(2654435761) % s,
                },
            )
        });
        run(ch, &[s], 1, prog, "")
    }));
    v.push(Scenario::new("long runs of bits", move |ch| {
        let pat = ch.choose(12);
        let prog = (0..2 * reps as u32).map(move |i| {
            let b = match pat {
                0 => 0,
                1 => 1,
                2 => i % 2,
                3 => (i / 1000) % 2,
                4 => (i % 64 == 0) as u32,
                5 => (i % 64 != 0) as u32,
                6 => (i % 4000 == 3999) as u32,
                7 => (i % 4000 != 3999) as u32,
                8 => (i.wrapping_mul(2654435761) >> 31) as u32,
                9 => (i.wrapping_mul(2654435761) >> 30 == 0) as u32,
                10 => (i > 9000) as u32,
                _ => (i < 9000) as u32,
            };
            Call::Bit((i % 3 == 0 && pat > 8) as usize, b)
        });
        run(ch, &[2], 2, prog, "")
    }));
    // every output length around the buffer's sizes
    v.push(Scenario::new("every length around the output buffer", move |ch| {
        let around = *ch.of(&[0usize, BUF, 2 * BUF, 3 * BUF, 4 * BUF]);
        let n = around + ch.choose(24);
        let n = n.saturating_sub(12);
        let val = *ch.of(&[0u8, 0xFF, 0xA7]);
        let tail = ch.choose(3);
        ch.note(|| format!("{} bytes of {}", n, val));
        let prog = (0..n)
            .map(move |i| if val == 0xA7 { Call::Byte((i * 7) as u8) } else { Call::Byte(val) })
            .chain((0..tail).map(|t| Call::Bit(0, t as u32)));
        run(ch, &[2], 1, prog, "")
    }));
    // carries that run through k pending bytes, at every place relative to the buffer boundary
    let runs: Vec<usize> = if th {
        (1..=64).chain([100, 255, 256, 1000, 2000, 4000, BUF - 16]).collect()
    } else {
        vec![1, 2, 3, 5, 16, 100, 1000, BUF - 16]
    };
    let leads: Vec<usize> = [0usize, BUF, 2 * BUF, 3 * BUF]
        .iter()
        .flat_map(|b| (0..20usize).filter_map(move |k| (b + k).checked_sub(10)))
        .collect();
    v.push(Scenario::new("carry propagation", move |ch| {
        let n = *ch.of(&runs);
        let lead = *ch.of(&leads);
        let up = ch.flag();
        let back = *ch.of(&[0usize, 1]) * n / 2;
        let p = straddle(lead.saturating_sub(back), n, up);
        ch.note(|| format!("lead {} run {} carry {}: {} calls", lead, n, up, p.len()));
        run(ch, &[2], 1, p.iter().copied(), "")
    }));
    // a run longer than what the encoder keeps back
    v.push(Scenario::new("carry beyond the output buffer", move |ch| {
        let n = *ch.of(&[BUF + 100, 2 * BUF, 2 * BUF + 5000]);
        let lead = *ch.of(&[0usize, 100, BUF]);
        let p = straddle(lead, n, ch.flag());
        ch.note(|| format!("lead {} run {}: {} calls", lead, n, p.len()));
        match guarded(|| run(ch, &[2], 1, p.iter().copied(), "carry-beyond-buffer:")) {
            Ok(r) => r,
            Err(m) => fail("carry-beyond-buffer:panic", m),
        }
    }));
    Prop::new(v, &["alphabets of 2 to 2048 symbols (the format's limit)", "value alphabets per call are listed in the scenario; lengths up to the stated repetitions"])
}
