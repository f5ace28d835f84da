//! C13: the chunk table survives serialisation.
use super::Prop;
use crate::engine::*;
use crate::lay::*;
use crate::refc;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use std::io::{Cursor, Seek, SeekFrom};

const COUNTS: [u32; 8] = [0, 1, 7, 50_000, 50_001, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
const SIZES: [u32; 8] = [0, 1, 40, 1_000_000, 1_000_255, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];

fn table(t: &[(u32, u32)]) -> ChunkTable {
    let mut c = ChunkTable::default();
    for (n, b) in t {
        c.push(ChunkTableEntry { point_count: *n as u64, byte_count: *b as u64 });
    }
    c
}

fn written(t: &[(u32, u32)], chunk: u32) -> Result<Vec<u8>, Fail> {
    let vlr = lay(0, 2, 0).vlr(chunk);
    let mut w = Vec::new();
    if let Err(e) = table(t).write_to(&mut w, &vlr) {
        return fail("table-write", format!("{:?}: {}", t, e));
    }
    Ok(w)
}

/// Bytes against the reference (used by C02 too).
pub fn reference_case(ch: &Ch) -> Res {
    let variable = ch.flag();
    let n = ch.choose(4);
    let mut t = vec![];
    for _ in 0..n {
        let c = if variable { *ch.of(&COUNTS) } else { 0 };
        t.push((c, *ch.of(&SIZES)));
    }
    if n == 3 && variable {
        // keep the full product for two entries, the diagonal for the third
        if t[2].0 % 7 != t[0].0 % 7 {
            return Ok(());
        }
    }
    ch.note(|| format!("variable {} table {:?}", variable, t));
    check(ch, &t, variable, 0, 0, 0)
}

/// placement: 0 the offset field is filled in, 1 it holds -1 and the offset is the last 8 bytes,
/// 2 it holds 0 likewise
fn check(ch: &Ch, t: &[(u32, u32)], variable: bool, start: u64, trailing: usize, placement: usize) -> Res {
    let chunk = if variable { VARIABLE } else { 1234 };
    let vlr = lay(0, 2, 0).vlr(chunk);
    let w = written(t, chunk)?;
    let r = refc::encode_table(t, variable);
    ensure!(w == r, "table-bytes", "{:?}: table bytes differ from the LASzip layout: {}", t, diff(&w, &r));
    ch.validated();
    // a stream: offset, a body, the table, other data
    let body = 13u64;
    let mut s = vec![0xEEu8; start as usize];
    let off = (start + 8 + body) as i64;
    s.extend(
        match placement {
            0 => off,
            1 => -1,
            _ => 0,
        }
        .to_le_bytes(),
    );
    s.extend(vec![0x77u8; body as usize]);
    s.extend(&w);
    s.extend(vec![0x99u8; trailing]);
    if placement > 0 {
        s.extend(off.to_le_bytes());
    }
    let mut c = Cursor::new(&s[..]);
    c.set_position(start);
    let got = match ChunkTable::read_from(&mut c, &vlr) {
        Ok(g) => g,
        Err(e) => return fail("table-read", format!("{:?} (start {} trailing {} placement {}): {}", t, start, trailing, placement, e)),
    };
    ensure!(c.position() == start + 8, "table-position", "{:?}: source left at {} instead of {}", t, c.position(), start + 8);
    ensure!(got.len() == t.len() && got.is_empty() == t.is_empty(), "table-len", "{:?}: {} entries read", t, got.len());
    for (k, e) in (&got).into_iter().enumerate() {
        let want = (if variable { t[k].0 as u64 } else { 1234 }, t[k].1 as u64);
        ensure!((e.point_count, e.byte_count) == want, "table-entry", "{:?} (variable {}): entry {} read as {:?}", t, variable, k, e);
        ensure!(got[k].byte_count == want.1, "table-entry", "index");
    }
    // the lower level entry point leaves the source at the end of the table
    let mut c = Cursor::new(&s[..]);
    c.seek(SeekFrom::Start(off as u64)).unwrap();
    match ChunkTable::read(&mut c, variable) {
        Ok(g) => {
            ensure!(g.len() == t.len(), "table-len", "{:?}: {} entries read", t, g.len());
            ensure!(c.position() <= off as u64 + w.len() as u64, "table-overread", "{:?}: read past the end of the table", t);
        }
        Err(e) => return fail("table-read", format!("{:?}: {}", t, e)),
    }
    ch.steps(3);
    ch.outcome(&w);
    Ok(())
}

pub fn prop(th: bool) -> Prop {
    let mut v = vec![];
    v.push(Scenario::new("all tables of up to three entries, bytes and contents", reference_case));
    v.push(Scenario::new("all tables of up to two entries x placements x surroundings", |ch| {
        let variable = ch.flag();
        let n = ch.choose(3);
        let t: Vec<_> = (0..n).map(|_| (if variable { *ch.of(&COUNTS) } else { 0 }, *ch.of(&SIZES))).collect();
        let start = *ch.of(&[0u64, 1, 300]);
        let placement = ch.choose(3);
        let trailing = *ch.of(&[0usize, 1, 60]);
        ch.note(|| format!("variable {} table {:?} start {} placement {} trailing {}", variable, t, start, placement, trailing));
        check(ch, &t, variable, start, trailing, placement)
    }));
    let max = if th { 3000 } else { 300 };
    v.push(Scenario::new("every number of chunks", move |ch| {
        let n = ch.choose(max);
        let variable = ch.flag();
        let pat = ch.choose(5);
        let t = pattern(n, pat);
        ch.note(|| format!("{} chunks, pattern {}", n, pat));
        check(ch, &t, variable, 16, 0, n % 2)
    }));
    v.push(Scenario::new("large numbers of chunks", move |ch| {
        let n = *ch.of(&[4095usize, 4096, 10_000, 65_535, 65_536, 70_000, 200_000]);
        let variable = ch.flag();
        let pat = ch.choose(5);
        let t = pattern(n, pat);
        check(ch, &t, variable, 0, 0, 0)
    }));
    v.push(Scenario::new("no table at all is an error, not a table", |ch| {
        // offset field 0 or -1 and nothing usable at the end
        let field = *ch.of(&[0i64, -1, 8, i64::MIN]);
        let end = *ch.of(&[0i64, -1, 5, i64::MIN]);
        let body = ch.choose(20);
        let start = ch.choose(3) as u64 * 5;
        if field > start as i64 {
            return Ok(());
        }
        let mut s = vec![0u8; start as usize];
        s.extend(field.to_le_bytes());
        s.extend(vec![1u8; body]);
        s.extend(end.to_le_bytes());
        if end > start as i64 {
            return Ok(());
        }
        let mut c = Cursor::new(&s[..]);
        c.set_position(start);
        let r = ChunkTable::read_from(&mut c, &lay(0, 2, 0).vlr(*ch.of(&[VARIABLE, 10])));
        ensure!(r.is_err(), "table-missing", "field {} end {}: a table was read: {:?}", field, end, r.unwrap());
        ch.step();
        ch.validated();
        Ok(())
    }));
    Prop::new(v, &["point and byte counts of 32 bits"])
}

fn pattern(n: usize, pat: usize) -> Vec<(u32, u32)> {
    (0..n as u32)
        .map(|i| match pat {
            0 => (50_000, 400_000 + i % 100),
            1 => (i, i * 3),
            2 => (i.wrapping_mul(2654435761), i.wrapping_mul(40503).rotate_left(16)),
            3 => ((i % 2) * u32::MAX, (i % 3) * 0x7FFF_FFFF),
            _ => (i % 5, 0xFFFF_FFFF - i),
        })
        .collect()
}
