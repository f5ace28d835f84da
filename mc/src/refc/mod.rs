//! Reference model of the LASzip format: records <-> compressed stream.
pub mod coder;
pub mod items;
pub mod tables;

use coder::*;
use items::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Point10,
    Gps11,
    Rgb12,
    Wave13,
    Byte,
    Point14,
    Rgb14,
    RgbNir14,
    Wave14,
    Byte14,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ItemDef {
    pub kind: Kind,
    pub size: usize,
    pub version: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Layout {
    pub items: Vec<ItemDef>,
}
impl Layout {
    pub fn size(&self) -> usize {
        self.items.iter().map(|i| i.size).sum()
    }
    pub fn layered(&self) -> bool {
        self.items[0].version >= 3
    }
}

fn seq_items<C: Coder>(l: &Layout) -> Vec<(usize, Box<dyn Item<C>>)> {
    l.items
        .iter()
        .map(|i| {
            let b: Box<dyn Item<C>> = match (i.kind, i.version) {
                (Kind::Point10, 1) => Box::new(Point10V1::new()),
                (Kind::Point10, 2) => Box::new(Point10V2::new()),
                (Kind::Gps11, 1) => Box::new(Gps11V1::new()),
                (Kind::Gps11, 2) => Box::new(Gps11V2::new()),
                (Kind::Rgb12, 1) => Box::new(Rgb12V1::new()),
                (Kind::Rgb12, 2) => Box::new(Rgb12V2::new()),
                (Kind::Wave13, _) => Box::new(Wave13V1::new()),
                (Kind::Byte, 1) => Box::new(ByteV1::new(i.size)),
                (Kind::Byte, 2) => Box::new(ByteV2::new(i.size)),
                x => panic!("reference: {:?}", x),
            };
            (i.size, b)
        })
        .collect()
}

fn lay_items<C: Coder>(l: &Layout) -> Vec<(usize, Box<dyn LayeredItem<C>>)> {
    let mut v: Vec<(usize, Box<dyn LayeredItem<C>>)> = vec![];
    for i in &l.items {
        let ver = i.version;
        match i.kind {
            Kind::Point14 => v.push((30, Box::new(Point14::new(ver)))),
            Kind::Rgb14 => v.push((6, Box::new(Rgb14::new(ver)))),
            Kind::RgbNir14 => {
                v.push((6, Box::new(Rgb14::new(ver))));
                v.push((2, Box::new(Nir14::new(ver))));
            }
            Kind::Wave14 => v.push((29, Box::new(Wave14::new(ver)))),
            Kind::Byte14 => v.push((i.size, Box::new(Byte14::new(ver, i.size)))),
            x => panic!("reference: {:?}", x),
        }
    }
    v
}

/// Compresses one chunk (at least one point).
pub fn encode_chunk(l: &Layout, pts: &[u8]) -> Vec<u8> {
    let ps = l.size();
    assert!(pts.len() % ps == 0 && !pts.is_empty());
    let mut out = pts[..ps].to_vec();
    if !l.layered() {
        let mut items = seq_items::<Enc>(l);
        let mut e = Enc::new();
        for (k, p) in pts.chunks(ps).enumerate() {
            let mut o = 0;
            for (sz, it) in items.iter_mut() {
                let mut f = p[o..o + *sz].to_vec();
                if k == 0 {
                    it.first(&f);
                } else {
                    it.code(&mut e, &mut f);
                    assert_eq!(&f[..], &p[o..o + *sz], "reference encoder lost a field");
                }
                o += *sz;
            }
        }
        out.extend(e.done());
        return out;
    }
    let mut items = lay_items::<Enc>(l);
    let mut layers: Vec<Vec<Option<Enc>>> = items.iter().map(|(_, i)| (0..i.layers()).map(|_| Some(Enc::new())).collect()).collect();
    let mut changed: Vec<Vec<bool>> = items.iter().map(|(_, i)| vec![false; i.layers()]).collect();
    // the first two layers of the point item are always present
    changed[0][0] = true;
    changed[0][1] = true;
    for (k, p) in pts.chunks(ps).enumerate() {
        let mut o = 0;
        let mut ctx = 0;
        for (j, (sz, it)) in items.iter_mut().enumerate() {
            let mut f = p[o..o + *sz].to_vec();
            if k == 0 {
                it.first(&f, &mut ctx);
            } else {
                it.code(&mut layers[j], &mut changed[j], &mut f, &mut ctx);
                assert_eq!(&f[..], &p[o..o + *sz], "reference encoder lost a field");
            }
            o += *sz;
        }
    }
    out.extend(((pts.len() / ps) as u32).to_le_bytes());
    let mut sizes = vec![];
    let mut data = vec![];
    for (ls, chs) in layers.into_iter().zip(changed) {
        for (l, ch) in ls.into_iter().zip(chs) {
            let b = if ch { l.unwrap().done() } else { vec![] };
            sizes.extend((b.len() as u32).to_le_bytes());
            data.extend(b);
        }
    }
    out.extend(sizes);
    out.extend(data);
    out
}

/// Decompresses the `n` points of a chunk; also says how many bytes of it were used.
pub fn decode_chunk(l: &Layout, chunk: &[u8], n: usize) -> Result<(Vec<u8>, usize), String> {
    let ps = l.size();
    if chunk.len() < ps {
        return Err("chunk shorter than a point".into());
    }
    let mut out = chunk[..ps].to_vec();
    if n == 0 {
        return Ok((vec![], 0));
    }
    if !l.layered() {
        if chunk.len() < ps + 4 {
            return Err("chunk without coder bytes".into());
        }
        let mut items = seq_items::<Dec>(l);
        let mut d = Dec::new(&chunk[ps..]);
        for k in 0..n {
            let mut o = 0;
            for (sz, it) in items.iter_mut() {
                if k == 0 {
                    it.first(&chunk[o..o + *sz]);
                } else {
                    let mut f = vec![0u8; *sz];
                    it.code(&mut d, &mut f);
                    out.extend(f);
                }
                o += *sz;
            }
        }
        if d.eof {
            return Err("coder ran out of bytes".into());
        }
        return Ok((out, ps + d.pos));
    }
    let mut items = lay_items::<Dec>(l);
    let g = |o: usize| -> Result<usize, String> {
        chunk.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize).ok_or("short header".to_string())
    };
    let cnt = g(ps)?;
    if cnt != n {
        return Err(format!("chunk says {} points, {} expected", cnt, n));
    }
    let mut o = ps + 4;
    let mut sizes: Vec<Vec<usize>> = vec![];
    for (_, it) in &items {
        let mut v = vec![];
        for _ in 0..it.layers() {
            v.push(g(o)?);
            o += 4;
        }
        sizes.push(v);
    }
    let mut layers: Vec<Vec<Option<Dec>>> = vec![];
    for v in &sizes {
        let mut ls = vec![];
        for s in v {
            let b = chunk.get(o..o + s).ok_or("short layer")?;
            ls.push(if *s > 0 { Some(Dec::new(b)) } else { None });
            o += s;
        }
        layers.push(ls);
    }
    if layers[0][0].is_none() {
        return Err("no XY layer".into());
    }
    for k in 0..n {
        let mut f_o = 0;
        let mut ctx = 0;
        for (j, (sz, it)) in items.iter_mut().enumerate() {
            if k == 0 {
                it.first(&chunk[f_o..f_o + *sz], &mut ctx);
            } else {
                let mut f = vec![0u8; *sz];
                let mut ch = vec![false; it.layers()];
                it.code(&mut layers[j], &mut ch, &mut f, &mut ctx);
                out.extend(f);
            }
            f_o += *sz;
        }
    }
    if layers.iter().flatten().flatten().any(|d| d.eof) {
        return Err("layer ran out of bytes".into());
    }
    Ok((out, o))
}

/// Table: (point count, byte count) per chunk.
pub fn encode_table(t: &[(u32, u32)], variable: bool) -> Vec<u8> {
    let mut out = vec![0, 0, 0, 0];
    out.extend((t.len() as u32).to_le_bytes());
    if t.is_empty() {
        return out;
    }
    let mut e = Enc::new();
    let mut ic = IntCoder::new(32, 2);
    let (mut p, mut b) = (0i32, 0i32);
    for (n, s) in t {
        if variable {
            ic.code(&mut e, p, *n as i32, 0);
            p = *n as i32;
        }
        ic.code(&mut e, b, *s as i32, 1);
        b = *s as i32;
    }
    out.extend(e.done());
    out
}

pub fn decode_table(bytes: &[u8], variable: bool) -> Result<(Vec<(u32, u32)>, usize), String> {
    if bytes.len() < 8 {
        return Err("short table".into());
    }
    if bytes[..4] != [0, 0, 0, 0] {
        return Err("table version".into());
    }
    let n = u32::from_le_bytes(bytes[4..8].try_into().unwrap());
    if n == 0 {
        return Ok((vec![], 8));
    }
    let mut d = Dec::new(&bytes[8..]);
    let mut ic = IntCoder::new(32, 2);
    let (mut p, mut b) = (0i32, 0i32);
    let mut t = vec![];
    for _ in 0..n {
        if variable {
            p = ic.code(&mut d, p, 0, 0);
        }
        b = ic.code(&mut d, b, 0, 1);
        t.push((p as u32, b as u32));
        if d.eof {
            return Err("table ran out of bytes".into());
        }
    }
    Ok((t, 8 + d.pos))
}

/// A whole stream that starts at absolute position `start` of its file. `chunks` are the chunk
/// contents (raw points).
pub fn encode_stream(l: &Layout, chunks: &[&[u8]], variable: bool, start: u64) -> Vec<u8> {
    let ps = l.size();
    let mut body = vec![];
    let mut table = vec![];
    for c in chunks {
        if c.is_empty() {
            continue;
        }
        let b = encode_chunk(l, c);
        table.push(((c.len() / ps) as u32, b.len() as u32));
        body.extend(b);
    }
    let mut out = (start as i64 + 8 + body.len() as i64).to_le_bytes().to_vec();
    out.extend(body);
    out.extend(encode_table(&table, variable));
    out
}

#[derive(Debug, Clone)]
pub struct Parsed {
    pub points: Vec<u8>,
    pub table: Vec<(u32, u32)>,
    pub end: usize,
}

/// Strict parse of a whole stream (bytes from the offset field to the end of the table) holding
/// `total` points; checks every structural claim.
pub fn decode_stream(l: &Layout, bytes: &[u8], start: u64, chunk_size: Option<u32>, total: usize) -> Result<Parsed, String> {
    if bytes.len() < 8 {
        return Err("short stream".into());
    }
    let off = i64::from_le_bytes(bytes[..8].try_into().unwrap()) - start as i64;
    if off < 8 || off as usize > bytes.len() {
        return Err(format!("offset {} outside of the stream", off));
    }
    let (table, used) = decode_table(&bytes[off as usize..], chunk_size.is_none())?;
    let mut pos = 8usize;
    let mut points = vec![];
    let mut left = total;
    for (k, (n, b)) in table.iter().enumerate() {
        let n = match chunk_size {
            None => *n as usize,
            Some(c) => left.min(c as usize),
        };
        let chunk = bytes.get(pos..pos + *b as usize).ok_or(format!("chunk {} outside", k))?;
        if n == 0 && chunk_size.is_some() {
            return Err(format!("chunk {} without points", k));
        }
        if n > 0 {
            let (p, u) = decode_chunk(l, chunk, n)?;
            if u != chunk.len() && l.layered() {
                return Err(format!("chunk {} has {} bytes, {} used", k, chunk.len(), u));
            }
            points.extend(p);
        }
        left = left.saturating_sub(n);
        pos += *b as usize;
    }
    if pos != off as usize {
        return Err(format!("chunks end at {}, table at {}", pos, off));
    }
    if left != 0 {
        return Err(format!("{} points missing", left));
    }
    let mut t = table;
    if let Some(c) = chunk_size {
        let mut left = total as u32;
        for e in t.iter_mut() {
            e.0 = left.min(c);
            left -= e.0;
        }
    }
    Ok(Parsed { points, table: t, end: off as usize + used })
}
