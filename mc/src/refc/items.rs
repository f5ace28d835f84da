//! Reference item codecs. A record item is a byte slice in LAS little-endian layout.
//! `cur` is the item to encode, or receives the decoded item.

use super::coder::*;
use super::tables::*;

fn u16_(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn i32_(b: &[u8], o: usize) -> i32 {
    i32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
fn u32_(b: &[u8], o: usize) -> u32 {
    i32_(b, o) as u32
}
fn u64_(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn put(b: &mut [u8], o: usize, v: &[u8]) {
    b[o..o + v.len()].copy_from_slice(v);
}
fn fold(n: i32) -> u32 {
    n as u8 as u32
}
fn clamp8(n: i32) -> i32 {
    n.clamp(0, 255)
}
fn quantize(x: f32) -> i32 {
    if x >= 0.0 {
        (x + 0.5) as i32
    } else {
        (x - 0.5) as i32
    }
}
fn model(v: &mut Vec<Option<Model>>, i: usize, n: u32) -> &mut Model {
    v[i].get_or_insert_with(|| Model::new(n))
}

#[derive(Clone)]
pub struct Median5 {
    v: [i32; 5],
    high: bool,
}
impl Median5 {
    pub fn new() -> Self {
        Median5 { v: [0; 5], high: true }
    }
    pub fn get(&self) -> i32 {
        self.v[2]
    }
    /// drops the largest or the smallest of the five alternately and inserts x in order
    pub fn add(&mut self, x: i32) {
        let v = &mut self.v;
        if self.high {
            if x < v[2] {
                // drop the largest, x goes in the lower half
                v[4] = v[3];
                v[3] = v[2];
                let mut three = [v[0], v[1], x];
                // insertion of x in the (ordered) pair
                if x < v[0] {
                    three = [x, v[0], v[1]];
                } else if x < v[1] {
                    three = [v[0], x, v[1]];
                }
                v[..3].copy_from_slice(&three);
            } else {
                if x < v[3] {
                    v[4] = v[3];
                    v[3] = x;
                } else {
                    v[4] = x;
                }
                self.high = false;
            }
        } else if v[2] < x {
            v[0] = v[1];
            v[1] = v[2];
            let mut three = [x, v[3], v[4]];
            if v[4] < x {
                three = [v[3], v[4], x];
            } else if v[3] < x {
                three = [v[3], x, v[4]];
            }
            v[2..].copy_from_slice(&three);
        } else {
            if v[1] < x {
                v[0] = v[1];
                v[1] = x;
            } else {
                v[0] = x;
            }
            self.high = true;
        }
    }
}

/// Items coded into one shared stream (versions 1 and 2).
pub trait Item<C: Coder> {
    fn first(&mut self, cur: &[u8]);
    fn code(&mut self, c: &mut C, cur: &mut [u8]);
}

// ---------------------------------------------------------------------------- POINT10

pub struct Point10V1 {
    last: [u8; 20],
    dx: [i32; 3],
    dy: [i32; 3],
    incr: usize,
    ic_dx: IntCoder,
    ic_dy: IntCoder,
    ic_z: IntCoder,
    ic_int: IntCoder,
    ic_angle: IntCoder,
    ic_psid: IntCoder,
    changed: Model,
    bit_byte: Vec<Option<Model>>,
    class: Vec<Option<Model>>,
    user: Vec<Option<Model>>,
}
impl Point10V1 {
    pub fn new() -> Self {
        Point10V1 {
            last: [0; 20],
            dx: [0; 3],
            dy: [0; 3],
            incr: 0,
            ic_dx: IntCoder::new(32, 1),
            ic_dy: IntCoder::new(32, 20),
            ic_z: IntCoder::new(32, 20),
            ic_int: IntCoder::new(16, 1),
            ic_angle: IntCoder::new(8, 2),
            ic_psid: IntCoder::new(16, 1),
            changed: Model::new(64),
            bit_byte: vec![None; 256],
            class: vec![None; 256],
            user: vec![None; 256],
        }
    }
}
fn median3(a: &[i32; 3]) -> i32 {
    let mut v = *a;
    v.sort();
    v[1]
}
impl<C: Coder> Item<C> for Point10V1 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        let last = self.last;
        let want = cur.to_vec();
        cur.copy_from_slice(&last);
        let dx = self.ic_dx.code(c, median3(&self.dx), i32_(&want, 0).wrapping_sub(i32_(&last, 0)), 0);
        put(cur, 0, &i32_(&last, 0).wrapping_add(dx).to_le_bytes());
        let kx = self.ic_dx.k;
        let dy = self.ic_dy.code(c, median3(&self.dy), i32_(&want, 4).wrapping_sub(i32_(&last, 4)), kx.min(19));
        put(cur, 4, &i32_(&last, 4).wrapping_add(dy).to_le_bytes());
        let k = (kx + self.ic_dy.k) / 2;
        let z = self.ic_z.code(c, i32_(&last, 8), i32_(&want, 8), k.min(19));
        put(cur, 8, &z.to_le_bytes());
        let mask = ((u16_(&want, 12) != u16_(&last, 12)) as u32) << 5
            | ((want[14] != last[14]) as u32) << 4
            | ((want[15] != last[15]) as u32) << 3
            | ((want[16] != last[16]) as u32) << 2
            | ((want[17] != last[17]) as u32) << 1
            | (u16_(&want, 18) != u16_(&last, 18)) as u32;
        let mask = c.sym(&mut self.changed, mask);
        if mask & 32 != 0 {
            let v = self.ic_int.code(c, u16_(&last, 12) as i32, u16_(&want, 12) as i32, 0);
            put(cur, 12, &(v as u16).to_le_bytes());
        }
        if mask & 16 != 0 {
            cur[14] = c.sym(model(&mut self.bit_byte, last[14] as usize, 256), want[14] as u32) as u8;
        }
        if mask & 8 != 0 {
            cur[15] = c.sym(model(&mut self.class, last[15] as usize, 256), want[15] as u32) as u8;
        }
        if mask & 4 != 0 {
            cur[16] = self.ic_angle.code(c, last[16] as i32, want[16] as i32, (k < 3) as u32) as u8;
        }
        if mask & 2 != 0 {
            cur[17] = c.sym(model(&mut self.user, last[17] as usize, 256), want[17] as u32) as u8;
        }
        if mask & 1 != 0 {
            let v = self.ic_psid.code(c, u16_(&last, 18) as i32, u16_(&want, 18) as i32, 0);
            put(cur, 18, &(v as u16).to_le_bytes());
        }
        self.dx[self.incr] = dx;
        self.dy[self.incr] = dy;
        self.incr = (self.incr + 1) % 3;
        self.last.copy_from_slice(cur);
    }
}

pub struct Point10V2 {
    last: [u8; 20],
    last_int: [u16; 16],
    mx: Vec<Median5>,
    my: Vec<Median5>,
    height: [i32; 8],
    changed: Model,
    ic_int: IntCoder,
    angle: [Model; 2],
    ic_psid: IntCoder,
    bit_byte: Vec<Option<Model>>,
    class: Vec<Option<Model>>,
    user: Vec<Option<Model>>,
    ic_dx: IntCoder,
    ic_dy: IntCoder,
    ic_z: IntCoder,
}
impl Point10V2 {
    pub fn new() -> Self {
        Point10V2 {
            last: [0; 20],
            last_int: [0; 16],
            mx: vec![Median5::new(); 16],
            my: vec![Median5::new(); 16],
            height: [0; 8],
            changed: Model::new(64),
            ic_int: IntCoder::new(16, 4),
            angle: [Model::new(256), Model::new(256)],
            ic_psid: IntCoder::new(16, 1),
            bit_byte: vec![None; 256],
            class: vec![None; 256],
            user: vec![None; 256],
            ic_dx: IntCoder::new(32, 2),
            ic_dy: IntCoder::new(32, 22),
            ic_z: IntCoder::new(32, 20),
        }
    }
}
impl<C: Coder> Item<C> for Point10V2 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
        self.last[12] = 0;
        self.last[13] = 0;
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        let last = self.last;
        let want = cur.to_vec();
        cur.copy_from_slice(&last);
        let rn = |b: u8| ((b & 7) as u32, ((b >> 3) & 7) as u32);
        let (r0, n0) = rn(want[14]);
        let m0 = MAP8[n0 as usize][r0 as usize] as usize;
        let mask = ((want[14] != last[14]) as u32) << 5
            | ((self.last_int[m0] != u16_(&want, 12)) as u32) << 4
            | ((want[15] != last[15]) as u32) << 3
            | ((want[16] != last[16]) as u32) << 2
            | ((want[17] != last[17]) as u32) << 1
            | (u16_(&want, 18) != u16_(&last, 18)) as u32;
        let mask = c.sym(&mut self.changed, mask);
        if mask & 32 != 0 {
            cur[14] = c.sym(model(&mut self.bit_byte, last[14] as usize, 256), want[14] as u32) as u8;
        }
        let (r, n) = rn(cur[14]);
        let m = MAP8[n as usize][r as usize] as usize;
        let l = level8(n, r);
        if mask & 16 != 0 {
            let v = self.ic_int.code(c, self.last_int[m] as i32, u16_(&want, 12) as i32, m.min(3) as u32);
            self.last_int[m] = v as u16;
        }
        put(cur, 12, &self.last_int[m].to_le_bytes());
        if mask & 8 != 0 {
            cur[15] = c.sym(model(&mut self.class, last[15] as usize, 256), want[15] as u32) as u8;
        }
        if mask & 4 != 0 {
            let dir = (cur[14] >> 6 & 1) as usize;
            let d = c.sym(&mut self.angle[dir], fold(want[16] as i32 - last[16] as i32));
            cur[16] = last[16].wrapping_add(d as u8);
        }
        if mask & 2 != 0 {
            cur[17] = c.sym(model(&mut self.user, last[17] as usize, 256), want[17] as u32) as u8;
        }
        if mask & 1 != 0 {
            let v = self.ic_psid.code(c, u16_(&last, 18) as i32, u16_(&want, 18) as i32, 0);
            put(cur, 18, &(v as u16).to_le_bytes());
        }
        let single = (n == 1) as u32;
        let d = self.ic_dx.code(c, self.mx[m].get(), i32_(&want, 0).wrapping_sub(i32_(&last, 0)), single);
        self.mx[m].add(d);
        put(cur, 0, &i32_(&last, 0).wrapping_add(d).to_le_bytes());
        let kx = self.ic_dx.k;
        let d = self.ic_dy.code(c, self.my[m].get(), i32_(&want, 4).wrapping_sub(i32_(&last, 4)), single + if kx < 20 { kx & !1 } else { 20 });
        self.my[m].add(d);
        put(cur, 4, &i32_(&last, 4).wrapping_add(d).to_le_bytes());
        let k = (kx + self.ic_dy.k) / 2;
        let z = self.ic_z.code(c, self.height[l], i32_(&want, 8), single + if k < 18 { k & !1 } else { 18 });
        self.height[l] = z;
        put(cur, 8, &z.to_le_bytes());
        self.last.copy_from_slice(cur);
    }
}

// ---------------------------------------------------------------------------- GPSTIME11

pub struct Gps11V1 {
    last: u64,
    diff: i32,
    extreme: i32,
    multi: Model,
    zero: Model,
    ic: IntCoder,
}
impl Gps11V1 {
    pub fn new() -> Self {
        Gps11V1 { last: 0, diff: 0, extreme: 0, multi: Model::new(512), zero: Model::new(3), ic: IntCoder::new(32, 6) }
    }
}
impl<C: Coder> Item<C> for Gps11V1 {
    fn first(&mut self, cur: &[u8]) {
        self.last = u64_(cur, 0);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        let this = u64_(cur, 0);
        let d64 = this.wrapping_sub(self.last) as i64;
        let d32 = d64 as i32;
        let fits = d64 == d32 as i64;
        if self.diff == 0 {
            let want = if this == self.last { 0 } else if fits { 1 } else { 2 };
            match c.sym(&mut self.zero, want) {
                0 => {}
                1 => {
                    let d = self.ic.code(c, 0, d32, 0);
                    self.diff = d;
                    self.last = self.last.wrapping_add(d as i64 as u64);
                }
                _ => self.last = c.raw64(this),
            }
        } else {
            let want = if this == self.last {
                511
            } else if fits {
                quantize(d32 as f32 / self.diff as f32).clamp(0, 509) as u32
            } else {
                510
            };
            let multi = c.sym(&mut self.multi, want) as i32;
            if multi == 511 {
            } else if multi == 510 {
                self.last = c.raw64(this);
            } else {
                let (pred, ctx) = match multi {
                    1 => (self.diff, 1),
                    0 => (self.diff / 4, 2),
                    2..=9 => (multi.wrapping_mul(self.diff), 3),
                    10..=49 => (multi.wrapping_mul(self.diff), 4),
                    _ => (multi.wrapping_mul(self.diff), 5),
                };
                let d = self.ic.code(c, pred, d32, ctx);
                if multi == 1 {
                    self.diff = d;
                    self.extreme = 0;
                } else if multi == 0 || multi == 509 {
                    self.extreme += 1;
                    if self.extreme > 3 {
                        self.diff = d;
                        self.extreme = 0;
                    }
                }
                self.last = self.last.wrapping_add(d as i64 as u64);
            }
        }
        put(cur, 0, &self.last.to_le_bytes());
    }
}

/// GPS time coder of versions 2 (own item) and 3/4 (part of POINT14, without the "unchanged"
/// symbols because a changed flag precedes it).
#[derive(Clone)]
pub struct GpsSeq {
    pub last: usize,
    next: usize,
    pub times: [u64; 4],
    diffs: [i32; 4],
    extreme: [i32; 4],
    multi: Model,
    zero: Model,
    ic: IntCoder,
    unchanged: bool,
}
impl GpsSeq {
    pub fn new(first: u64, unchanged: bool) -> Self {
        GpsSeq {
            last: 0,
            next: 0,
            times: [first, 0, 0, 0],
            diffs: [0; 4],
            extreme: [0; 4],
            multi: Model::new(if unchanged { 516 } else { 515 }),
            zero: Model::new(if unchanged { 6 } else { 5 }),
            ic: IntCoder::new(32, 9),
            unchanged,
        }
    }
    fn bump(&mut self, d: i32) {
        let l = self.last;
        self.extreme[l] += 1;
        if self.extreme[l] > 3 {
            self.diffs[l] = d;
            self.extreme[l] = 0;
        }
    }
    fn other(&self, this: u64) -> Option<usize> {
        (1..4).find(|i| {
            let d = this.wrapping_sub(self.times[(self.last + i) & 3]) as i64;
            d == d as i32 as i64
        })
    }
    fn fresh<C: Coder>(&mut self, c: &mut C, this: u64) {
        let hi = self.ic.code(c, (self.times[self.last] >> 32) as i32, (this >> 32) as i32, 8) as u32 as u64;
        let lo = c.raw32(this as u32) as u64;
        self.next = (self.next + 1) & 3;
        self.last = self.next;
        self.times[self.last] = hi << 32 | lo;
        self.diffs[self.last] = 0;
        self.extreme[self.last] = 0;
    }
    pub fn code<C: Coder>(&mut self, c: &mut C, this: u64) -> u64 {
        loop {
            let l = self.last;
            let u = self.unchanged as u32;
            let d64 = this.wrapping_sub(self.times[l]) as i64;
            let d32 = d64 as i32;
            let fits = d64 == d32 as i64;
            let switch;
            if self.diffs[l] == 0 {
                // symbols: [0 unchanged], fits, huge, other sequences 1..3
                let want = if u == 1 && d64 == 0 {
                    0
                } else if fits {
                    u
                } else if let Some(i) = self.other(this) {
                    u + 1 + i as u32
                } else {
                    u + 1
                };
                let s = c.sym(&mut self.zero, if C::ENC { want } else { 0 });
                if u == 1 && s == 0 {
                    return self.times[l];
                } else if s == u {
                    let d = self.ic.code(c, 0, d32, 0);
                    self.diffs[l] = d;
                    self.extreme[l] = 0;
                    self.times[l] = self.times[l].wrapping_add(d as i64 as u64);
                    return self.times[l];
                } else if s == u + 1 {
                    self.fresh(c, this);
                    return self.times[self.last];
                }
                switch = (s - u - 1) as usize;
            } else {
                let full = 511 + u as i32;
                let want = if u == 1 && d64 == 0 {
                    511
                } else if fits {
                    let m = quantize(d32 as f32 / self.diffs[l] as f32);
                    if m >= 0 {
                        m.min(500)
                    } else {
                        500 - m.max(-10)
                    }
                } else if let Some(i) = self.other(this) {
                    full + i as i32
                } else {
                    full
                };
                let s = c.sym(&mut self.multi, if C::ENC { want as u32 } else { 0 }) as i32;
                if u == 1 && s == 511 {
                    return self.times[l];
                } else if s == full {
                    self.fresh(c, this);
                    return self.times[self.last];
                } else if s < full {
                    let m = if s <= 500 { s } else { 500 - s };
                    let (pred, ctx) = match m {
                        1 => (self.diffs[l], 1),
                        0 => (0, 7),
                        2..=9 => (m.wrapping_mul(self.diffs[l]), 2),
                        10..=499 => (m.wrapping_mul(self.diffs[l]), 3),
                        500 => (m.wrapping_mul(self.diffs[l]), 4),
                        -9..=-1 => (m.wrapping_mul(self.diffs[l]), 5),
                        _ => ((-10i32).wrapping_mul(self.diffs[l]), 6),
                    };
                    let d = self.ic.code(c, pred, d32, ctx);
                    match m {
                        1 => self.extreme[l] = 0,
                        0 | 500 | -10 => self.bump(d),
                        _ => {}
                    }
                    self.times[l] = self.times[l].wrapping_add(d as i64 as u64);
                    return self.times[l];
                }
                switch = (s - full) as usize;
            }
            self.last = (self.last + switch) & 3;
        }
    }
}
pub struct Gps11V2(Option<GpsSeq>);
impl Gps11V2 {
    pub fn new() -> Self {
        Gps11V2(None)
    }
}
impl<C: Coder> Item<C> for Gps11V2 {
    fn first(&mut self, cur: &[u8]) {
        self.0 = Some(GpsSeq::new(u64_(cur, 0), true));
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        let v = self.0.as_mut().unwrap().code(c, u64_(cur, 0));
        put(cur, 0, &v.to_le_bytes());
    }
}

// ---------------------------------------------------------------------------- RGB12

pub struct Rgb12V1 {
    last: [u8; 6],
    used: Model,
    ic: IntCoder,
}
impl Rgb12V1 {
    pub fn new() -> Self {
        Rgb12V1 { last: [0; 6], used: Model::new(64), ic: IntCoder::new(8, 6) }
    }
}
impl<C: Coder> Item<C> for Rgb12V1 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        // bit order: low red, high red, low green, high green, low blue, high blue = byte order
        let mut s = 0;
        for i in 0..6 {
            s |= ((cur[i] != self.last[i]) as u32) << i;
        }
        let s = c.sym(&mut self.used, s);
        for i in 0..6 {
            if s >> i & 1 == 1 {
                cur[i] = self.ic.code(c, self.last[i] as i32, cur[i] as i32, i as u32) as u8;
            } else {
                cur[i] = self.last[i];
            }
        }
        self.last.copy_from_slice(cur);
    }
}

#[derive(Clone)]
pub struct RgbModels {
    used: Model,
    diff: Vec<Model>,
}
impl RgbModels {
    pub fn new() -> Self {
        RgbModels { used: Model::new(128), diff: vec![Model::new(256); 6] }
    }
    /// returns true when something changed
    fn code<C: Coder>(&mut self, c: &mut C, last: &[u8], cur: &mut [u8]) -> bool {
        let w: Vec<i32> = cur[..6].iter().map(|b| *b as i32).collect();
        let p: Vec<i32> = last[..6].iter().map(|b| *b as i32).collect();
        let mut s = 0;
        for i in 0..6 {
            s |= ((w[i] != p[i]) as u32) << i;
        }
        if w[0] != w[2] || w[0] != w[4] || w[1] != w[3] || w[1] != w[5] {
            s |= 64;
        }
        let s = c.sym(&mut self.used, s);
        let mut o = p.clone();
        let mut dl = 0;
        let mut dh = 0;
        if s & 1 != 0 {
            o[0] = (p[0] + c.sym(&mut self.diff[0], fold(w[0] - p[0])) as i32) & 255;
        }
        dl += o[0] - p[0];
        if s & 2 != 0 {
            o[1] = (p[1] + c.sym(&mut self.diff[1], fold(w[1] - p[1])) as i32) & 255;
        }
        dh += o[1] - p[1];
        if s & 64 != 0 {
            if s & 4 != 0 {
                let pr = clamp8(dl + p[2]);
                o[2] = (pr + c.sym(&mut self.diff[2], fold(w[2] - pr)) as i32) & 255;
            }
            if s & 16 != 0 {
                let d = (dl + o[2] - p[2]) / 2;
                let pr = clamp8(d + p[4]);
                o[4] = (pr + c.sym(&mut self.diff[4], fold(w[4] - pr)) as i32) & 255;
            }
            if s & 8 != 0 {
                let pr = clamp8(dh + p[3]);
                o[3] = (pr + c.sym(&mut self.diff[3], fold(w[3] - pr)) as i32) & 255;
            }
            if s & 32 != 0 {
                let d = (dh + o[3] - p[3]) / 2;
                let pr = clamp8(d + p[5]);
                o[5] = (pr + c.sym(&mut self.diff[5], fold(w[5] - pr)) as i32) & 255;
            }
        } else {
            o[2] = o[0];
            o[4] = o[0];
            o[3] = o[1];
            o[5] = o[1];
        }
        for i in 0..6 {
            cur[i] = o[i] as u8;
        }
        s & 63 != 0
    }
}
pub struct Rgb12V2 {
    last: [u8; 6],
    m: RgbModels,
}
impl Rgb12V2 {
    pub fn new() -> Self {
        Rgb12V2 { last: [0; 6], m: RgbModels::new() }
    }
}
impl<C: Coder> Item<C> for Rgb12V2 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        self.m.code(c, &self.last, cur);
        self.last.copy_from_slice(cur);
    }
}

// ---------------------------------------------------------------------------- BYTE

pub struct ByteV1 {
    last: Vec<u8>,
    ic: IntCoder,
}
impl ByteV1 {
    pub fn new(n: usize) -> Self {
        ByteV1 { last: vec![0; n], ic: IntCoder::new(8, n as u32) }
    }
}
impl<C: Coder> Item<C> for ByteV1 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        for i in 0..cur.len() {
            cur[i] = self.ic.code(c, self.last[i] as i32, cur[i] as i32, i as u32) as u8;
        }
        self.last.copy_from_slice(cur);
    }
}
pub struct ByteV2 {
    last: Vec<u8>,
    m: Vec<Model>,
}
impl ByteV2 {
    pub fn new(n: usize) -> Self {
        ByteV2 { last: vec![0; n], m: vec![Model::new(256); n] }
    }
}
impl<C: Coder> Item<C> for ByteV2 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        for i in 0..cur.len() {
            let d = c.sym(&mut self.m[i], fold(cur[i] as i32 - self.last[i] as i32));
            cur[i] = self.last[i].wrapping_add(d as u8);
        }
        self.last.copy_from_slice(cur);
    }
}

// ---------------------------------------------------------------------------- WAVEPACKET13

#[derive(Clone)]
pub struct WaveModels {
    index: Model,
    offset: Vec<Model>,
    ic_offset: IntCoder,
    ic_size: IntCoder,
    ic_ret: IntCoder,
    ic_xyz: IntCoder,
    last_diff: i32,
    last_sym: usize,
}
impl WaveModels {
    pub fn new() -> Self {
        WaveModels {
            index: Model::new(256),
            offset: vec![Model::new(4); 4],
            ic_offset: IntCoder::new(32, 1),
            ic_size: IntCoder::new(32, 1),
            ic_ret: IntCoder::new(32, 1),
            ic_xyz: IntCoder::new(32, 3),
            last_diff: 0,
            last_sym: 0,
        }
    }
    fn code<C: Coder>(&mut self, c: &mut C, last: &[u8], cur: &mut [u8]) {
        cur[0] = c.sym(&mut self.index, cur[0] as u32) as u8;
        let this = u64_(cur, 1);
        let lo = u64_(last, 1);
        let ls = u32_(last, 9);
        let d64 = this.wrapping_sub(lo) as i64;
        let d32 = d64 as i32;
        let want = if d64 == d32 as i64 {
            if d32 == 0 {
                0
            } else if d64 == ls as i64 {
                1
            } else {
                2
            }
        } else {
            3
        };
        let s = c.sym(&mut self.offset[self.last_sym], want);
        self.last_sym = s as usize;
        let off = match s {
            0 => lo,
            1 => lo.wrapping_add(ls as u64),
            2 => {
                let d = self.ic_offset.code(c, self.last_diff, d32, 0);
                self.last_diff = d;
                lo.wrapping_add(d as i64 as u64)
            }
            _ => c.raw64(this),
        };
        put(cur, 1, &off.to_le_bytes());
        let v = self.ic_size.code(c, ls as i32, u32_(cur, 9) as i32, 0);
        put(cur, 9, &v.to_le_bytes());
        let v = self.ic_ret.code(c, i32_(last, 13), i32_(cur, 13), 0);
        put(cur, 13, &v.to_le_bytes());
        for k in 0..3 {
            let o = 17 + 4 * k;
            let v = self.ic_xyz.code(c, i32_(last, o), i32_(cur, o), k as u32);
            put(cur, o, &v.to_le_bytes());
        }
    }
}
pub struct Wave13V1 {
    last: [u8; 29],
    m: WaveModels,
}
impl Wave13V1 {
    pub fn new() -> Self {
        Wave13V1 { last: [0; 29], m: WaveModels::new() }
    }
}
impl<C: Coder> Item<C> for Wave13V1 {
    fn first(&mut self, cur: &[u8]) {
        self.last.copy_from_slice(cur);
    }
    fn code(&mut self, c: &mut C, cur: &mut [u8]) {
        self.m.code(c, &self.last, cur);
        self.last.copy_from_slice(cur);
    }
}

// ---------------------------------------------------------------------------- layered items

/// One coder per layer, created by the container.
pub struct Layers<C> {
    pub coders: Vec<Option<C>>,
    pub changed: Vec<bool>,
}

pub trait LayeredItem<C: Coder> {
    fn layers(&self) -> usize;
    fn first(&mut self, cur: &[u8], context: &mut usize);
    fn code(&mut self, l: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize);
}

struct P14Ctx {
    last: [u8; 30],
    gps_changed: bool,
    last_int: [u16; 8],
    mx: Vec<Median5>,
    my: Vec<Median5>,
    z: [i32; 8],
    changed: Vec<Model>,
    channel: Model,
    nret: Vec<Option<Model>>,
    rnum_same: Model,
    rnum: Vec<Option<Model>>,
    ic_dx: IntCoder,
    ic_dy: IntCoder,
    ic_z: IntCoder,
    class: Vec<Option<Model>>,
    flags: Vec<Option<Model>>,
    user: Vec<Option<Model>>,
    ic_int: IntCoder,
    ic_angle: IntCoder,
    ic_psid: IntCoder,
    gps: GpsSeq,
}
impl P14Ctx {
    fn new(p: &[u8; 30]) -> Self {
        P14Ctx {
            last: *p,
            gps_changed: false,
            last_int: [u16_(p, 12); 8],
            mx: vec![Median5::new(); 12],
            my: vec![Median5::new(); 12],
            z: [i32_(p, 8); 8],
            changed: vec![Model::new(128); 8],
            channel: Model::new(3),
            nret: vec![None; 16],
            rnum_same: Model::new(13),
            rnum: vec![None; 16],
            ic_dx: IntCoder::new(32, 2),
            ic_dy: IntCoder::new(32, 22),
            ic_z: IntCoder::new(32, 20),
            class: vec![None; 64],
            flags: vec![None; 64],
            user: vec![None; 64],
            ic_int: IntCoder::new(16, 4),
            ic_angle: IntCoder::new(16, 2),
            ic_psid: IntCoder::new(16, 1),
            gps: GpsSeq::new(u64_(p, 22), false),
        }
    }
}
/// LASzip compares the times as floating-point numbers (so a NaN always
/// differs); times whose bits differ must be coded for losslessness (zeros of
/// different sign, which LASzip itself loses).
fn gps_differ(a: &[u8], b: &[u8]) -> bool {
    let f = |p: &[u8]| f64::from_bits(u64_(p, 22));
    f(a) != f(b) || a[22..30] != b[22..30]
}

// POINT14 raw layout: x 0, y 4, z 8, intensity 12, returns 14 (r | n<<4),
// flags 15 (class flags 4 | channel 2 | scan direction | edge), classification 16, user data 17,
// scan angle 18, point source 20, gps time 22
pub struct Point14 {
    version: u32,
    cur_ctx: usize,
    ctx: [Option<Box<P14Ctx>>; 4],
}
impl Point14 {
    pub fn new(version: u32) -> Self {
        Point14 { version, cur_ctx: 0, ctx: [None, None, None, None] }
    }
}
impl<C: Coder> LayeredItem<C> for Point14 {
    fn layers(&self) -> usize {
        9
    }
    fn first(&mut self, cur: &[u8], context: &mut usize) {
        self.ctx = [None, None, None, None];
        self.cur_ctx = (cur[15] >> 4 & 3) as usize;
        *context = self.cur_ctx;
        self.ctx[self.cur_ctx] = Some(Box::new(P14Ctx::new(cur.try_into().unwrap())));
    }
    fn code(&mut self, lay: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize) {
        let want: [u8; 30] = (&*cur).try_into().unwrap();
        let rn = |p: &[u8; 30]| ((p[14] & 15) as u32, (p[14] >> 4) as u32);
        let old = self.cur_ctx;
        let (lr, ln) = rn(&self.ctx[old].as_ref().unwrap().last);
        let lpr = (lr == 1) as usize + 2 * (lr >= ln) as usize + 4 * self.ctx[old].as_ref().unwrap().gps_changed as usize;

        // wanted change mask, relative to the last point of the (possibly new) context
        let want_ch = (want[15] >> 4 & 3) as usize;
        let mut mask = 0;
        if C::ENC {
            let base = match &self.ctx[want_ch] {
                Some(c) => &c.last,
                None => &self.ctx[old].as_ref().unwrap().last,
            };
            let (br, bn) = rn(base);
            let (r, n) = rn(&want);
            mask = ((want_ch != old) as u32) << 6
                | ((want[20..22] != base[20..22]) as u32) << 5
                | (gps_differ(&want, base) as u32) << 4
                | ((want[18..20] != base[18..20]) as u32) << 3
                | ((n != bn) as u32) << 2;
            if r != br {
                mask |= if r == (br + 1) % 16 {
                    1
                } else if r == (br + 15) % 16 {
                    2
                } else {
                    3
                };
            }
        }
        let xy = lay[0].as_mut().unwrap();
        let mask = xy.sym(&mut self.ctx[old].as_mut().unwrap().changed[lpr], mask);
        if mask & 64 != 0 {
            let d = (want_ch + 4 - old) % 4;
            let d = xy.sym(&mut self.ctx[old].as_mut().unwrap().channel, if C::ENC { d as u32 - 1 } else { 0 }) as usize + 1;
            let new = (old + d) % 4;
            if self.ctx[new].is_none() {
                let l = self.ctx[old].as_ref().unwrap().last;
                self.ctx[new] = Some(Box::new(P14Ctx::new(&l)));
            }
            self.cur_ctx = new;
            *context = new;
        }
        if self.version >= 4 {
            *context = self.cur_ctx;
        }
        let st = self.ctx[self.cur_ctx].as_mut().unwrap();
        let last = st.last;
        let (lr, ln) = rn(&last);
        let gps = mask & 16 != 0;
        let g = gps as usize;
        let mut o = last;
        let n = if mask & 4 != 0 { xy.sym(model(&mut st.nret, ln as usize, 16), rn(&want).1) } else { ln };
        let r = match mask & 3 {
            0 => lr,
            1 => (lr + 1) % 16,
            2 => (lr + 15) % 16,
            _ => {
                if gps {
                    xy.sym(model(&mut st.rnum, lr as usize, 16), rn(&want).0)
                } else {
                    let d = (rn(&want).0 + 16 - lr) % 16;
                    let s = xy.sym(&mut st.rnum_same, if C::ENC { d - 2 } else { 0 });
                    (lr + s + 2) % 16
                }
            }
        };
        o[14] = (r | n << 4) as u8;
        let m = MAP6CTX[n as usize][r as usize] as usize;
        let l = level8ctx(n, r);
        let cpr = 2 * (r == 1) as usize + (r >= n) as usize;
        let single = (n == 1) as u32;
        let mi = m << 1 | g;
        let d = st.ic_dx.code(xy, st.mx[mi].get(), i32_(&want, 0).wrapping_sub(i32_(&last, 0)), single);
        st.mx[mi].add(d);
        put(&mut o, 0, &i32_(&last, 0).wrapping_add(d).to_le_bytes());
        let kx = st.ic_dx.k;
        let d = st.ic_dy.code(xy, st.my[mi].get(), i32_(&want, 4).wrapping_sub(i32_(&last, 4)), single + if kx < 20 { kx & !1 } else { 20 });
        st.my[mi].add(d);
        put(&mut o, 4, &i32_(&last, 4).wrapping_add(d).to_le_bytes());
        let k = (kx + st.ic_dy.k) / 2;
        // Z
        if let Some(c) = lay[1].as_mut() {
            let z = st.ic_z.code(c, st.z[l], i32_(&want, 8), single + if k < 18 { k & !1 } else { 18 });
            st.z[l] = z;
            put(&mut o, 8, &z.to_le_bytes());
        }
        // classification
        if let Some(c) = lay[2].as_mut() {
            let ccc = ((last[16] & 0x1F) as usize) << 1 | (cpr == 3) as usize;
            o[16] = c.sym(model(&mut st.class, ccc, 256), want[16] as u32) as u8;
            changed[2] |= o[16] != last[16];
        }
        // flags: class flags, scan direction (bit 4), edge of flight line (bit 5)
        let fl = |b: u8| (b & 15) as u32 | ((b >> 6) as u32) << 4;
        let ch_bits = (self.cur_ctx as u8) << 4;
        if let Some(c) = lay[3].as_mut() {
            let f = c.sym(model(&mut st.flags, fl(last[15]) as usize, 64), fl(want[15]));
            changed[3] |= f != fl(last[15]);
            o[15] = (f & 15) as u8 | ((f >> 4) << 6) as u8 | ch_bits;
        } else {
            o[15] = last[15] & !0x30 | ch_bits;
        }
        // intensity
        if let Some(c) = lay[4].as_mut() {
            let ii = cpr << 1 | g;
            let v = st.ic_int.code(c, st.last_int[ii] as i32, u16_(&want, 12) as i32, cpr as u32) as u16;
            st.last_int[ii] = v;
            put(&mut o, 12, &v.to_le_bytes());
            changed[4] |= v != u16_(&last, 12);
        }
        // scan angle
        if mask & 8 != 0 {
            changed[5] = true;
            if let Some(c) = lay[5].as_mut() {
                let v = st.ic_angle.code(c, i16_(&last, 18), i16_(&want, 18), g as u32) as u16;
                put(&mut o, 18, &v.to_le_bytes());
            }
        }
        // user data
        if let Some(c) = lay[6].as_mut() {
            o[17] = c.sym(model(&mut st.user, (last[17] / 4) as usize, 256), want[17] as u32) as u8;
            changed[6] |= o[17] != last[17];
        }
        // point source
        if mask & 32 != 0 {
            changed[7] = true;
            if let Some(c) = lay[7].as_mut() {
                let v = st.ic_psid.code(c, u16_(&last, 20) as i32, u16_(&want, 20) as i32, 0) as u16;
                put(&mut o, 20, &v.to_le_bytes());
            }
        }
        // gps time
        if gps {
            changed[8] = true;
            if let Some(c) = lay[8].as_mut() {
                let v = st.gps.code(c, u64_(&want, 22));
                put(&mut o, 22, &v.to_le_bytes());
            }
        }
        st.last = o;
        st.gps_changed = gps;
        cur.copy_from_slice(&o);
    }
}
fn i16_(b: &[u8], o: usize) -> i32 {
    u16_(b, o) as i16 as i32
}

/// Context handling common to all layered items other than POINT14.
/// `S` = models, `last` = last item per context.
struct CtxSet<S> {
    version: u32,
    cur: usize,
    ctx: [Option<(Vec<u8>, S)>; 4],
}
impl<S> CtxSet<S> {
    fn new(version: u32) -> Self {
        CtxSet { version, cur: 0, ctx: [None, None, None, None] }
    }
    fn first(&mut self, item: &[u8], context: usize, s: S) {
        self.ctx = [None, None, None, None];
        self.cur = context;
        self.ctx[context] = Some((item.to_vec(), s));
    }
    /// Returns the index of the context whose *last item* is used (and overwritten afterwards):
    /// version 3 keeps using the old one when switching to an already used context.
    fn switch(&mut self, context: usize, mk: impl FnOnce() -> S) -> usize {
        let mut src = self.cur;
        if context != self.cur {
            self.cur = context;
            if self.ctx[context].is_none() {
                let l = self.ctx[src].as_ref().unwrap().0.clone();
                self.ctx[context] = Some((l, mk()));
                src = context;
            } else if self.version >= 4 {
                src = context;
            }
        }
        src
    }
}

pub struct Rgb14 {
    set: CtxSet<RgbModels>,
}
impl Rgb14 {
    pub fn new(version: u32) -> Self {
        Rgb14 { set: CtxSet::new(version) }
    }
}
impl<C: Coder> LayeredItem<C> for Rgb14 {
    fn layers(&self) -> usize {
        1
    }
    fn first(&mut self, cur: &[u8], context: &mut usize) {
        self.set.first(cur, *context, RgbModels::new());
    }
    fn code(&mut self, l: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize) {
        let src = self.set.switch(*context, RgbModels::new);
        let last = self.set.ctx[src].as_ref().unwrap().0.clone();
        let at = self.set.cur;
        match l[0].as_mut() {
            Some(c) => changed[0] |= self.set.ctx[at].as_mut().unwrap().1.code(c, &last, cur),
            None => cur.copy_from_slice(&last),
        }
        self.set.ctx[src].as_mut().unwrap().0.copy_from_slice(cur);
    }
}

#[derive(Clone)]
pub struct NirModels {
    used: Model,
    diff: [Model; 2],
}
impl NirModels {
    fn new() -> Self {
        NirModels { used: Model::new(4), diff: [Model::new(256), Model::new(256)] }
    }
}
pub struct Nir14 {
    set: CtxSet<NirModels>,
}
impl Nir14 {
    pub fn new(version: u32) -> Self {
        Nir14 { set: CtxSet::new(version) }
    }
}
impl<C: Coder> LayeredItem<C> for Nir14 {
    fn layers(&self) -> usize {
        1
    }
    fn first(&mut self, cur: &[u8], context: &mut usize) {
        self.set.first(cur, *context, NirModels::new());
    }
    fn code(&mut self, l: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize) {
        let src = self.set.switch(*context, NirModels::new);
        let last = self.set.ctx[src].as_ref().unwrap().0.clone();
        let at = self.set.cur;
        match l[0].as_mut() {
            Some(c) => {
                let m = &mut self.set.ctx[at].as_mut().unwrap().1;
                let want = [cur[0], cur[1]];
                let s = c.sym(&mut m.used, (want[0] != last[0]) as u32 | ((want[1] != last[1]) as u32) << 1);
                for k in 0..2 {
                    cur[k] = last[k];
                    if s >> k & 1 == 1 {
                        cur[k] = last[k].wrapping_add(c.sym(&mut m.diff[k], fold(want[k] as i32 - last[k] as i32)) as u8);
                    }
                }
                changed[0] |= s != 0;
            }
            None => cur.copy_from_slice(&last),
        }
        self.set.ctx[src].as_mut().unwrap().0.copy_from_slice(cur);
    }
}

pub struct Byte14 {
    n: usize,
    set: CtxSet<Vec<Model>>,
}
impl Byte14 {
    pub fn new(version: u32, n: usize) -> Self {
        Byte14 { n, set: CtxSet::new(version) }
    }
}
impl<C: Coder> LayeredItem<C> for Byte14 {
    fn layers(&self) -> usize {
        self.n
    }
    fn first(&mut self, cur: &[u8], context: &mut usize) {
        self.set.first(cur, *context, vec![Model::new(256); self.n]);
    }
    fn code(&mut self, l: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize) {
        let n = self.n;
        let src = self.set.switch(*context, || vec![Model::new(256); n]);
        let last = self.set.ctx[src].as_ref().unwrap().0.clone();
        let at = self.set.cur;
        for i in 0..n {
            match l[i].as_mut() {
                Some(c) => {
                    let m = &mut self.set.ctx[at].as_mut().unwrap().1[i];
                    let d = c.sym(m, fold(cur[i] as i32 - last[i] as i32));
                    cur[i] = last[i].wrapping_add(d as u8);
                    changed[i] |= d != 0;
                }
                None => cur[i] = last[i],
            }
        }
        self.set.ctx[src].as_mut().unwrap().0.copy_from_slice(cur);
    }
}

pub struct Wave14 {
    set: CtxSet<WaveModels>,
}
impl Wave14 {
    pub fn new(version: u32) -> Self {
        Wave14 { set: CtxSet::new(version) }
    }
}
impl<C: Coder> LayeredItem<C> for Wave14 {
    fn layers(&self) -> usize {
        1
    }
    fn first(&mut self, cur: &[u8], context: &mut usize) {
        self.set.first(cur, *context, WaveModels::new());
    }
    fn code(&mut self, l: &mut [Option<C>], changed: &mut [bool], cur: &mut [u8], context: &mut usize) {
        let src = self.set.switch(*context, WaveModels::new);
        let last = self.set.ctx[src].as_ref().unwrap().0.clone();
        let at = self.set.cur;
        match l[0].as_mut() {
            Some(c) => {
                self.set.ctx[at].as_mut().unwrap().1.code(c, &last, cur);
                changed[0] |= cur[..] != last[..];
            }
            None => cur.copy_from_slice(&last),
        }
        self.set.ctx[src].as_mut().unwrap().0.copy_from_slice(cur);
    }
}
