//! Reference arithmetic coder (LASzip's FastAC variant), written independently of the code under
//! check. The encoder keeps its whole output in a Vec and propagates carries the boring way; the
//! decoder searches symbols linearly. Every item codec is written once over `Coder`, so one
//! definition is both encoder and decoder.

const MIN_LEN: u32 = 0x0100_0000;
const MAX_LEN: u32 = 0xFFFF_FFFF;

#[derive(Clone)]
pub struct Model {
    n: u32,
    counts: Vec<u32>,
    dist: Vec<u32>,
    total: u32,
    cycle: u32,
    until: u32,
}

impl Model {
    pub fn new(n: u32) -> Model {
        let mut m = Model { n, counts: vec![1; n as usize], dist: vec![0; n as usize], total: 0, cycle: n, until: 0 };
        m.update();
        m.cycle = (n + 6) >> 1;
        m.until = m.cycle;
        m
    }
    fn update(&mut self) {
        self.total += self.cycle;
        if self.total > 1 << 15 {
            self.total = 0;
            for c in self.counts.iter_mut() {
                *c = (*c + 1) >> 1;
                self.total += *c;
            }
        }
        let scale = 0x8000_0000u32 / self.total;
        let mut sum = 0u32;
        for k in 0..self.n as usize {
            self.dist[k] = scale.wrapping_mul(sum) >> (31 - 15);
            sum += self.counts[k];
        }
        self.cycle = ((5 * self.cycle) >> 2).min((self.n + 6) << 3);
        self.until = self.cycle;
    }
    fn count(&mut self, s: u32) {
        self.counts[s as usize] += 1;
        self.until -= 1;
        if self.until == 0 {
            self.update();
        }
    }
}

#[derive(Clone)]
pub struct BitModel {
    zeros: u32,
    bits: u32,
    prob: u32,
    cycle: u32,
    until: u32,
}

impl BitModel {
    pub fn new() -> BitModel {
        BitModel { zeros: 1, bits: 2, prob: 1 << 12, cycle: 4, until: 4 }
    }
    fn count(&mut self, bit: bool) {
        if !bit {
            self.zeros += 1;
        }
        self.until -= 1;
        if self.until == 0 {
            self.bits += self.cycle;
            if self.bits > 1 << 13 {
                self.bits = (self.bits + 1) >> 1;
                self.zeros = (self.zeros + 1) >> 1;
                if self.zeros == self.bits {
                    self.bits += 1;
                }
            }
            let scale = 0x8000_0000u32 / self.bits;
            self.prob = self.zeros.wrapping_mul(scale) >> (31 - 13);
            self.cycle = ((5 * self.cycle) >> 2).min(64);
            self.until = self.cycle;
        }
    }
}

/// `want` is the value to encode; a decoder ignores it and returns the decoded value.
pub trait Coder {
    const ENC: bool;
    fn sym(&mut self, m: &mut Model, want: u32) -> u32;
    fn bit(&mut self, m: &mut BitModel, want: bool) -> bool;
    /// raw bits, 1..=32
    fn raw(&mut self, bits: u32, want: u32) -> u32;
    fn raw_bit(&mut self, want: u32) -> u32 {
        self.raw(1, want)
    }
    fn raw8(&mut self, want: u32) -> u32 {
        self.raw(8, want)
    }
    fn raw16(&mut self, want: u32) -> u32 {
        self.raw(16, want)
    }
    fn raw32(&mut self, want: u32) -> u32 {
        let lo = self.raw(16, want & 0xFFFF);
        let hi = self.raw(16, want >> 16);
        hi << 16 | lo
    }
    fn raw64(&mut self, want: u64) -> u64 {
        let lo = self.raw32(want as u32) as u64;
        let hi = self.raw32((want >> 32) as u32) as u64;
        hi << 32 | lo
    }
}

pub struct Enc {
    pub out: Vec<u8>,
    base: u32,
    len: u32,
}

impl Enc {
    pub fn new() -> Enc {
        Enc { out: vec![], base: 0, len: MAX_LEN }
    }
    pub fn state(&self) -> (u32, u32) {
        (self.base, self.len)
    }
    fn add(&mut self, x: u32) {
        let (b, carry) = self.base.overflowing_add(x);
        self.base = b;
        if carry {
            let mut i = self.out.len();
            loop {
                i -= 1;
                if self.out[i] == 0xFF {
                    self.out[i] = 0;
                } else {
                    self.out[i] += 1;
                    break;
                }
            }
        }
    }
    fn renorm(&mut self) {
        while self.len < MIN_LEN {
            self.out.push((self.base >> 24) as u8);
            self.base <<= 8;
            self.len <<= 8;
        }
    }
    /// Final bytes and the two or three zero bytes the decoder reads ahead.
    pub fn done(mut self) -> Vec<u8> {
        let another = self.len > 2 * MIN_LEN;
        if another {
            self.add(MIN_LEN);
            self.len = MIN_LEN >> 1;
        } else {
            self.add(MIN_LEN >> 1);
            self.len = MIN_LEN >> 9;
        }
        self.renorm();
        self.out.extend_from_slice(&[0, 0]);
        if another {
            self.out.push(0);
        }
        self.out
    }
}

impl Coder for Enc {
    const ENC: bool = true;
    fn sym(&mut self, m: &mut Model, s: u32) -> u32 {
        assert!(s < m.n, "reference encoder: symbol {} of {}", s, m.n);
        let r = self.len >> 15;
        let x = m.dist[s as usize].wrapping_mul(r);
        if s == m.n - 1 {
            self.len -= x;
        } else {
            self.len = m.dist[s as usize + 1].wrapping_mul(r) - x;
        }
        self.add(x);
        self.renorm();
        m.count(s);
        s
    }
    fn bit(&mut self, m: &mut BitModel, b: bool) -> bool {
        let x = m.prob.wrapping_mul(self.len >> 13);
        if b {
            self.len -= x;
            self.add(x);
        } else {
            self.len = x;
        }
        self.renorm();
        m.count(b);
        b
    }
    fn raw(&mut self, bits: u32, v: u32) -> u32 {
        if bits > 19 {
            self.raw(16, v & 0xFFFF);
            self.raw(bits - 16, v >> 16);
        } else {
            self.len >>= bits;
            let x = v.wrapping_mul(self.len);
            self.add(x);
            self.renorm();
        }
        v
    }
}

pub struct Dec<'a> {
    data: &'a [u8],
    pub pos: usize,
    value: u32,
    len: u32,
    /// set when bytes beyond the end were needed
    pub eof: bool,
}

impl<'a> Dec<'a> {
    pub fn new(data: &'a [u8]) -> Dec<'a> {
        let mut d = Dec { data, pos: 0, value: 0, len: MAX_LEN, eof: false };
        for _ in 0..4 {
            d.value = d.value << 8 | d.next();
        }
        d
    }
    fn next(&mut self) -> u32 {
        if self.pos < self.data.len() {
            self.pos += 1;
            self.data[self.pos - 1] as u32
        } else {
            self.eof = true;
            0
        }
    }
    fn renorm(&mut self) {
        while self.len < MIN_LEN {
            self.value = self.value << 8 | self.next();
            self.len <<= 8;
        }
    }
}

impl<'a> Coder for Dec<'a> {
    const ENC: bool = false;
    fn sym(&mut self, m: &mut Model, _w: u32) -> u32 {
        let r = self.len >> 15;
        let mut s = m.n - 1;
        while s > 0 && m.dist[s as usize].wrapping_mul(r) > self.value {
            s -= 1;
        }
        let x = m.dist[s as usize].wrapping_mul(r);
        let hi = if s == m.n - 1 { self.len } else { m.dist[s as usize + 1].wrapping_mul(r) };
        self.value -= x;
        self.len = hi - x;
        self.renorm();
        m.count(s);
        s
    }
    fn bit(&mut self, m: &mut BitModel, _w: bool) -> bool {
        let x = m.prob.wrapping_mul(self.len >> 13);
        let b = self.value >= x;
        if b {
            self.value -= x;
            self.len -= x;
        } else {
            self.len = x;
        }
        self.renorm();
        m.count(b);
        b
    }
    fn raw(&mut self, bits: u32, _w: u32) -> u32 {
        if bits > 19 {
            let lo = self.raw(16, 0);
            let hi = self.raw(bits - 16, 0);
            return hi << 16 | lo;
        }
        self.len >>= bits;
        let s = self.value / self.len;
        self.value -= s.wrapping_mul(self.len);
        self.renorm();
        s
    }
}

/// LASzip's IntegerCompressor.
#[derive(Clone)]
pub struct IntCoder {
    corr_bits: u32,
    range: u32,
    min: i32,
    max: i32,
    bits_high: u32,
    mbits: Vec<Model>,
    zero: BitModel,
    corr: Vec<Option<Model>>,
    pub k: u32,
}

impl IntCoder {
    pub fn new(bits: u32, contexts: u32) -> IntCoder {
        IntCoder::full(bits, contexts, 8, 0)
    }
    pub fn full(bits: u32, contexts: u32, bits_high: u32, range: u32) -> IntCoder {
        let (corr_bits, r, min, max);
        if range != 0 {
            let mut cb = 0;
            let mut x = range;
            while x != 0 {
                x >>= 1;
                cb += 1;
            }
            if range == 1u32 << (cb - 1) {
                cb -= 1;
            }
            corr_bits = cb;
            r = range;
            min = (0i32).wrapping_sub((range / 2) as i32);
            max = min.wrapping_add(range.wrapping_sub(1) as i32);
        } else if bits != 0 && bits < 32 {
            corr_bits = bits;
            r = 1u32 << bits;
            min = (0i32).wrapping_sub((r / 2) as i32);
            max = min.wrapping_add((r - 1) as i32);
        } else {
            corr_bits = 32;
            r = 0;
            min = i32::MIN;
            max = i32::MAX;
        }
        IntCoder {
            corr_bits,
            range: r,
            min,
            max,
            bits_high,
            mbits: (0..contexts).map(|_| Model::new(corr_bits + 1)).collect(),
            zero: BitModel::new(),
            corr: vec![None; corr_bits as usize + 1],
            k: 0,
        }
    }

    /// Codes `real` given the prediction; returns the (de)coded value.
    pub fn code<C: Coder>(&mut self, c: &mut C, pred: i32, real: i32, ctx: u32) -> i32 {
        let mut corr = real.wrapping_sub(pred);
        if self.range != 0 {
            if corr < self.min {
                corr = corr.wrapping_add(self.range as i32);
            } else if corr > self.max {
                corr = corr.wrapping_sub(self.range as i32);
            }
        }
        let corr = self.corrector(c, corr, ctx);
        let mut v = pred.wrapping_add(corr);
        if self.range != 0 {
            if v < 0 {
                v = v.wrapping_add(self.range as i32);
            } else if v as u32 >= self.range {
                v = v.wrapping_sub(self.range as i32);
            }
        }
        if C::ENC {
            real
        } else {
            v
        }
    }

    fn corrector<C: Coder>(&mut self, c: &mut C, corr: i32, ctx: u32) -> i32 {
        // k: the tightest interval [-(2^k - 1), 2^k] that contains the corrector
        let mag: u32 = if corr <= 0 { (corr as i64).unsigned_abs() as u32 } else { corr as u32 - 1 };
        let want_k = 32 - mag.leading_zeros();
        let k = c.sym(&mut self.mbits[ctx as usize], if C::ENC { want_k } else { 0 });
        self.k = k;
        if k == 0 {
            return c.bit(&mut self.zero, corr == 1) as i32;
        }
        if k == 32 {
            return i32::MIN;
        }
        // translate into [0, 2^k - 1]
        let t: u32 = if corr < 0 { corr.wrapping_add(((1u32 << k) - 1) as i32) as u32 } else { corr.wrapping_sub(1) as u32 };
        let high = self.bits_high;
        let m = self.corr[k as usize].get_or_insert_with(|| Model::new(1 << k.min(high)));
        let t = if k <= high {
            c.sym(m, if C::ENC { t } else { 0 })
        } else {
            let low = k - high;
            let hi = c.sym(m, if C::ENC { t >> low } else { 0 });
            let lo = c.raw(low, t & ((1u32 << low) - 1));
            hi << low | lo
        };
        if t >= 1u32 << (k - 1) {
            (t as i32).wrapping_add(1)
        } else {
            (t as i32).wrapping_sub(((1u32 << k) - 1) as i32)
        }
    }
    pub fn corr_bits(&self) -> u32 {
        self.corr_bits
    }
}
