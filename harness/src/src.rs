//! A choice sequence drawn by proptest, decoded into structured cases.  Every random decision of a
//! case comes from here, so proptest's shrinking (fewer and smaller choices) shrinks the case.
pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Src { data, pos: 0 }
    }
    /// Next choice; 0 (the simplest) once the sequence is used up.
    pub fn next(&mut self) -> u32 {
        let r = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        r
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    /// Uniform in 0..n, monotone in the choice.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den (false is simplest).
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut k = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        ws.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        ((self.next() as u64) << 32) | self.next() as u64
    }
    /// An integer in lo..=hi biased to the ends, zero and small values.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        let c = self.below(8);
        let v = match c {
            0 | 1 => {
                let s = self.below(21) as i128 - 10;
                s
            }
            2 => lo,
            3 => hi,
            4 => lo + self.below(4) as i128,
            5 => hi - self.below(4) as i128,
            6 => {
                let bits = self.below(64) as u32;
                let v = (self.u64() >> (63 - bits)) as i128;
                if self.bool() {
                    -v
                } else {
                    v
                }
            }
            _ => {
                let span = (hi - lo) as u128;
                let r = ((self.u64() as u128) << 64) | self.u64() as u128;
                if span == u128::MAX {
                    r as i128
                } else {
                    lo + (r % (span + 1)) as i128
                }
            }
        };
        v.clamp(lo, hi)
    }
    /// A finite float.
    pub fn float(&mut self) -> f64 {
        match self.below(7) {
            0 => self.below(11) as f64 - 4.5,
            1 => self.below(1000) as f64 / 8.0 - 60.0,
            2 => 0.1 * self.below(100) as f64,
            3 => *self.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e300, -1e-300, 5e-324, 1e21, -0.0]),
            4 => (self.u64() as i64) as f64,
            _ => {
                let f = f64::from_bits(self.u64());
                if f.is_finite() {
                    f
                } else {
                    1.5
                }
            }
        }
    }
    pub fn ch(&mut self) -> char {
        match self.below(6) {
            0 | 1 => (b'a' + self.below(26) as u8) as char,
            2 => (0x20 + self.below(0x5f) as u8) as char,
            3 => *self.pick(&['/', '~', '%', '#', ' ', '"', '\\', '\'', '{', '}', '$', '.', '+', '\n', '\t', '\0', '\u{7f}', '\r', '\u{1}', '\u{f}']),
            4 => *self.pick(&['é', 'ß', '中', '🚀', '\u{301}', '\u{200b}', 'Ω', '\u{80}', '\u{ffff}', '\u{10ffff}', 'İ']),
            _ => char::from_u32(self.below(0x110000) as u32).unwrap_or('x'),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.below(max);
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }
}
