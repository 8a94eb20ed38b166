//! Choice sequences: every random decision of a generator is read from a byte
//! string, so a case is a pure function of its bytes, shrinking is byte-level
//! (delete / zero / decrement) and the same decoders serve the PRNG driven
//! runner and the coverage guided fuzz target.

pub struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    /// sub-expressions generated so far (grammar, positive) that may be repeated
    pub pool: Vec<(u32, bool, crate::term::T)>,
    /// how often sizes of this case leave their usual range
    far: Option<u16>,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0, pool: vec![], far: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn byte(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        b
    }
    pub fn u64(&mut self) -> u64 {
        let mut r = 0u64;
        for _ in 0..8 {
            r = (r << 8) | self.byte() as u64;
        }
        r
    }
    /// uniform-ish value in 0..n; byte 0 maps to 0
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        if n <= 64 {
            (self.byte() as usize) * n / 256
        } else {
            let v = ((self.byte() as usize) << 8) | self.byte() as usize;
            v * n / 65536
        }
    }
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        lo + self.below((hi - lo + 1) as usize) as i128
    }
    /// is this size one of the unusual ones? Most cases have next to none, some have many
    pub fn far(&mut self) -> bool {
        let p = match self.far {
            Some(p) => p,
            None => {
                let p = [2, 40, 100][self.weighted(&[24, 5, 1])];
                self.far = Some(p);
                p
            }
        };
        self.chance(p)
    }
    /// lo..=hi, now and then up to `max`
    pub fn upto(&mut self, lo: i128, hi: i128, max: i128) -> i128 {
        if self.far() {
            self.range(lo, max)
        } else {
            self.range(lo, hi)
        }
    }
    /// true with probability about p/256; byte 0 -> false
    pub fn chance(&mut self, p: u16) -> bool {
        (self.byte() as u16) >= 256 - p
    }
    /// index into `w`, weighted; byte 0 -> 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let v = ((self.byte() as u32) << 8) | self.byte() as u32;
        let mut r = ((v as u64 * tot as u64) >> 16) as u32;
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    pub fn pick<'b, A>(&mut self, xs: &'b [A]) -> &'b A {
        &xs[self.below(xs.len())]
    }
}

/// splitmix64: expands (seed, index) into the bytes of a case
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

/// the bytes of case number `index` of a campaign
pub fn case_bytes(seed: u64, stream: u64, index: u64, buf: &mut Vec<u8>) {
    let mut r = Rng::new(
        seed.wrapping_mul(0xD1342543DE82EF95)
            ^ stream.wrapping_mul(0xA24BAED4963EE407)
            ^ index.wrapping_mul(0x9FB21C651E98DF25),
    );
    r.next();
    // log-uniform-ish sizes: small cases are as frequent as large ones
    let sizes = [16usize, 32, 64, 96, 160, 256, 400];
    let n = sizes[(r.next() % sizes.len() as u64) as usize];
    buf.clear();
    buf.resize(n, 0);
    r.fill(buf);
}
