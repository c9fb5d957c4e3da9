//! Small deterministic PRNG (splitmix64 / xoshiro256**) and value generators biased to boundaries.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Self {
        let mut x = seed
            .wrapping_mul(0xD1342543DE82EF95)
            .wrapping_add(stream.wrapping_mul(0xA24BAED4963EE407))
            ^ idx.wrapping_mul(0x9FB21C651E98DF25);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability a/b
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        if span == u64::MAX {
            return self.u64();
        }
        lo + self.below(span + 1)
    }
    /// log-uniform: every bit length equally likely
    pub fn log64(&mut self, maxbits: u32) -> u64 {
        let bits = self.below(maxbits.min(64) as u64 + 1) as u32;
        if bits == 0 {
            return 0;
        }
        let top = 1u64 << (bits - 1);
        top | (self.u64() & (top - 1))
    }
    /// log-uniform, at least 1
    pub fn logpos(&mut self, maxbits: u32) -> u64 {
        self.log64(maxbits).max(1)
    }
    /// amounts: log-uniform with extra weight on boundaries
    pub fn amount(&mut self) -> u64 {
        match self.below(16) {
            0 => *self.pick(&[0, 1, 2, 3, 4, 5, 7, 9, 10, 99, 100, 101]),
            1 => {
                let b = self.below(64) as u32;
                let p = 1u64 << b;
                match self.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p.saturating_add(1),
                }
            }
            2 => {
                let e = self.below(20) as u32;
                let p = 10u64.saturating_pow(e);
                match self.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p.saturating_add(1),
                }
            }
            3 => u64::MAX - self.below(4),
            4..=9 => self.log64(64),
            _ => self.log64(45),
        }
    }
    /// a value near `x` (off by a little, by a factor, or equal)
    pub fn near(&mut self, x: u64) -> u64 {
        match self.below(8) {
            0 => x,
            1 => x.saturating_sub(1),
            2 => x.saturating_add(1),
            3 => x / 2,
            4 => x.saturating_mul(2),
            5 => self.range(0, x),
            6 => x.saturating_add(self.range(0, x)),
            _ => {
                let d = self.log64(20);
                if self.chance(1, 2) {
                    x.saturating_add(d)
                } else {
                    x.saturating_sub(d)
                }
            }
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        b
    }
}
