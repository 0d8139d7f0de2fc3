//! The single source of randomness.  A generator only ever draws from `Src`,
//! so a case is a pure function of (seed, property, sub-check, shard, index)
//! or, under the coverage-guided fuzzer, of the fuzzer's bytes.

pub enum Src<'a> {
    Rand([u64; 2]),
    Bytes(&'a [u8], usize),
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8], mut h: u64) -> u64 {
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = (h.rotate_left(5) ^ v).wrapping_mul(0x517C_C1B7_2722_0A95);
    }
    for &x in it.remainder() {
        h = (h.rotate_left(5) ^ x as u64).wrapping_mul(0x517C_C1B7_2722_0A95);
    }
    mix(h ^ b.len() as u64)
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Src<'static> {
        Src::Rand([mix(seed), mix(seed ^ 0xABCD_EF01_2345_6789) | 1])
    }
    pub fn u64(&mut self) -> u64 {
        match self {
            Src::Rand(s) => {
                // xoroshiro128+
                let (s0, mut s1) = (s[0], s[1]);
                let r = s0.wrapping_add(s1);
                s1 ^= s0;
                s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
                s[1] = s1.rotate_left(37);
                mix(r)
            }
            Src::Bytes(b, i) => {
                let mut v = 0u64;
                for k in 0..8 {
                    v |= (*b.get(*i + k).unwrap_or(&0) as u64) << (8 * k);
                }
                *i += 8;
                v
            }
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        match self {
            Src::Rand(_) => ((self.u64() as u128 * n as u128) >> 64) as u64,
            Src::Bytes(b, i) => {
                let w = if n <= 1 {
                    0
                } else if n <= 1 << 8 {
                    1
                } else if n <= 1 << 16 {
                    2
                } else if n <= 1 << 24 {
                    3
                } else {
                    8
                };
                let mut v = 0u64;
                for k in 0..w {
                    v |= (*b.get(*i + k).unwrap_or(&0) as u64) << (8 * k);
                }
                *i += w;
                v % n
            }
        }
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())]
    }
    /// Index chosen by weight.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut r = self.below(t);
        for (i, &w) in ws.iter().enumerate() {
            if r < w {
                return i;
            }
            r -= w;
        }
        ws.len() - 1
    }
}
