//! Small deterministic generator (splitmix64 / xorshift).
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        ((self.u64() >> 33) as usize) % n.max(1)
    }
    /// a..=b
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    /// True once out of n times.
    pub fn one(&mut self, n: usize) -> bool {
        self.n(n) == 0
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.n(s.len())]
    }
    /// Heavy-tailed small count, at least 1.
    pub fn few(&mut self) -> usize {
        let mut n = 1;
        while self.n(3) > 0 && n < 24 {
            n += 1;
        }
        n
    }
    /// A repetition count, with emphasis on boundaries.
    pub fn count(&mut self) -> usize {
        if self.one(32) {
            let d = &crate::dict::get().numbers;
            let n = (*self.pick(d) + self.n(3)).saturating_sub(1);
            if (1..=520).contains(&n) {
                return n;
            }
        }
        match self.n(16) {
            0..=7 => self.r(2, 5),
            8..=12 => self.r(5, 13),
            13 => *self.pick(&[15, 16, 17, 20, 26, 27, 31, 32, 33]),
            14 => *self.pick(&[40, 50, 63, 64, 65, 100]),
            _ => *self.pick(&[101, 127, 128, 129, 200, 254, 255, 256, 257, 300]),
        }
    }
}

pub fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}
