//! Small deterministic generator (splitmix64 / xoshiro256**), so that a case is a pure function of
//! (seed, property, case number).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a followed by a mixer; only used to tell cases apart.
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ u64::from(*c)).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(x);
        }
        Self { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// lo..=hi random bytes.
    pub fn some_bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo, hi);
        self.bytes(n)
    }
    /// Integers biased towards the interesting ends.
    pub fn u32_edgy(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => u32::MAX - self.below(4) as u32,
            2 => 1u32 << self.below(32),
            3 => (1u64 << self.below(33)).wrapping_sub(1) as u32,
            4 => self.below(70000) as u32,
            _ => self.u32(),
        }
    }
    pub fn u16_edgy(&mut self) -> u16 {
        match self.below(5) {
            0 => self.below(4) as u16,
            1 => u16::MAX - self.below(4) as u16,
            2 => 1u16 << self.below(16),
            3 => self.below(300) as u16,
            _ => self.u16(),
        }
    }
    pub fn u8_edgy(&mut self) -> u8 {
        match self.below(4) {
            0 => self.below(4) as u8,
            1 => 255 - self.below(3) as u8,
            2 => 1 << self.below(8),
            _ => self.u8(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
