//! Small deterministic PRNG (splitmix64 + xoshiro256**). Every random choice of a case derives
//! from one u64, which is what a replay file stores.
use revm_primitives::U256;

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut out = [0; 4];
        for o in &mut out {
            s = mix(s);
            *o = s;
        }
        Self(out)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.u64() % 100 < pct as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = (self.u64() % total as u64) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn u256(&mut self) -> U256 {
        U256::from_limbs([self.u64(), self.u64(), self.u64(), self.u64()])
    }
    /// Corner-heavy word.
    pub fn word(&mut self) -> U256 {
        match self.below(16) {
            0 => U256::ZERO,
            1 => U256::from(1),
            2 => U256::MAX,
            3 => U256::from(1) << 255,
            4 => (U256::from(1) << 255) - U256::from(1),
            5 => U256::from(self.below(40)),
            6 => U256::from(self.below(300)),
            7 => U256::from(1) << self.below(256),
            8 => (U256::from(1) << self.below(256)).wrapping_sub(U256::from(1)),
            9 => U256::MAX - U256::from(self.below(40)),
            10 => U256::from(self.u64()),
            11 => U256::from(self.u64() as u32),
            12 => U256::from(u64::MAX) + U256::from(self.below(3)),
            13 => U256::MAX << self.below(256),
            14 => self.u256() >> self.below(256),
            _ => self.u256(),
        }
    }
}
