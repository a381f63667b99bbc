//! Small deterministic PRNG (splitmix64 + xoshiro256**).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// u16 with emphasis on boundaries
    pub fn w(&mut self) -> u16 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            1 => self.u16() & 0xff,
            _ => self.u16(),
        }
    }
    pub fn d(&mut self) -> u32 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, 2, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff]),
            1 => self.u32() & 0xff,
            2 => self.u32() & 0xffff,
            _ => self.u32(),
        }
    }
    pub fn b(&mut self) -> u8 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 127, 128, 254, 255]),
            _ => self.u8(),
        }
    }
}

/// FNV-1a style 64-bit fold used for fingerprints.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = h ^ b.len() as u64;
    splitmix(&mut x)
}
