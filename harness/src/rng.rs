//! Small deterministic PRNG (splitmix64 / xoshiro256**), independent of any crate.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3); }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for x in &mut s { z = mix(z); *x = z; }
        if s == [0; 4] { s[0] = 1 }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn n(&mut self, n: usize) -> usize { debug_assert!(n > 0); (self.u64() % n as u64) as usize }
    /// uniform in lo..=hi
    pub fn r(&mut self, lo: usize, hi: usize) -> usize { lo + self.n(hi - lo + 1) }
    /// true with probability p percent
    pub fn p(&mut self, p: u32) -> bool { (self.u64() % 100) < p as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
    pub fn ps(&mut self, v: &[&'static str]) -> &'static str { let i = self.n(v.len()); v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); }
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.u64()) }
}
