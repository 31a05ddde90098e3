//! splitmix64: every random choice of the monitors comes from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5851F42D4C957F2D)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn f64(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
    }
}

/// FNV-1a, for fingerprints (deterministic between runs)
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}
