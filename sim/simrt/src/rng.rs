//! The one PRNG of the simulator (splitmix64 -> xoshiro-like). Never draws from the system.

#[derive(Clone, Copy, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub const fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    /// Log-uniform integer in [lo, hi].
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64 + 1.0).ln());
        ((a + (b - a) * self.f()).exp() as u64).clamp(lo, hi)
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn fork(&mut self, label: u64) -> Rng {
        Rng(mix(self.next() ^ mix(label)))
    }
}

pub fn mix(z: u64) -> u64 {
    let mut z = z;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// FNV/mix style running hash.
#[derive(Clone, Copy, Debug)]
pub struct Hash(pub u64);
impl Hash {
    pub const fn new() -> Self {
        Hash(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) {
        self.0 = mix(self.0.rotate_left(5) ^ x.wrapping_mul(0x9E3779B97F4A7C15));
    }
    pub fn f(&mut self, x: f64) {
        self.u(x.to_bits())
    }
    pub fn fs(&mut self, xs: &[f64]) {
        self.u(xs.len() as u64);
        for x in xs {
            self.f(*x)
        }
    }
}
impl Default for Hash {
    fn default() -> Self {
        Self::new()
    }
}
