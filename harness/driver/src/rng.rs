//! Deterministic random numbers (splitmix64): every choice of a run derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r.next(); r }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
  pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
  /// Between `a` and `b`, both included.
  pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
  pub fn pct(&mut self, p: u32) -> bool { self.below(100) < p as usize }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    if total == 0 { return 0 }
    let mut x = self.below(total as usize) as u32;
    for (i, p) in w.iter().enumerate() { if x < *p { return i } x -= p }
    w.len() - 1
  }
  pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) }
  }
}

pub fn hash(s: &str) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
  h
}
