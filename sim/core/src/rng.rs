//! SplitMix64.

#[inline]
pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

/// FNV-1a with a final mix.
pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h = 0xCBF2_9CE4_8422_2325u64;
  for &x in b {
    h = (h ^ x as u64).wrapping_mul(0x100_0000_01B3);
  }
  mix(h)
}

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(mix(seed ^ 0x5EED))
  }

  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix(self.0)
  }

  /// 0..n
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }

  /// lo..=hi
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + (self.next() % ((hi - lo) as u64 + 1)) as i64
  }

  /// True once in n.
  pub fn one_in(&mut self, n: usize) -> bool {
    self.below(n) == 0
  }

  pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
    &s[self.below(s.len())]
  }
}
