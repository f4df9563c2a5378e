//! Deterministic random numbers (splitmix64) and choices.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s ^ 0x9e37_79b9_7f4a_7c15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    /// true n times out of d
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    /// numbers near the edges of the type more often than others
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0, 1 => 1, 2 => u64::MAX, 3 => u64::MAX - self.below(3) as u64, 4 => 1 << self.below(64),
            5 => (1u64 << self.below(64)).wrapping_sub(1), 6 => self.below(1000) as u64, _ => self.next(),
        }
    }
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0, 1 => 1, 2 => u32::MAX, 3 => u32::MAX - self.below(3) as u32, 4 => 1 << self.below(32),
            5 => (1u32 << self.below(32)).wrapping_sub(1), 6 => self.below(1000) as u32, _ => self.u32(),
        }
    }
}
