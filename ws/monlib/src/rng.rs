/// xoshiro256** seeded by SplitMix64.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 56) as u8 }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64 } }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { core::array::from_fn(|_| self.u8()) }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.idx(i + 1));
        }
    }
    /// 32-bit values biased to boundaries.
    pub fn edge32(&mut self) -> u32 {
        const E: [u32; 30] = [0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff];
        match self.below(8) {
            0..=3 => *self.pick(&E),
            4 => 1u32 << self.below(32),
            5 => (1u32 << self.below(32)).wrapping_neg(),
            6 => E[self.idx(30)].wrapping_add(self.below(5) as u32).wrapping_sub(2),
            _ => self.u32(),
        }
    }
    pub fn edge64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => (1u64 << self.below(64)).wrapping_neg(),
            5 => self.below(16),
            6 => u64::MAX - self.below(16),
            _ => self.u64(),
        }
    }
}
