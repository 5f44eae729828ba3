//! The one PRNG. Everything a run does is derived from one 64-bit seed through this.
#[derive(Clone, Copy)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}
impl Rng {
    pub const fn zero() -> Self {
        Rng { s: [1, 2, 3, 4] }
    }
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}
