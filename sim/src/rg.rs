//! The harness's own generator (never the code under test, never the system's entropy).
#[derive(Clone, Debug)]
pub struct Rg(pub [u64; 4]);
pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix64(h)
}
impl Rg {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            *v = mix64(x);
        }
        Rg(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (0 when n == 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, pm: u64) -> bool {
        self.below(1000) < pm
    }
    /// how many threads: as usual, or now and then many more than anything is sized for
    pub fn crowd(&mut self, usual: u64) -> i64 {
        if self.chance(15) {
            *self.pick(&[9i64, 12, 17, 24, 33])
        } else {
            usual as i64
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// a positive value with uniformly distributed magnitude up to 2^bits
    pub fn logu(&mut self, bits: u32) -> u64 {
        let k = self.below(bits as u64 + 1) as u32;
        if k == 0 {
            1
        } else {
            (1u64 << (k - 1)) | (self.u64() & ((1u64 << (k - 1)) - 1))
        }
    }
}
