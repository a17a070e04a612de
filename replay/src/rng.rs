//! splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: &str, iter: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ h ^ iter.wrapping_mul(0xd1342543de82ef95));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// a "nice" finite number in [-m, m]
    pub fn num(&mut self, m: i64) -> f64 {
        match self.below(4) {
            0 => self.range(-m, m) as f64,
            1 => self.range(-4 * m, 4 * m) as f64 / 4.0,
            2 => (self.unit() * 2.0 - 1.0) * m as f64,
            _ => self.pick(&[0.0, 1.0, -1.0, 0.5]),
        }
    }
    pub fn pos(&mut self, m: i64) -> f64 {
        self.num(m).abs()
    }
}
