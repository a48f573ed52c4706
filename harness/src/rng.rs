//! Deterministic random source. Either a xoshiro256** stream or (for the coverage-guided fuzz
//! target) a finite byte string, so that the same structured generator serves both drivers.

pub struct Rng {
    s: [u64; 4],
    bytes: Option<(Vec<u8>, usize)>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s, bytes: None }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut r = Rng::new(7);
        r.bytes = Some((b.to_vec(), 0));
        r
    }
    pub fn u64(&mut self) -> u64 {
        if let Some((b, pos)) = &mut self.bytes {
            // two bytes of entropy per choice while the input lasts
            if *pos + 2 <= b.len() {
                let v = u16::from_le_bytes([b[*pos], b[*pos + 1]]) as u64;
                *pos += 2;
                return (v << 48) | (v << 32) | (v << 16) | v;
            }
        }
        let s = &mut self.s;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    /// Uniform in (0, 1), never 0 or 1.
    pub fn unif(&mut self) -> f64 {
        ((self.u64() >> 12) as f64 + 0.5) / (1u64 << 52) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { ((self.u64() >> 11) as u128 * n as u128 >> 53) as usize }
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unif() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let u = self.unif();
        let v = self.unif();
        (-2. * u.ln()).sqrt() * (2. * std::f64::consts::PI * v).cos()
    }
    pub fn sym(&mut self, a: f64) -> f64 {
        (2. * self.unif() - 1.) * a
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
