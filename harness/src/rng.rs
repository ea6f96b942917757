//! Small deterministic PRNG (xoshiro256**, seeded by splitmix64); no dependency on the code under test.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn for_case(seed: u64, family: &str, idx: u64) -> Self {
        let mut x = seed ^ hash_str(family).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95);
        let a = splitmix(&mut x);
        Rng::new(a)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn int(&mut self, a: usize, b_incl: usize) -> usize {
        a + self.below(b_incl - a + 1)
    }
    pub fn coin(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.coin(0.5) { 1.0 } else { -1.0 }
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    /// log-uniform magnitude in [a,b]
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn vec(&mut self, n: usize, a: f64, b: f64) -> Vec<f64> {
        (0..n).map(|_| self.range(a, b)).collect()
    }
    pub fn nvec(&mut self, n: usize, s: f64) -> Vec<f64> {
        (0..n).map(|_| self.normal() * s).collect()
    }
    pub fn unit_vec(&mut self, n: usize) -> Vec<f64> {
        // sometimes axis aligned, exactly
        if self.coin(0.25) {
            let mut v = vec![0.0; n];
            let i = self.below(n);
            v[i] = self.sign();
            return v;
        }
        loop {
            let v = self.nvec(n, 1.0);
            let s: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if s > 1e-3 {
                return v.iter().map(|x| x / s).collect();
            }
        }
    }
    /// A rotation angle magnitude with emphasis on the hostile places; returns (angle, bucket)
    pub fn angle(&mut self) -> (f64, u32) {
        use std::f64::consts::PI;
        match self.below(12) {
            0 => (0.0, 0),
            1 => (self.logu(1e-300, 1e-12), 1),
            2 => (self.logu(1e-12, 1e-6), 2),
            3 => (self.logu(1e-6, 1e-4), 3),
            4 => (self.logu(1e-4, 1e-2), 4),
            5 => (self.logu(4e-4, 5e-3), 5),
            6 => (self.range(0.01, 1.0), 6),
            7 => (self.range(1.0, 3.0), 7),
            8 => (PI - self.logu(1e-4, 1e-1), 8),
            9 => (PI - self.logu(1e-9, 1e-5), 9),
            10 => (self.range(0.0, PI), 10),
            _ => (PI / 2.0 * [1.0, 0.5, 4.0 / 3.0, 2.0 / 3.0][self.below(4)], 11),
        }
    }
}
