//! Independent dense linear algebra (f64, row-major), used only as an oracle.
use std::fmt;
#[derive(Clone, PartialEq)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}
impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[")?;
        for i in 0..self.r {
            write!(f, "{:?}{}", &self.d[i * self.c..(i + 1) * self.c], if i + 1 < self.r { "; " } else { "" })?;
        }
        write!(f, "]")
    }
}
impl std::ops::Index<(usize, usize)> for M {
    type Output = f64;
    fn index(&self, (i, j): (usize, usize)) -> &f64 {
        assert!(i < self.r && j < self.c);
        &self.d[i * self.c + j]
    }
}
impl std::ops::IndexMut<(usize, usize)> for M {
    fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut f64 {
        assert!(i < self.r && j < self.c);
        &mut self.d[i * self.c + j]
    }
}
impl M {
    pub fn zeros(r: usize, c: usize) -> M {
        M { r, c, d: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> M {
        let mut m = M::zeros(n, n);
        for i in 0..n {
            m[(i, i)] = 1.0;
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f64) -> M {
        let mut m = M::zeros(r, c);
        for i in 0..r {
            for j in 0..c {
                m[(i, j)] = f(i, j);
            }
        }
        m
    }
    pub fn col(v: &[f64]) -> M {
        M { r: v.len(), c: 1, d: v.to_vec() }
    }
    pub fn diag(v: &[f64]) -> M {
        M::from_fn(v.len(), v.len(), |i, j| if i == j { v[i] } else { 0.0 })
    }
    pub fn t(&self) -> M {
        M::from_fn(self.c, self.r, |i, j| self[(j, i)])
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r, "la::mul shape");
        let mut m = M::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.d[i * self.c + k];
                if a != 0.0 {
                    for j in 0..o.c {
                        m.d[i * o.c + j] += a * o.d[k * o.c + j];
                    }
                }
            }
        }
        m
    }
    pub fn mv(&self, v: &[f64]) -> Vec<f64> {
        self.mul(&M::col(v)).d
    }
    pub fn add(&self, o: &M) -> M {
        assert!(self.r == o.r && self.c == o.c);
        M { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a + b).collect() }
    }
    pub fn sub(&self, o: &M) -> M {
        self.add(&o.scale(-1.0))
    }
    pub fn scale(&self, s: f64) -> M {
        M { r: self.r, c: self.c, d: self.d.iter().map(|a| a * s).collect() }
    }
    pub fn max_abs(&self) -> f64 {
        self.d.iter().fold(0.0, |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x.abs()) })
    }
    pub fn norm(&self) -> f64 {
        self.d.iter().map(|x| x * x).sum::<f64>().sqrt()
    }
    pub fn block(&self, i: usize, j: usize, r: usize, c: usize) -> M {
        M::from_fn(r, c, |a, b| self[(i + a, j + b)])
    }
    pub fn set(&mut self, i: usize, j: usize, m: &M) {
        for a in 0..m.r {
            for b in 0..m.c {
                self[(i + a, j + b)] = m[(a, b)];
            }
        }
    }
    pub fn add_block(&mut self, i: usize, j: usize, m: &M) {
        for a in 0..m.r {
            for b in 0..m.c {
                self[(i + a, j + b)] += m[(a, b)];
            }
        }
    }
    /// Solve A X = B, LU with partial pivoting + two steps of iterative refinement; None if singular.
    pub fn solve(&self, b: &M) -> Option<M> {
        assert!(self.r == self.c && b.r == self.r);
        let n = self.r;
        let mut lu = self.clone();
        let mut p: Vec<usize> = (0..n).collect();
        for k in 0..n {
            let mut best = k;
            for i in k..n {
                if lu[(i, k)].abs() > lu[(best, k)].abs() {
                    best = i;
                }
            }
            if !(lu[(best, k)].abs() > 1e-300) {
                return None;
            }
            if best != k {
                for j in 0..n {
                    lu.d.swap(k * n + j, best * n + j);
                }
                p.swap(k, best);
            }
            for i in k + 1..n {
                let f = lu[(i, k)] / lu[(k, k)];
                lu[(i, k)] = f;
                if f != 0.0 {
                    for j in k + 1..n {
                        let v = lu[(k, j)];
                        lu[(i, j)] -= f * v;
                    }
                }
            }
        }
        let sub = |rhs: &M| -> M {
            let mut x = M::zeros(n, rhs.c);
            for c in 0..rhs.c {
                let mut y = vec![0.0; n];
                for i in 0..n {
                    let mut s = rhs[(p[i], c)];
                    for j in 0..i {
                        s -= lu[(i, j)] * y[j];
                    }
                    y[i] = s;
                }
                for i in (0..n).rev() {
                    let mut s = y[i];
                    for j in i + 1..n {
                        s -= lu[(i, j)] * x[(j, c)];
                    }
                    x[(i, c)] = s / lu[(i, i)];
                }
            }
            x
        };
        let mut x = sub(b);
        for _ in 0..2 {
            let res = b.sub(&self.mul(&x));
            x = x.add(&sub(&res));
        }
        Some(x)
    }
    pub fn inv(&self) -> Option<M> {
        self.solve(&M::eye(self.r))
    }
    /// Matrix exponential: scaling and squaring with a Taylor series to convergence.
    pub fn expm(&self) -> M {
        let n = self.r;
        let nrm = self.norm();
        let mut s = 0;
        while nrm / (1u64 << s) as f64 > 0.25 && s < 60 {
            s += 1;
        }
        let a = self.scale(1.0 / (1u64 << s) as f64);
        let mut term = M::eye(n);
        let mut sum = M::eye(n);
        for k in 1..40 {
            term = term.mul(&a).scale(1.0 / k as f64);
            sum = sum.add(&term);
            if term.max_abs() < 1e-20 {
                break;
            }
        }
        for _ in 0..s {
            sum = sum.mul(&sum);
        }
        sum
    }
    /// Least squares minimiser through Householder QR (full column rank); also returns the R diagonal ratio (conditioning).
    pub fn lstsq(&self, b: &[f64]) -> Option<(Vec<f64>, f64)> {
        let (m, n) = (self.r, self.c);
        if m < n {
            return None;
        }
        let mut a = self.clone();
        let mut y = b.to_vec();
        for k in 0..n {
            let mut s = 0.0;
            for i in k..m {
                s += a[(i, k)] * a[(i, k)];
            }
            let s = s.sqrt();
            if !(s > 1e-300) {
                return None;
            }
            let alpha = if a[(k, k)] > 0.0 { -s } else { s };
            let mut v = vec![0.0; m];
            for i in k..m {
                v[i] = a[(i, k)];
            }
            v[k] -= alpha;
            let vv: f64 = v.iter().map(|x| x * x).sum();
            if vv == 0.0 {
                continue;
            }
            for j in k..n {
                let mut d = 0.0;
                for i in k..m {
                    d += v[i] * a[(i, j)];
                }
                let f = 2.0 * d / vv;
                for i in k..m {
                    a[(i, j)] -= f * v[i];
                }
            }
            let mut d = 0.0;
            for i in k..m {
                d += v[i] * y[i];
            }
            let f = 2.0 * d / vv;
            for i in k..m {
                y[i] -= f * v[i];
            }
        }
        let mut x = vec![0.0; n];
        let (mut mx, mut mn) = (0.0f64, f64::INFINITY);
        for i in (0..n).rev() {
            let mut s = y[i];
            for j in i + 1..n {
                s -= a[(i, j)] * x[j];
            }
            let r = a[(i, i)];
            if !(r.abs() > 1e-300) {
                return None;
            }
            mx = mx.max(r.abs());
            mn = mn.min(r.abs());
            x[i] = s / r;
        }
        Some((x, mx / mn))
    }
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
pub fn scale(a: &[f64], s: f64) -> Vec<f64> {
    a.iter().map(|x| x * s).collect()
}
