//! C08: whitening is consistent with the covariance the noise model was built from.
use factrs::linalg::*;
use factrs::noise::*;
use harness::vars::*;
use harness::*;

/// random symmetric positive definite matrix with condition number up to `cond`
fn spd(rng: &mut Rng, n: usize, cond: f64, scale: f64) -> (M, M) {
    // orthogonal from Gram-Schmidt of a Gaussian matrix
    let mut cols: Vec<Vec<f64>> = vec![];
    while cols.len() < n {
        let mut v = rng.nvec(n, 1.0);
        for q in &cols {
            let p = la::dot(q, &v);
            v = la::sub(&v, &la::scale(q, p));
        }
        let nn = la::norm(&v);
        if nn > 0.1 {
            cols.push(la::scale(&v, 1.0 / nn));
        }
    }
    let q = M::from_fn(n, n, |i, j| cols[j][i]);
    let ev: Vec<f64> = (0..n).map(|_| scale * rng.logu(1.0 / cond, 1.0)).collect();
    let iv: Vec<f64> = ev.iter().map(|x| 1.0 / x).collect();
    let sym = |m: M| m.add(&m.t()).scale(0.5);
    (sym(q.mul(&M::diag(&ev)).mul(&q.t())), sym(q.mul(&M::diag(&iv)).mul(&q.t())))
}
fn nmat<const N: usize>(m: &M) -> Matrix<N, N> {
    Matrix::<N, N>::from_fn(|i, j| d(m[(i, j)]))
}
fn nvec<const N: usize>(v: &[f64]) -> Vector<N> {
    Vector::<N>::from_fn(|i, _| d(v[i]))
}

fn judge<N: NoiseModel>(c: &mut Case, rng: &mut Rng, noise: &N, inf: &M, n: usize, tol: f64, label: &str) {
    let boxed: &dyn WhitenObj = &Obj(noise);
    for _ in 0..3 {
        let sc = if rng.coin(0.3) { rng.logu(1e-8, 1e8) } else { 2.0 };
        let r = rng.nvec(n, sc);
        let w = fv(&boxed.vec(vx(&r)));
        let want = la::dot(&r, &inf.mv(&r));
        let got = la::dot(&w, &w);
        let mag = la::dot(&r, &r) * inf.max_abs();
        c.check(w.len() == n, label, || format!("whitened length {}", w.len()));
        c.close(&format!("{label}: |w|^2 = r' Sigma^-1 r"), got, want, tol * mag + 1e-300);
        let k = if rng.coin(0.05) { 10 + rng.below(60) } else { 1 + rng.below(9) };
        let m = MatrixX::from_fn(n, k, |_, _| d(rng.normal()));
        let wm = boxed.mat(m.clone());
        c.check(wm.nrows() == n && wm.ncols() == k, &format!("{label}: matrix shape"), || format!("{}x{}", wm.nrows(), wm.ncols()));
        for j in 0..k.min(wm.ncols()) {
            let col = fv(&boxed.vec(VectorX::from_iterator(n, m.column(j).iter().cloned())));
            let gc: Vec<f64> = wm.column(j).iter().map(|x| *x as f64).collect();
            c.close_v(&format!("{label}: whiten_mat = column-wise whiten_vec"), &gc, &col, 1e-12 * la::norm(&col) + 1e-300);
        }
    }
    let z = fv(&boxed.vec(VectorX::zeros(n)));
    c.close_v(&format!("{label}: zero stays zero"), &z, &vec![0.0; n], 0.0);
    c.check(noise.dim() == n, &format!("{label}: dim"), || format!("{}", noise.dim()));
}
struct Obj<'a, N: NoiseModel>(&'a N);
trait WhitenObj {
    fn vec(&self, v: VectorX) -> VectorX;
    fn mat(&self, m: MatrixX) -> MatrixX;
}
impl<N: NoiseModel> WhitenObj for Obj<'_, N> {
    fn vec(&self, v: VectorX) -> VectorX {
        self.0.whiten_vec(v)
    }
    fn mat(&self, m: MatrixX) -> MatrixX {
        self.0.whiten_mat(m)
    }
}

fn generic<const N: usize>(ctx: &Ctx) {
    ctx.family(&format!("diag/{N}"), 1500, 40000, |rng, c| {
        let wide = rng.coin(0.3);
        let v: Vec<f64> = (0..N).map(|_| if wide { rng.logu(1e-24, 1e24) } else { rng.logu(1e-2, 1e2) }).collect();
        let s = v[0];
        c.desc(format!("values {v:?}"));
        c.sig((wide, (s.log10() * 2.0) as i32));
        let di = |f: &dyn Fn(f64) -> f64| M::diag(&v.iter().map(|x| f(*x)).collect::<Vec<_>>());
        let t = 1e-13 * N as f64;
        judge(c, rng, &GaussianNoise::<N>::from_scalar_sigma(d(s)), &M::eye(N).scale(1.0 / (s * s)), N, t, "from_scalar_sigma");
        judge(c, rng, &GaussianNoise::<N>::from_scalar_cov(d(s)), &M::eye(N).scale(1.0 / s), N, t, "from_scalar_cov");
        let vv = nvec::<N>(&v);
        judge(c, rng, &GaussianNoise::<N>::from_vec_sigma(vv.as_view()), &di(&|x| 1.0 / (x * x)), N, t, "from_vec_sigma");
        judge(c, rng, &GaussianNoise::<N>::from_vec_cov(vv.as_view()), &di(&|x| 1.0 / x), N, t, "from_vec_cov");
        judge(c, rng, &GaussianNoise::<N>::from_vec_inf(vv.as_view()), &di(&|x| x), N, t, "from_vec_inf");
        judge(c, rng, &GaussianNoise::<N>::identity(), &M::eye(N), N, t, "identity");
        // unit noise is the identity map, bit for bit
        let r = vx(&rng.nvec(N, 3.0));
        c.check(UnitNoise::<N>.whiten_vec(r.clone()) == r, "unit noise vector unchanged", || "changed".into());
        let m = MatrixX::from_fn(N, 4, |_, _| d(rng.normal()));
        c.check(UnitNoise::<N>.whiten_mat(m.clone()) == m, "unit noise matrix unchanged", || "changed".into());
    });
    ctx.family(&format!("matrix/{N}"), 1500, 40000, |rng, c| {
        let cond = rng.logu(1.0, 1e4);
        let scale = if rng.coin(0.3) { rng.logu(1e-14, 1e14) } else { rng.logu(1e-4, 1e4) };
        let (a, ai) = spd(rng, N, cond, scale);
        c.desc(format!("matrix {a:?}"));
        c.sig(((cond.log10() * 2.0) as i32, scale.log10() as i32));
        let m = nmat::<N>(&a);
        judge(c, rng, &GaussianNoise::<N>::from_matrix_cov(m.as_view()), &ai, N, (1e-12 * cond + 1e-15 * cond * cond) * N as f64, "from_matrix_cov");
        judge(c, rng, &GaussianNoise::<N>::from_matrix_inf(m.as_view()), &a, N, (1e-12 * cond + 1e-15 * cond * cond) * N as f64, "from_matrix_inf");
    });
    ctx.family(&format!("reject/{N}"), 400, 5000, |rng, c| {
        let (a, _) = spd(rng, N, 50.0, 1.0);
        // make one eigen-direction clearly negative (indefinite)
        let u = rng.unit_vec(N);
        let uu = M::col(&u).mul(&M::col(&u).t());
        let lam = rng.range(2.5, 20.0);
        let bad = a.sub(&uu.scale(lam));
        c.desc(format!("indefinite {bad:?}"));
        c.sig((lam as u32, N));
        // only keep clearly indefinite ones: u'(A - lam uu')u < -1
        let m = nmat::<N>(&bad);
        c.panics("indefinite covariance rejected", || GaussianNoise::<N>::from_matrix_cov(m.as_view()));
        c.panics("indefinite information rejected", || GaussianNoise::<N>::from_matrix_inf(m.as_view()));
        let z = Matrix::<N, N>::zeros();
        c.panics("zero covariance rejected", || GaussianNoise::<N>::from_matrix_cov(z.as_view()));
        c.panics("zero information rejected", || GaussianNoise::<N>::from_matrix_inf(z.as_view()));
        c.no_panic("valid covariance accepted", || GaussianNoise::<N>::from_matrix_cov(nmat::<N>(&a).as_view()));
        c.no_panic("valid information accepted", || GaussianNoise::<N>::from_matrix_inf(nmat::<N>(&a).as_view()));
    });
}

fn main() {
    let ctx = Ctx::from_env("C08");
    generic::<1>(&ctx);
    generic::<2>(&ctx);
    generic::<3>(&ctx);
    generic::<4>(&ctx);
    generic::<5>(&ctx);
    generic::<6>(&ctx);
    generic::<9>(&ctx);
    generic::<15>(&ctx);
    macro_rules! diagargs { ($n:literal, $($i:literal),*) => {
        ctx.family(concat!("args/", $n), 1500, 30000, |rng, c| {
            let v: Vec<f64> = {
                let w = if rng.coin(0.3) { 1e16 } else { 1e4 };
                (0..$n).map(|_| rng.logu(1.0 / w, w)).collect()
            };
            c.desc(format!("{v:?}"));
            c.sig(v.iter().map(|x| x.log10() as i32).collect::<Vec<_>>());
            let t = 1e-13;
            judge(c, rng, &GaussianNoise::<$n>::from_diag_sigmas($(d(v[$i])),*), &M::diag(&v.iter().map(|x| 1.0 / (x * x)).collect::<Vec<_>>()), $n, t, "from_diag_sigmas");
            judge(c, rng, &GaussianNoise::<$n>::from_diag_covs($(d(v[$i])),*), &M::diag(&v.iter().map(|x| 1.0 / x).collect::<Vec<_>>()), $n, t, "from_diag_covs");
        });
    } }
    diagargs!(1, 0);
    diagargs!(2, 0, 1);
    diagargs!(3, 0, 1, 2);
    diagargs!(4, 0, 1, 2, 3);
    diagargs!(5, 0, 1, 2, 3, 4);
    diagargs!(6, 0, 1, 2, 3, 4, 5);
    ctx.finish(
        "one evaluation = one parameter set through every constructor, three residual vectors and matrices each: squared whitened norm against r' Sigma^-1 r with Sigma^-1 from a known eigendecomposition, matrices against column-wise whitening; distinct = magnitude/conditioning buckets",
        &["condition numbers up to 1e4 for full matrices"],
    );
}
