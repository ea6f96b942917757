//! C12: the linear solvers return the least-squares / symmetric solution, also when reused on new values.
use factrs::dtype;
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use faer::sparse::{SparseColMat, SymbolicSparseColMat};
use faer::Mat;
use harness::vars::d;
use harness::*;

type Pat = Vec<(usize, usize)>;
/// a pattern containing a transversal, so that some values give full column rank
fn rand_pattern(rng: &mut Rng, m: usize, n: usize) -> (Pat, &'static str) {
    let mut set = std::collections::BTreeSet::new();
    let mut rows: Vec<usize> = (0..m).collect();
    rng.shuffle(&mut rows);
    for j in 0..n {
        set.insert((rows[j], j));
    }
    let name = *rng.pick(&["random", "diagonal", "chain", "arrow", "dense", "blocks", "emptyrows"]);
    match name {
        "random" => {
            let p = rng.range(0.02, 0.6);
            for i in 0..m {
                for j in 0..n {
                    if rng.coin(p) {
                        set.insert((i, j));
                    }
                }
            }
        }
        "chain" => {
            for i in 0..m {
                let j = i % n;
                set.insert((i, j));
                set.insert((i, (j + 1) % n));
            }
        }
        "arrow" => {
            let hub = rng.below(n);
            for i in 0..m {
                set.insert((i, hub));
                set.insert((i, i % n));
            }
        }
        "dense" => {
            for i in 0..m {
                for j in 0..n {
                    set.insert((i, j));
                }
            }
        }
        "blocks" => {
            let b = rng.int(1, 6);
            for _ in 0..(m / b + 1) {
                let (i0, j0) = (rng.below(m), rng.below(n));
                for i in i0..(i0 + b).min(m) {
                    for j in j0..(j0 + b).min(n) {
                        set.insert((i, j));
                    }
                }
            }
        }
        "emptyrows" => {
            for i in 0..m / 2 {
                set.insert((rows[i], rng.below(n)));
            }
        }
        _ => {}
    }
    (set.into_iter().collect(), name)
}
/// dense values on a pattern; the transversal dominates so that the matrix stays well conditioned
fn fill(rng: &mut Rng, m: usize, n: usize, pat: &Pat, zeros: bool, strong: bool) -> M {
    let mut a = M::zeros(m, n);
    for (i, j) in pat {
        a[(*i, *j)] = if zeros && rng.coin(0.2) { 0.0 } else { rng.normal() };
    }
    if strong {
        for j in 0..n {
            // strengthen one structural entry per column that is not shared with another column's
            let c: Vec<usize> = pat.iter().filter(|p| p.1 == j).map(|p| p.0).collect();
            let i = c[rng.below(c.len())];
            a[(i, j)] += rng.sign() * 3.0;
        }
    }
    a
}
fn sparse(a: &M, pat: &Pat, rng: &mut Rng) -> SparseColMat<usize, dtype> {
    if rng.coin(0.5) {
        let mut t: Vec<(usize, usize, dtype)> = pat.iter().map(|(i, j)| (*i, *j, d(a[(*i, *j)]))).collect();
        rng.shuffle(&mut t);
        SparseColMat::try_new_from_triplets(a.r, a.c, &t).unwrap()
    } else {
        // the library's own route: symbolic pattern from indices, values in the same order
        let mut p = pat.clone();
        rng.shuffle(&mut p);
        let (s, o) = SymbolicSparseColMat::try_new_from_indices(a.r, a.c, &p).unwrap();
        let v: Vec<dtype> = p.iter().map(|q| d(a[*q])).collect();
        SparseColMat::new_from_order_and_values(s, &o, v.as_slice()).unwrap()
    }
}
fn rhs(m: &M) -> Mat<dtype> {
    Mat::from_fn(m.r, m.c, |i, j| d(m[(i, j)]))
}
fn back(m: &Mat<dtype>) -> M {
    M::from_fn(m.nrows(), m.ncols(), |i, j| m.read(i, j) as f64)
}
/// |S| |S^-1| in a cheap norm, None if singular
fn cond(s: &M) -> Option<f64> {
    let i = s.inv()?;
    let c = s.max_abs() * i.max_abs() * s.r as f64;
    c.is_finite().then_some(c)
}
enum Any3 {
    C(CholeskySolver),
    Q(QRSolver),
    L(LUSolver),
}
const NAMES: [&str; 3] = ["Cholesky", "QR", "LU"];
impl Any3 {
    fn new(i: usize) -> Any3 {
        match i {
            0 => Any3::C(Default::default()),
            1 => Any3::Q(Default::default()),
            _ => Any3::L(Default::default()),
        }
    }
    fn ls(&mut self, a: &SparseColMat<usize, dtype>, b: &Mat<dtype>) -> Mat<dtype> {
        match self {
            Any3::C(s) => s.solve_lst_sq(a.as_ref(), b.as_ref()),
            Any3::Q(s) => s.solve_lst_sq(a.as_ref(), b.as_ref()),
            Any3::L(s) => s.solve_lst_sq(a.as_ref(), b.as_ref()),
        }
    }
    fn sym(&mut self, a: &SparseColMat<usize, dtype>, b: &Mat<dtype>) -> Mat<dtype> {
        match self {
            Any3::C(s) => s.solve_symmetric(a.as_ref(), b.as_ref()),
            Any3::Q(s) => s.solve_symmetric(a.as_ref(), b.as_ref()),
            Any3::L(s) => s.solve_symmetric(a.as_ref(), b.as_ref()),
        }
    }
}
const EPS: f64 = if cfg!(feature = "f32") { 1.2e-7 } else { 2.2e-16 };

fn least_squares(rng: &mut Rng, c: &mut Case, n: usize, m: usize, rounds: usize) {
    let (pat, name) = rand_pattern(rng, m, n);
    let k = if rng.coin(0.6) { 1 } else { rng.int(2, 4) };
    c.desc(format!("{m}x{n} {name} nnz={} rhs={k}", pat.len()));
    c.sig((m, n, name, pat.len(), k));
    let mut solvers: Vec<Any3> = (0..3).map(Any3::new).collect();
    let mut last: Option<M> = None;
    for round in 0..rounds {
        let z = round > 0 && rng.coin(0.3);
        let mut a = fill(rng, m, n, &pat, z, true);
        // whole-system and per-row scaling, as weights do
        let sc = if rng.coin(0.3) { rng.logu(1e-7, 1e7) } else { 1.0 };
        a = a.scale(sc);
        // nearly the system of the round before: what a solver that caches too much would confuse with it
        if let (Some(p), true) = (&last, rng.coin(0.5)) {
            a = p.clone();
            match rng.below(4) {
                // columns change sign: A'A keeps its diagonal, trace, norms and determinant
                0 | 1 => {
                    for j in 0..n {
                        let s = rng.sign();
                        for i in 0..m {
                            a[(i, j)] *= s;
                        }
                    }
                    c.count("column sign flips", 1);
                }
                // a single entry moves
                2 => {
                    let (i, j) = pat[rng.below(pat.len())];
                    a[(i, j)] += rng.normal() * rng.logu(1e-2, 1.0) * p.max_abs();
                    c.count("single entry changes", 1);
                }
                // the same matrix, another right-hand side
                _ => c.count("only the right-hand side changes", 1),
            }
        }
        last = Some(a.clone());
        let b = M::from_fn(m, k, |_, _| rng.normal());
        let ata = a.t().mul(&a);
        let Some(cd) = cond(&ata) else {
            c.count("singular draws", 1);
            continue;
        };
        if cd > 1e10 {
            c.count("ill-conditioned draws", 1);
            continue;
        }
        c.event();
        let sp = sparse(&a, &pat, rng);
        let rb = rhs(&b);
        // exact-rhs rounds: b in the range of A
        let mut want = M::zeros(n, k);
        for q in 0..k {
            let col: Vec<f64> = (0..m).map(|i| b[(i, q)]).collect();
            let Some((x, _)) = a.lstsq(&col) else { return };
            for i in 0..n {
                want[(i, q)] = x[i];
            }
        }
        let scale = want.max_abs() + b.max_abs() * (m as f64).sqrt() / a.max_abs();
        let tol = 2e3 * EPS * cd * scale;
        for (i, s) in solvers.iter_mut().enumerate() {
            let lbl = if round == 0 { "least squares solution" } else { "least squares solution after reuse" };
            if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&s.ls(&sp, &rb))) {
                if c.close_m(&format!("{} {lbl}", NAMES[i]), &x, &want, tol) {
                    // stationarity, independent of the reference solution
                    let g = a.t().mul(&a.mul(&x).sub(&b));
                    c.check(
                        g.max_abs() <= 1e3 * EPS * cd.sqrt() * (m as f64) * (ata.max_abs() * scale + a.max_abs() * b.max_abs()) + 1e-13 * EPS / 2.2e-16,
                        &format!("{} gradient zero", NAMES[i]),
                        || format!("{:e}", g.max_abs()),
                    );
                }
            }
        }
    }
}
fn symmetric(rng: &mut Rng, c: &mut Case, n: usize, rounds: usize) {
    // symmetric positive definite with any symmetric pattern: B'B pattern plus diagonal
    let m = n + rng.below(n + 2);
    let (bp, name) = rand_pattern(rng, m, n);
    let mut set = std::collections::BTreeSet::new();
    for j in 0..n {
        set.insert((j, j));
    }
    let mut byrow: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    for (i, j) in &bp {
        byrow.entry(*i).or_default().push(*j);
    }
    for js in byrow.values() {
        for x in js {
            for y in js {
                set.insert((*x, *y));
            }
        }
    }
    let pat: Pat = set.into_iter().collect();
    let k = rng.int(1, 3);
    c.desc(format!("symmetric {n}x{n} {name} nnz={} rhs={k}", pat.len()));
    c.sig(("sym", n, name, pat.len(), k));
    let mut solvers: Vec<Any3> = (0..3).map(Any3::new).collect();
    let mut last: Option<M> = None;
    for round in 0..rounds {
        let b = fill(rng, m, n, &bp, false, true);
        let mut a = b.t().mul(&b);
        let damp = if rng.coin(0.5) { rng.logu(1e-6, 10.0) } else { 0.0 };
        for i in 0..n {
            a[(i, i)] += damp;
        }
        if rng.coin(0.3) {
            a = a.scale(rng.logu(1e-6, 1e6));
        }
        if let (Some(p), true) = (&last, rng.coin(0.5)) {
            a = p.clone();
            match rng.below(4) {
                0 | 1 => {
                    let s: Vec<f64> = (0..n).map(|_| rng.sign()).collect();
                    for i in 0..n {
                        for j in 0..n {
                            a[(i, j)] *= s[i] * s[j];
                        }
                    }
                    c.count("off-diagonal sign flips", 1);
                }
                2 => {
                    let i = rng.below(n);
                    a[(i, i)] += rng.logu(1e-3, 10.0) * p.max_abs();
                    c.count("single diagonal change", 1);
                }
                _ => c.count("only the right-hand side changes", 1),
            }
        }
        last = Some(a.clone());
        let Some(cd) = cond(&a) else { continue };
        if cd > 1e10 {
            c.count("ill-conditioned draws", 1);
            continue;
        }
        c.event();
        let y = M::from_fn(n, k, |_, _| rng.normal());
        let want = a.solve(&y).unwrap();
        let sp = sparse(&a, &pat, rng);
        let ry = rhs(&y);
        let lbl = if round == 0 { "symmetric solution" } else { "symmetric solution after reuse" };
        for (i, s) in solvers.iter_mut().enumerate() {
            if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&s.sym(&sp, &ry))) {
                c.close_m(&format!("{} {lbl}", NAMES[i]), &x, &want, 2e3 * EPS * cd * (want.max_abs() + y.max_abs() / a.max_abs()));
            }
        }
    }
}

type Trip = std::collections::BTreeMap<(usize, usize), f64>;
fn to_sparse(t: &Trip, m: usize, n: usize) -> SparseColMat<usize, dtype> {
    let v: Vec<(usize, usize, dtype)> = t.iter().map(|((i, j), x)| (*i, *j, d(*x))).collect();
    SparseColMat::try_new_from_triplets(m, n, &v).unwrap()
}
fn mul(t: &Trip, m: usize, x: &M, trans: bool) -> (M, M) {
    let (mut y, mut a) = (M::zeros(m, x.c), M::zeros(m, x.c));
    for ((i, j), v) in t {
        let (i, j) = if trans { (*j, *i) } else { (*i, *j) };
        for q in 0..x.c {
            y[(i, q)] += v * x[(j, q)];
            a[(i, q)] += (v * x[(j, q)]).abs();
        }
    }
    (y, a)
}
/// systems far larger than a dense reference: judged by the residual of the normal equations
fn huge(rng: &mut Rng, c: &mut Case, n: usize) {
    let k = rng.int(1, 3);
    let far = rng.unit() * 0.1;
    let mut solvers: Vec<Any3> = (0..3).map(Any3::new).collect();
    let mut pat: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
    let mut m = n;
    for i in 0..n {
        for _ in 0..rng.int(0, 2) {
            pat.push((m, i));
            let j = if rng.coin(far) { rng.below(n) } else { (i + rng.int(1, 4)) % n };
            if j != i {
                pat.push((m, j));
            }
            m += 1;
        }
    }
    c.desc(format!("{m}x{n} chain with loops, nnz={} rhs={k}", pat.len()));
    c.sig((m, n, pat.len(), k));
    for round in 0..2 {
        let a: Trip = pat.iter().map(|q| (*q, if q.0 < n { rng.range(0.1, 1.0) } else { rng.normal() })).collect();
        let b = M::from_fn(m, k, |_, _| rng.normal());
        let sp = to_sparse(&a, m, n);
        let mut byrow: Vec<Vec<(usize, f64)>> = vec![vec![]; m];
        for ((i, j), v) in &a {
            byrow[*i].push((*j, *v));
        }
        let mut s = Trip::new();
        for r in &byrow {
            for (i, x) in r {
                for (j, y) in r {
                    *s.entry((*i, *j)).or_insert(0.0) += x * y;
                }
            }
        }
        let ss = to_sparse(&s, n, n);
        let y = M::from_fn(n, k, |_, _| rng.normal());
        let tol = 1e6 * EPS;
        for (i, slv) in solvers.iter_mut().enumerate() {
            c.event();
            if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&slv.ls(&sp, &rhs(&b)))) {
                if c.check(x.r == n && x.c == k, "huge: size of the solution", || format!("{}x{}", x.r, x.c)) {
                    let (ax, axa) = mul(&a, m, &x, false);
                    let (g, _) = mul(&a, n, &ax.sub(&b), true);
                    let (_, ga) = mul(&a, n, &M::from_fn(m, k, |i, j| axa[(i, j)] + b[(i, j)].abs()), true);
                    c.check(g.max_abs() <= tol * ga.max_abs(), &format!("{} huge: gradient zero", NAMES[i]), || format!("round {round}: {:e} of {:e}", g.max_abs(), ga.max_abs()));
                }
            }
            if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&Any3::new(i).sym(&ss, &rhs(&y)))) {
                if c.check(x.r == n && x.c == k, "huge: size of the solution", || format!("{}x{}", x.r, x.c)) {
                    let (sx, sa) = mul(&s, n, &x, false);
                    c.check(sx.sub(&y).max_abs() <= tol * (sa.max_abs() + y.max_abs()), &format!("{} huge: symmetric residual", NAMES[i]), || format!("{:e} of {:e}", sx.sub(&y).max_abs(), sa.max_abs()));
                }
            }
        }
    }
}
/// unknowns in very different units: every one is as accurate as in balanced units
fn units(rng: &mut Rng, c: &mut Case) {
    let n = rng.int(1, 8);
    let m = n + rng.below(10);
    let (pat, name) = rand_pattern(rng, m, n);
    let a0 = fill(rng, m, n, &pat, false, true);
    let un: Vec<f64> = (0..n).map(|_| 10f64.powi(rng.int(0, 8) as i32 - 4)).collect();
    c.desc(format!("{m}x{n} {name} units {un:?}"));
    c.sig((m, n, name, un.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    let b: Vec<f64> = rng.nvec(m, 1.0);
    let Some(cd) = cond(&a0.t().mul(&a0)) else { return };
    if cd > 1e4 {
        return c.count("ill-conditioned draws", 1);
    }
    let Some((x0, _)) = a0.lstsq(&b) else { return };
    let a = M::from_fn(m, n, |i, j| a0[(i, j)] * un[j]);
    let sc = x0.iter().fold(0.0f64, |m, x| m.max(x.abs())) + la::norm(&b) / a0.max_abs();
    let sp = sparse(&a, &pat, rng);
    let s = a.t().mul(&a);
    let all: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|q| s[*q] != 0.0).collect();
    let ss = sparse(&s, &all, rng);
    let y = M::col(&a.t().mv(&b));
    for i in 0..3 {
        c.event();
        let mut slv = Any3::new(i);
        if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&slv.ls(&sp, &rhs(&M::col(&b))))) {
            let got: Vec<f64> = (0..n).map(|j| x[(j, 0)] * un[j]).collect();
            c.close_v(&format!("{} least squares in mixed units", NAMES[i]), &got, &x0, 1e-5 * sc);
        }
        // (QR of the symmetric matrix itself is not indifferent to the scaling of its rows)
        if i == 1 {
            continue;
        }
        let mut slv = Any3::new(i);
        if let Some(x) = c.no_panic(&format!("{} panicked", NAMES[i]), || back(&slv.sym(&ss, &rhs(&y)))) {
            let got: Vec<f64> = (0..n).map(|j| x[(j, 0)] * un[j]).collect();
            c.close_v(&format!("{} symmetric in mixed units", NAMES[i]), &got, &x0, 1e-5 * sc);
        }
    }
}

fn main() {
    let ctx = Ctx::from_env("C12");
    ctx.family("huge", 4, 60, |rng, c| {
        let n = *rng.pick(&[300, 700, 1500, 3000]);
        huge(rng, c, n)
    });
    ctx.family("units", 2000, 100000, units);
    ctx.family("many rounds", 24, 600, |rng, c| {
        let n = rng.int(1, 5);
        let m = n + rng.below(5);
        let r = rng.int(10, 70);
        least_squares(rng, c, n, m, r);
        symmetric(rng, c, n, r)
    });
    ctx.family("least-squares/small", 3000, 100000, |rng, c| {
        let n = rng.int(1, 8);
        let m = n + rng.below(12);
        let r = rng.int(1, 5);
        least_squares(rng, c, n, m, r)
    });
    ctx.family("least-squares/medium", 150, 4000, |rng, c| {
        let n = rng.int(10, 40);
        let m = n + rng.below(40);
        let r = rng.int(1, 4);
        least_squares(rng, c, n, m, r)
    });
    ctx.family("least-squares/large", 4, 60, |rng, c| {
        let n = rng.int(80, 160);
        let m = n + rng.below(100);
        least_squares(rng, c, n, m, 2)
    });
    ctx.family("symmetric/small", 3000, 100000, |rng, c| {
        let n = rng.int(1, 8);
        let r = rng.int(1, 5);
        symmetric(rng, c, n, r)
    });
    ctx.family("symmetric/medium", 150, 4000, |rng, c| {
        let n = rng.int(10, 50);
        let r = rng.int(1, 4);
        symmetric(rng, c, n, r)
    });
    ctx.family("symmetric/large", 4, 60, |rng, c| {
        let n = rng.int(80, 160);
        symmetric(rng, c, n, 2)
    });
    ctx.finish(
        "one evaluation = one sparsity pattern solved by all three solvers for 1-5 successive sets of values (explicit zeros, scalings, several right-hand sides) with the same solver objects; each solution against dense Householder QR / LU and the stationarity condition; events = systems solved; distinct = (shape, pattern family, nnz, rhs count)",
        &["systems with condition number of A'A above 1e10 are not judged; the tolerance is 2e3*eps*cond(A'A)"],
    );
}
