//! C28: misuse is rejected loudly. Every case takes a valid object, checks that the valid use works, breaks exactly one
//! thing (a key, a type, a size, a matrix) and requires a panic (or the documented none) instead of a number.
use ahash::HashMap;
use factrs::containers::{Graph, Idx, Key, Values, ValuesOrder};
use factrs::dtype;
use factrs::linalg::{Matrix, MatrixBlock, MatrixX};
use factrs::linear::*;
use factrs::noise::GaussianNoise;
use faer::sparse::SparseColMat;
use faer::Mat;
use harness::gen::*;
use harness::imu;
use harness::mixed::*;
use harness::opt::*;
use harness::vars::*;
use harness::*;

fn vals_of(m: &Model, rng: &mut Rng) -> Values {
    let mut ks: Vec<u64> = m.keys().copied().collect();
    rng.shuffle(&mut ks);
    to_values(m, &ks)
}
/// a variable of another type than `a`, of the same width when possible
fn impostor(rng: &mut Rng, a: &Any) -> Any {
    let same = rng.coin(0.8);
    for _ in 0..200 {
        let b = Any::rand(rng);
        if b.kind() != a.kind() && (!same || b.dim() == a.dim()) {
            return b;
        }
    }
    loop {
        let b = Any::rand(rng);
        if b.kind() != a.kind() {
            return b;
        }
    }
}
fn fresh_key(rng: &mut Rng, m: &Model) -> u64 {
    // near misses of existing keys are the interesting ones
    loop {
        let k = match rng.below(3) {
            0 => rand_key(rng),
            1 => {
                let ks: Vec<&u64> = m.keys().collect();
                (**rng.pick(&ks)).wrapping_add(1)
            }
            _ => {
                let ks: Vec<&u64> = m.keys().collect();
                (**rng.pick(&ks)) ^ (1 << rng.below(64))
            }
        };
        if !m.contains_key(&k) {
            return k;
        }
    }
}
fn sparse(m: usize, n: usize, a: &M) -> SparseColMat<usize, dtype> {
    let mut t = vec![];
    for j in 0..n {
        for i in 0..m {
            if a[(i, j)] != 0.0 {
                t.push((i, j, d(a[(i, j)])));
            }
        }
    }
    SparseColMat::try_new_from_triplets(m, n, &t).unwrap()
}

fn noise<const N: usize>(ctx: &Ctx) {
    ctx.family(&format!("noise/{N}"), 150, 8000, |rng, c| {
        let good = spd(rng, N, 0.5, 2.0);
        let nm = |m: &M| Matrix::<N, N>::from_fn(|i, j| d(m[(i, j)]));
        c.no_panic("valid covariance", || GaussianNoise::<N>::from_matrix_cov(nm(&good).as_view()));
        c.no_panic("valid information", || GaussianNoise::<N>::from_matrix_inf(nm(&good).as_view()));
        let how = rng.below(5);
        let mut bad = good.clone();
        let what = match how {
            0 => {
                let u = rng.unit_vec(N);
                let uu = M::col(&u).mul(&M::col(&u).t());
                let l = 10.0 + good.max_abs() * N as f64 * 2.0;
                bad = good.sub(&uu.scale(l));
                "one negative direction"
            }
            1 => {
                bad = good.scale(-1.0);
                "negative definite"
            }
            2 => {
                bad = M::zeros(N, N);
                "zero"
            }
            3 => {
                let i = rng.below(N);
                for j in 0..N {
                    bad[(i, j)] = 0.0;
                    bad[(j, i)] = 0.0;
                }
                "a variable without information"
            }
            _ => {
                let i = rng.below(N);
                bad[(i, i)] = f64::NAN;
                "not a number"
            }
        };
        c.desc(format!("{what}: {bad:?}"));
        c.sig((N, how, c.idx));
        c.event();
        c.count(&format!("noise matrix: {what}"), 1);
        c.panics(&format!("covariance rejected ({what})"), || GaussianNoise::<N>::from_matrix_cov(nm(&bad).as_view()));
        c.panics(&format!("information rejected ({what})"), || GaussianNoise::<N>::from_matrix_inf(nm(&bad).as_view()));
    });
}

fn main() {
    let ctx = Ctx::from_env("C28");
    ctx.family("factor keys and types", 6000, 100_000, |rng, c| {
        let mut o = opts(rng.int(1, 6), rng.below(5));
        o.kernels = rng.coin(0.5);
        let p = Problem::rand(rng, &o);
        let f = rng.pick(&p.facs).clone();
        let k = *rng.pick(&f.keys);
        let mut m = p.init.clone();
        let missing = rng.coin(0.5);
        let was = m[&k].clone();
        let what = if missing {
            m.remove(&k);
            if rng.coin(0.5) {
                let nk = fresh_key(rng, &p.init);
                m.insert(nk, was.clone());
            }
            format!("key {k:#x} missing")
        } else {
            let b = impostor(rng, &was);
            let w = format!("key {k:#x} holds a {} instead of a {}", b.kind(), was.kind());
            m.insert(k, b);
            w
        };
        c.desc(format!("{} with {what}", f.describe()));
        c.sig((missing, f.keys.len(), was.kind(), f.user.is_some(), c.idx % 64));
        c.event();
        c.count(if missing { "missing key" } else { "wrong type" }, 1);
        let (good, bad) = (vals_of(&p.init, rng), vals_of(&m, rng));
        let fac = f.build();
        c.no_panic("error at valid values", || fac.error(&good));
        c.no_panic("linearize at valid values", || fac.linearize(&good));
        c.panics(&format!("error: {}", if missing { "missing key" } else { "wrong type" }), || fac.error(&bad));
        c.panics(&format!("linearize: {}", if missing { "missing key" } else { "wrong type" }), || fac.linearize(&bad));
        let g = p.graph();
        c.panics("graph error", || g.error(&bad));
        c.panics("graph linearize", || g.linearize(&bad));
        // an optimizer must not return anything from such a start either
        if rng.coin(0.3) {
            let (algo, s) = (*rng.pick(&[Algo::GN, Algo::LM]), rng.below(3));
            c.panics(&format!("optimize/{algo:?}"), || make(algo, s, p.graph()).optimize(bad.clone()));
            c.panics(&format!("error of an optimizer/{algo:?}"), || make(algo, s, p.graph()).error(&bad));
        }
        // an ordering that lacks the key
        if missing {
            let ord = || ValuesOrder::from_values(&bad);
            c.panics("sparsity pattern of the graph", || g.sparsity_pattern(ord()));
            let lg = g.linearize(&good);
            c.panics("sparsity pattern of the linear graph", || lg.sparsity_pattern(ord()));
            let lv = LinearValues::zero_from_values(&bad);
            c.panics("linear graph error", || lg.error(&lv));
            let lf = fac.linearize(&good);
            c.panics("linear factor error", || lf.error(&lv));
            c.check(lv.get(Key(k)).is_none(), "linear values have nothing at an unknown key", || format!("{k:#x}"));
        }
        c.no_panic("graph assembles at valid values", || {
            let go = g.sparsity_pattern(ValuesOrder::from_values(&good));
            let lg: LinearGraph = g.linearize(&good);
            lg.residual_jacobian(&go);
            lg.error(&LinearValues::zero_from_values(&good))
        });
    });
    ctx.family("imu factor keys and types", 600, 6000, |rng, c| {
        let s = imu::Setup::rand(rng, imu::Params::default_vals(), 4, 1.0);
        let f = s.factor();
        let (a, b) = (imu::State::rand(rng, true), imu::State::rand(rng, true));
        let good = imu::values(&a, &b);
        let k = *rng.pick(&imu::KEYS);
        let mut bad = good.clone();
        let gone = rng.coin(0.5);
        let old = match bad.entry(Key(k)) {
            std::collections::hash_map::Entry::Occupied(e) => Any::from_box(&e.remove()).unwrap(),
            _ => unreachable!(),
        };
        if !gone {
            impostor(rng, &old).insert(&mut bad, k);
        }
        c.desc(format!("IMU factor, key {k} {}", if gone { "missing" } else { "of another type" }));
        c.sig((k, gone, c.idx % 16));
        c.event();
        c.no_panic("error at valid values", || f.error(&good));
        c.no_panic("linearize at valid values", || f.linearize(&good));
        c.panics("imu error", || f.error(&bad));
        c.panics("imu linearize", || f.linearize(&bad));
    });
    ctx.family("linear sizes", 8000, 200_000, |rng, c| {
        let nk = rng.int(1, 4);
        let rows = rng.int(1, 6);
        let widths: Vec<usize> = (0..nk).map(|_| rng.int(1, 6)).collect();
        let cols: usize = widths.iter().sum();
        let idx: Vec<usize> = widths.iter().scan(0, |s, w| { let r = *s; *s += w; Some(r) }).collect();
        let keys: Vec<Key> = (0..nk as u64).map(|i| Key(i * 3 + 1)).collect();
        let mat = MatrixX::from_fn(rows, cols, |_, _| d(rng.normal()));
        let b = vx(&rng.nvec(rows, 1.0));
        c.desc(format!("{rows}x{cols}, widths {widths:?}"));
        c.sig((rows, widths.clone()));
        c.event();
        let mut map: HashMap<Key, Idx> = HashMap::default();
        for i in 0..nk {
            map.insert(keys[i], Idx { idx: idx[i], dim: widths[i] });
        }
        let order = ValuesOrder::new(map.clone());
        let lf = c.no_panic("consistent linear factor", || LinearFactor::new(keys.clone(), MatrixBlock::new(mat.clone(), idx.clone()), b.clone()));
        let Some(lf) = lf else { return };
        c.no_panic("consistent linear error", || lf.error(&LinearValues::zero_from_order(order.clone())));
        // number of keys
        let mut ks = keys.clone();
        if rng.coin(0.5) { ks.push(Key(999)); } else { ks.pop(); }
        c.panics("number of keys and blocks differ", || LinearFactor::new(ks, MatrixBlock::new(mat.clone(), idx.clone()), b.clone()));
        // rows of b
        let r2 = loop { let r = rng.int(0, 8); if r != rows { break r; } };
        let b2 = vx(&rng.nvec(r2, 1.0));
        c.panics("rows of matrix and vector differ", || LinearFactor::new(keys.clone(), MatrixBlock::new(mat.clone(), idx.clone()), b2));
        // block index out of range
        c.panics("block of a key that is not there", || lf.a.get_block(nk + rng.below(3)).norm());
        // a linear update whose block for one key has another width
        let i = rng.below(nk);
        let w2 = loop { let w = rng.int(1, 8); if w != widths[i] { break w; } };
        let mut at = 0;
        let mut map2: HashMap<Key, Idx> = HashMap::default();
        for j in 0..nk {
            let w = if j == i { w2 } else { widths[j] };
            map2.insert(keys[j], Idx { idx: at, dim: w });
            at += w;
        }
        let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map2), vx(&rng.nvec(at, 1.0)));
        c.panics("linear error with a block of another width", || lf.error(&lv));
        c.panics("product with a block of another width", || lf.a.mul(i, lv.get(keys[i]).unwrap()).norm());
        // vectors of another length than the ordering
        let n2 = loop { let n = rng.below(2 * cols + 2); if n != cols { break n; } };
        c.panics("linear values of another length", || LinearValues::from_order_and_vector(order.clone(), vx(&vec![1.0; n2])));
        c.no_panic("linear values of the right length", || LinearValues::from_order_and_vector(order.clone(), vx(&vec![1.0; cols])));
    });
    ctx.family("wrong-sized updates", 6000, 100_000, |rng, c| {
        let n = rng.int(1, 8);
        let (vals, model) = rand_values(rng, n);
        let mut map: HashMap<Key, Idx> = HashMap::default();
        let victim = rng.below(model.len());
        let (mut at, mut good_at) = (0, 0);
        let mut good: HashMap<Key, Idx> = HashMap::default();
        for (i, (k, v)) in model.iter().enumerate() {
            let w = if i == victim {
                loop { let w = rng.int(1, 12); if w != v.dim() { break w; } }
            } else { v.dim() };
            map.insert(Key(*k), Idx { idx: at, dim: w });
            at += w;
            good.insert(Key(*k), Idx { idx: good_at, dim: v.dim() });
            good_at += v.dim();
        }
        c.desc(format!("{n} variables, {} gets a wrong width", model[victim].1.kind()));
        c.sig((n, model[victim].1.kind(), at));
        c.event();
        let lv = LinearValues::from_order_and_vector(ValuesOrder::new(good), vx(&rng.nvec(good_at, 0.1)));
        c.no_panic("update of the right widths", || vals.clone().oplus_mut(&lv));
        let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map), vx(&rng.nvec(at, 0.1)));
        c.panics("update with a wrong-sized block", || vals.clone().oplus_mut(&lv));
        let n2 = loop { let n = rng.below(2 * good_at + 2); if n != good_at { break n; } };
        c.panics("values and vector of different sizes", || LinearValues::from_values_and_vector(&vals, vx(&vec![1.0; n2])));
    });
    ctx.family("orderings that do not fit", 1500, 20_000, |rng, c| {
        // an ordering whose widths are not those of the variables: assembling must not produce a system
        let mut o = opts(rng.int(2, 5), rng.below(4));
        o.kernels = false;
        let p = Problem::rand(rng, &o);
        let vals = vals_of(&p.init, rng);
        let used: Vec<u64> = p.facs.iter().flat_map(|f| f.keys.clone()).collect();
        let k = *rng.pick(&used);
        let mut map: HashMap<Key, Idx> = HashMap::default();
        let mut at = 0;
        for (q, v) in &p.init {
            let w = if *q == k { loop { let w = rng.int(1, 9); if w != v.dim() { break w; } } } else { v.dim() };
            map.insert(Key(*q), Idx { idx: at, dim: w });
            at += w;
        }
        c.desc(format!("variable {k:#x} of width {} misordered; {}", p.init[&k].dim(), p.describe()));
        c.sig((p.init.len(), p.init[&k].kind(), at));
        c.event();
        let g = p.graph();
        c.panics("assembly with an ordering of other widths", || {
            let go = g.sparsity_pattern(ValuesOrder::new(map.clone()));
            g.linearize(&vals).residual_jacobian(&go)
        });
    });
    ctx.family("singular systems", 3000, 60_000, |rng, c| {
        let n = rng.int(1, 12);
        let m = n + rng.below(10);
        let mut a = M::from_fn(m, n, |_, _| if rng.coin(0.6) { rng.normal() } else { 0.0 });
        for j in 0..n {
            a[(j, j)] = 4.0 + rng.unit();
        }
        let b = M::from_fn(m, 1, |_, _| rng.normal());
        let fb = Mat::<dtype>::from_fn(m, 1, |i, _| d(b[(i, 0)]));
        let good = sparse(m, n, &a);
        c.no_panic("regular least squares", || CholeskySolver::default().solve_lst_sq(good.as_ref(), fb.as_ref()));
        let h = a.t().mul(&a);
        let hs = sparse(n, n, &h);
        let hb = Mat::<dtype>::from_fn(n, 1, |i, _| d(i as f64 + 1.0));
        c.no_panic("positive definite symmetric", || CholeskySolver::default().solve_symmetric(hs.as_ref(), hb.as_ref()));
        let j = rng.below(n);
        c.desc(format!("{m}x{n}, column {j} emptied"));
        c.sig((m, n, j));
        c.event();
        let mut z = a.clone();
        for i in 0..m {
            z[(i, j)] = 0.0;
        }
        let zs = sparse(m, n, &z);
        c.panics("Cholesky least squares with an unconstrained unknown", || CholeskySolver::default().solve_lst_sq(zs.as_ref(), fb.as_ref()));
        let zh = sparse(n, n, &z.t().mul(&z));
        c.panics("Cholesky of a singular symmetric matrix", || CholeskySolver::default().solve_symmetric(zh.as_ref(), hb.as_ref()));
        let mut neg = h.clone();
        neg[(j, j)] = -neg[(j, j)];
        let ns = sparse(n, n, &neg);
        c.panics("Cholesky of an indefinite matrix", || CholeskySolver::default().solve_symmetric(ns.as_ref(), hb.as_ref()));
    });
    ctx.family("under-determined graphs", 1000, 10_000, |rng, c| {
        // a variable no factor touches makes the Gauss-Newton system singular
        let mut o = opts(rng.int(1, 5), rng.below(4));
        o.kernels = false;
        o.disp = 0.2;
        let p = Problem::rand(rng, &o);
        let mut m = p.init.clone();
        let k = fresh_key(rng, &m);
        m.insert(k, Any::rand(rng));
        let vals = vals_of(&m, rng);
        let g: Graph = p.graph();
        if !(g.error(&vals) > 1e-6) {
            return c.skip("already optimal");
        }
        c.desc(p.describe());
        c.sig((m.len(), c.idx % 64));
        c.event();
        let mut q = make(Algo::GN, 0, g);
        q.params().error_tol = 0.0;
        c.panics("Gauss-Newton with an unconstrained variable", || q.optimize(vals));
    });
    noise::<1>(&ctx);
    noise::<2>(&ctx);
    noise::<3>(&ctx);
    noise::<6>(&ctx);
    noise::<9>(&ctx);
    noise::<15>(&ctx);
    ctx.finish(
        "distinct by what was broken, its type and the sizes involved",
        &["matrices called singular have an exactly empty row or column; nearly singular ones are outside the statement"],
    )
}
