//! C11: graph assembly is exact for any graph shape and variable ordering.
use ahash::HashMap;
use factrs::containers::{Factor, Graph, GraphOrder, Idx, Key, ValuesOrder};
use factrs::linalg::{DiffResult, MatrixBlock, MatrixX};
use factrs::linear::{LinearFactor, LinearGraph, LinearValues};
use harness::gen::*;
use harness::mixed::{rand_key, Any};
use harness::users::NUSERS;
use harness::vars::*;
use harness::*;
use std::collections::BTreeMap;

type Layout = BTreeMap<u64, (usize, usize)>;
/// slots of the given variables in a random column order
fn rand_layout(rng: &mut Rng, dims: &[(u64, usize)]) -> Layout {
    let mut v = dims.to_vec();
    rng.shuffle(&mut v);
    let mut at = 0;
    v.into_iter()
        .map(|(k, n)| {
            at += n;
            (k, (at - n, n))
        })
        .collect()
}
fn to_order(l: &Layout) -> ValuesOrder {
    let mut m: HashMap<Key, Idx> = HashMap::default();
    for (k, (i, n)) in l {
        m.insert(Key(*k), Idx { idx: *i, dim: *n });
    }
    ValuesOrder::new(m)
}
/// (keys, widths, A, b) of one linear factor
struct Row {
    keys: Vec<u64>,
    w: Vec<usize>,
    a: M,
    b: Vec<f64>,
}
fn dense(rows: &[Row], l: &Layout) -> (M, Vec<f64>) {
    let n: usize = rows.iter().map(|r| r.b.len()).sum();
    let m: usize = l.values().map(|x| x.1).sum();
    let mut a = M::zeros(n, m);
    let mut b = vec![];
    for r in rows {
        let (row, mut col) = (b.len(), 0);
        for (k, w) in r.keys.iter().zip(&r.w) {
            a.add_block(row, l[k].0, &r.a.block(0, col, r.b.len(), *w));
            col += w;
        }
        b.extend(&r.b);
    }
    (a, b)
}
/// magnitude of what goes into every entry
fn dense_abs(rows: &[Row], l: &Layout) -> (M, Vec<f64>) {
    let abs: Vec<Row> = rows.iter().map(|r| Row { keys: r.keys.clone(), w: r.w.clone(), a: M::from_fn(r.a.r, r.a.c, |i, j| r.a[(i, j)].abs()), b: r.b.iter().map(|x| x.abs()).collect() }).collect();
    dense(&abs, l)
}
fn judge(c: &mut Case, what: &str, lg: &LinearGraph, go: &GraphOrder, want: &(M, Vec<f64>), rows: &[Row], l: &Layout, tol: f64) {
    c.event();
    let Some(DiffResult { value, diff }) = c.no_panic(&format!("{what}: assembly panicked"), || lg.residual_jacobian(go)) else { return };
    let dm = diff.to_dense();
    let got = M::from_fn(dm.nrows(), dm.ncols(), |i, j| dm.read(i, j) as f64);
    let gb: Vec<f64> = (0..value.nrows()).map(|i| value.read(i, 0) as f64).collect();
    // assembly only moves numbers: every entry to the last bits of what goes into it, however small next to the others
    let label = format!("{what}: Jacobian = dense placement");
    if (got.r, got.c) != (want.0.r, want.0.c) || gb.len() != want.1.len() {
        return c.fail(format!("{what}: size"), format!("{}x{} rhs {}, want {}x{}", got.r, got.c, gb.len(), want.0.r, want.0.c));
    }
    let (mag, mb) = dense_abs(rows, l);
    for i in 0..got.r {
        for j in 0..got.c {
            let ok = (got[(i, j)] - want.0[(i, j)]).abs() <= tol * mag[(i, j)];
            c.check(ok, &label, || format!("entry ({i},{j}) is {:e}, want {:e}", got[(i, j)], want.0[(i, j)]));
        }
        c.check((gb[i] - want.1[i]).abs() <= tol * mb[i], &format!("{what}: right-hand side"), || format!("row {i} is {:e}, want {:e}", gb[i], want.1[i]));
    }
    // structure: entries exactly inside the factors' blocks
    let mut inside = std::collections::HashSet::new();
    let mut row = 0;
    for r in rows {
        for k in &r.keys {
            let (i0, n) = l[k];
            for i in 0..r.b.len() {
                for j in 0..n {
                    inside.insert((row + i, i0 + j));
                }
            }
        }
        row += r.b.len();
    }
    let mut cnt = 0;
    let sp = diff.symbolic();
    for j in 0..sp.ncols() {
        for i in sp.row_indices_of_col(j) {
            cnt += 1;
            if !inside.contains(&(i, j)) {
                c.fail(format!("{what}: structure"), format!("entry ({i},{j}) outside every block"));
                return;
            }
        }
    }
    c.check(cnt == inside.len(), &format!("{what}: structure"), || format!("{cnt} entries want {}", inside.len()));
}
/// half_sq with every term taken in magnitude (repeated keys cancel in the dense matrix)
fn half_sq_abs((a, b): &(M, Vec<f64>), x: &[f64]) -> f64 {
    (0..b.len()).map(|i| ((0..x.len()).map(|j| (a[(i, j)] * x[j]).abs()).sum::<f64>() + b[i].abs()).powi(2)).sum::<f64>() / 2.0
}
fn half_sq(a: &M, x: &[f64], b: &[f64]) -> f64 {
    let r = la::sub(&a.mv(x), b);
    0.5 * la::dot(&r, &r)
}

/// random factors over random variables: repeated, parallel, unused and mixed widths
fn rand_case(rng: &mut Rng, nv: usize, nf: usize) -> (Model, Vec<FacS>) {
    let mut model = Model::new();
    let one_kind = if rng.coin(0.3) { Some(rng.below(Any::KINDS.len())) } else { None };
    while model.len() < nv {
        let k = fresh(rng, &model);
        let kd = one_kind.unwrap_or_else(|| rng.below(Any::KINDS.len()));
        model.insert(k, moderate(rng, kd));
    }
    let keys: Vec<u64> = model.keys().cloned().collect();
    // whitened units of every size: errors far below and far above one
    let sig = if rng.coin(0.5) {
        (0.1, 10.0)
    } else {
        let s = rng.logu(1e-6, 1e9);
        (0.1 * s, 10.0 * s)
    };
    let mut facs: Vec<FacS> = vec![];
    while facs.len() < nf {
        if !facs.is_empty() && rng.coin(0.15) {
            let f = facs[rng.below(facs.len())].clone();
            facs.push(f);
            continue;
        }
        if rng.coin(0.3) {
            let w = rng.below(NUSERS);
            if let Some(mut f) = user_factor(rng, w, &model, sig) {
                if rng.coin(0.15) {
                    name_twice(rng, &mut f, &model);
                }
                facs.push(f);
                continue;
            }
        }
        let a = keys[rng.below(keys.len())];
        let kind = Any::KINDS.iter().position(|k| *k == model[&a].kind()).unwrap();
        let cand: Vec<u64> = keys.iter().filter(|k| **k != a && model[*k].kind() == model[&a].kind()).cloned().collect();
        let ks = if rng.coin(0.08) {
            vec![a, a] // one variable in both places: its columns add up
        } else if cand.is_empty() || rng.coin(0.3) {
            vec![a]
        } else {
            vec![a, cand[rng.below(cand.len())]]
        };
        let z = moderate(rng, kind);
        let noise = NoiseS::rand(rng, z.dim(), sig.0, sig.1);
        facs.push(FacS { z, keys: ks, noise, ker: KerS::rand(rng), ker_first: rng.coin(0.5), user: None });
    }
    (model, facs)
}
fn run(rng: &mut Rng, c: &mut Case, nv: usize, nf: usize) {
    let (model, facs) = rand_case(rng, nv, nf);
    let mut order: Vec<u64> = model.keys().cloned().collect();
    rng.shuffle(&mut order);
    let vals = to_values(&model, &order);
    if nv * nf < 200 {
        c.desc(facs.iter().map(|f| f.describe()).collect::<Vec<_>>().join("; "));
    } else {
        c.desc(format!("{nv} variables, {nf} factors"));
    }
    let mut kinds: Vec<&str> = model.values().map(|v| v.kind()).collect();
    kinds.sort();
    c.sig((kinds, facs.iter().map(|f| f.keys.len()).collect::<Vec<_>>()));
    let mut g = if rng.coin(0.5) { Graph::new() } else { Graph::with_capacity(rng.below(2 * nf + 1)) };
    let singles: Vec<Factor> = facs.iter().map(|f| f.build()).collect();
    for (i, f) in facs.iter().enumerate() {
        c.check(g.len() == i && g.is_empty() == (i == 0), "graph len", || format!("{} want {i}", g.len()));
        g.add_factor(f.build());
    }
    let sum: f64 = singles.iter().map(|f| f.error(&vals) as f64).sum();
    let mag: f64 = singles.iter().map(|f| (f.error(&vals) as f64).abs()).sum();
    let got = g.error(&vals) as f64;
    c.close("graph error = sum of factor errors", got, sum, 1e-14 * mag * nf.max(10) as f64);
    // ... and of the model's errors
    let want: f64 = facs.iter().map(|f| f.error(&model)).sum();
    c.close("graph error = model error", got, want, 1e-5 * (1.0 + want.abs()) * nf.max(1) as f64);
    let rows: Vec<Row> = facs
        .iter()
        .zip(&singles)
        .map(|(f, s)| {
            let l = s.linearize(&vals);
            Row { keys: f.keys.clone(), w: f.keys.iter().map(|k| model[k].dim()).collect(), a: tom!(l.a.mat()), b: fv(&l.b) }
        })
        .collect();
    let dims: Vec<(u64, usize)> = model.iter().map(|(k, v)| (*k, v.dim())).collect();
    let lg = g.linearize(&vals);
    for rep in 0..2 {
        let l = rand_layout(rng, &dims);
        let want = dense(&rows, &l);
        let go = g.sparsity_pattern(to_order(&l));
        judge(c, "graph pattern", &lg, &go, &want, &rows, &l, 1e-13);
        let go2 = lg.sparsity_pattern(to_order(&l));
        judge(c, "linear graph pattern", &lg, &go2, &want, &rows, &l, 1e-13);
        c.check(go.order.dim() == go2.order.dim() && go.order.dim() == want.0.c, "pattern keeps the ordering", || "dim differs".into());
        for (k, (i, n)) in &l {
            let ok = [&go, &go2].iter().all(|o| o.order.get(Key(*k)).map(|x| (x.idx, x.dim)) == Some((*i, *n)));
            c.check(ok, "pattern keeps the ordering", || format!("slot of {k} changed"));
        }
        if rep == 0 {
            // the same pattern serves new values
            let mut m2 = model.clone();
            for v in m2.values_mut() {
                let t = v.small_tangent(rng, 0.2);
                *v = v.oplus(&t);
            }
            let vals2 = to_values(&m2, &order);
            let rows2: Vec<Row> = facs
                .iter()
                .zip(&singles)
                .map(|(f, s)| {
                    let l = s.linearize(&vals2);
                    Row { keys: f.keys.clone(), w: f.keys.iter().map(|k| model[k].dim()).collect(), a: tom!(l.a.mat()), b: fv(&l.b) }
                })
                .collect();
            judge(c, "pattern reused", &g.linearize(&vals2), &go, &dense(&rows2, &l), &rows2, &l, 1e-13);
        }
        let x = if rep == 0 { vec![0.0; want.0.c] } else { rng.nvec(want.0.c, 1.0) };
        let e = lg.error(&LinearValues::from_order_and_vector(to_order(&l), vx(&x))) as f64;
        let w = half_sq(&want.0, &x, &want.1);
        c.close("linear error = |Ax - b|^2 / 2", e, w, 1e-11 * half_sq_abs(&dense_abs(&rows, &l), &x));
    }
    // ordering derived from the values
    let vo = ValuesOrder::from_values(&vals);
    let l: Layout = model.keys().map(|k| (*k, vo.get(Key(*k)).map(|i| (i.idx, i.dim)).unwrap())).collect();
    let go = g.sparsity_pattern(vo);
    judge(c, "values order", &lg, &go, &dense(&rows, &l), &rows, &l, 1e-13);
}

fn main() {
    let ctx = Ctx::from_env("C11");
    ctx.family("small", 2500, 100000, |rng, c| {
        let nv = rng.int(1, 6);
        let nf = rng.int(1, 10);
        run(rng, c, nv, nf)
    });
    ctx.family("medium", 60, 2000, |rng, c| {
        let nv = rng.int(10, 30);
        let nf = rng.int(15, 60);
        run(rng, c, nv, nf)
    });
    ctx.family("large", 4, 60, |rng, c| {
        let (nv, nf) = if c.idx == 0 { (330, 700) } else { (rng.int(80, 150), rng.int(150, 300)) };
        run(rng, c, nv, nf)
    });
    // more rows and columns than 16-bit indices hold, compared entry by entry without forming the dense matrix
    ctx.family("huge", 2, 12, |rng, c| {
        let n = if ctx.scale < 1.0 { 1500 } else { rng.int(11_000, 12_500) };
        let kinds = if c.idx == 0 { vec![3, 4, 10] } else { (0..Any::KINDS.len()).collect::<Vec<_>>() };
        let mut model = Model::new();
        let ks: Vec<u64> = (0..n as u64).map(|i| i * 31 + 5).collect();
        let run_len = 40;
        let mut kd = kinds[0];
        for (i, k) in ks.iter().enumerate() {
            if i % run_len == 0 {
                kd = *rng.pick(&kinds);
            }
            model.insert(*k, moderate(rng, kd));
        }
        let mut facs: Vec<FacS> = vec![];
        for (i, k) in ks.iter().enumerate() {
            let keys = if i % run_len == 0 { vec![*k] } else { vec![ks[i - 1], *k] };
            let z = model[k].clone();
            facs.push(FacS { noise: NoiseS::rand(rng, z.dim(), 0.1, 10.0), z, keys, ker: KerS::NONE, ker_first: false, user: None });
        }
        c.desc(format!("{n} variables and factors"));
        c.sig((n, c.idx));
        let vals = to_values(&model, &ks);
        let mut g = Graph::new();
        let mut want: std::collections::HashMap<(usize, usize), f64> = Default::default();
        let dims: Vec<(u64, usize)> = model.iter().map(|(k, v)| (*k, v.dim())).collect();
        let l = rand_layout(rng, &dims);
        let mut wb = vec![];
        let mut sum = 0.0;
        for f in &facs {
            let s = f.build();
            sum += s.error(&vals) as f64;
            let lf = s.linearize(&vals);
            let (a, b) = (tom!(lf.a.mat()), fv(&lf.b));
            let mut col = 0;
            for k in &f.keys {
                let (at, w) = l[k];
                for i in 0..b.len() {
                    for j in 0..w {
                        *want.entry((wb.len() + i, at + j)).or_insert(0.0) += a[(i, col + j)];
                    }
                }
                col += w;
            }
            wb.extend(b);
            g.add_factor(s);
        }
        c.close("graph error = sum of factor errors", g.error(&vals) as f64, sum, 1e-10 * sum);
        let lg = g.linearize(&vals);
        for (what, go) in [("graph pattern", g.sparsity_pattern(to_order(&l))), ("linear graph pattern", lg.sparsity_pattern(to_order(&l)))] {
            c.event();
            let Some(DiffResult { value, diff }) = c.no_panic(&format!("{what}: assembly panicked"), || lg.residual_jacobian(&go)) else { continue };
            let cols: usize = l.values().map(|x| x.1).sum();
            c.check((diff.nrows(), diff.ncols(), value.nrows()) == (wb.len(), cols, wb.len()), "huge: size", || format!("{}x{}", diff.nrows(), diff.ncols()));
            let mut cnt = 0;
            let label = format!("{what}: huge Jacobian = placement");
            for j in 0..diff.ncols() {
                for (i, v) in diff.row_indices_of_col(j).zip(diff.values_of_col(j)) {
                    cnt += 1;
                    let w = want.get(&(i, j)).copied();
                    let ok = w.map_or(false, |w| (*v as f64 - w).abs() <= 1e-13 * w.abs());
                    c.check(ok, &label, || format!("entry ({i},{j}) is {v:e}, want {w:?}"));
                }
            }
            c.check(cnt == want.len(), &format!("{what}: huge structure"), || format!("{cnt} entries want {}", want.len()));
            let bad = (0..wb.len().min(value.nrows())).find(|i| (value.read(*i, 0) as f64 - wb[*i]).abs() > 1e-13 * wb[*i].abs());
            c.check(bad.is_none(), &format!("{what}: huge right-hand side"), || format!("row {bad:?}"));
        }
        let cols: usize = l.values().map(|x| x.1).sum();
        let x = rng.nvec(cols, 1.0);
        let mut ax = vec![0.0; wb.len()];
        want.iter().for_each(|((i, j), v)| ax[*i] += v * x[*j]);
        let w: f64 = ax.iter().zip(&wb).map(|(a, b)| (a - b).powi(2)).sum::<f64>() / 2.0;
        let e = lg.error(&LinearValues::from_order_and_vector(to_order(&l), vx(&x))) as f64;
        c.close("huge: linear error = |Ax - b|^2 / 2", e, w, 1e-9 * w);
    });
    // hand-made linear factors: any number of keys, any widths (up to 45), any number of rows
    ctx.family("linear", 4000, 150000, |rng, c| {
        let nv = rng.int(1, 8);
        let mut dims: Vec<(u64, usize)> = vec![];
        while dims.len() < nv {
            let k = rand_key(rng);
            if dims.iter().all(|d| d.0 != k) {
                let n = if rng.coin(0.05) { rng.int(13, 45) } else { rng.int(1, 12) };
                dims.push((k, n));
            }
        }
        let nf = rng.int(1, 12);
        let mut rows = vec![];
        let mut lg = LinearGraph::new();
        let mut fs = vec![];
        for _ in 0..nf {
            let mut ks: Vec<usize> = (0..nv).collect();
            rng.shuffle(&mut ks);
            ks.truncate(rng.int(1, nv.min(7)));
            if rng.coin(0.1) {
                let again = ks[rng.below(ks.len())];
                let at = rng.below(ks.len() + 1);
                ks.insert(at, again);
            }
            let w: Vec<usize> = ks.iter().map(|i| dims[*i].1).collect();
            let keys: Vec<u64> = ks.iter().map(|i| dims[*i].0).collect();
            let (n, m) = (rng.int(1, 9), w.iter().sum::<usize>());
            let zeros = rng.coin(0.3);
            let a = M::from_fn(n, m, |_, _| if zeros && rng.coin(0.5) { 0.0 } else { rng.normal() });
            let b = rng.nvec(n, 1.0);
            // rows in any unit
            let s = if rng.coin(0.4) { rng.logu(1e-9, 1e6) } else { 1.0 };
            let (a, b) = (a.scale(s), la::scale(&b, s));
            let mut starts = vec![];
            let mut at = 0;
            for x in &w {
                starts.push(at);
                at += x;
            }
            let mb = MatrixBlock::new(MatrixX::from_fn(n, m, |i, j| d(a[(i, j)])), starts.clone());
            c.check(mb.idx() == starts, "block starts kept", || "differ".into());
            let f = LinearFactor::new(keys.iter().map(|k| Key(*k)).collect(), mb, vx(&b));
            c.check(f.dim_out() == n, "linear factor rows", || format!("{} want {n}", f.dim_out()));
            rows.push(Row { keys, w, a, b });
            fs.push(f);
        }
        c.desc(format!("dims {dims:?} rows {:?}", rows.iter().map(|r| (&r.keys, r.b.len())).collect::<Vec<_>>()));
        c.sig(rows.iter().map(|r| (r.w.clone(), r.b.len())).collect::<Vec<_>>());
        let l = rand_layout(rng, &dims);
        let want = dense(&rows, &l);
        let x = rng.nvec(want.0.c, 1.0);
        let lv = LinearValues::from_order_and_vector(to_order(&l), vx(&x));
        for (f, r) in fs.iter().zip(&rows) {
            let (a, b) = dense(std::slice::from_ref(r), &l);
            let w = half_sq(&a, &x, &b);
            c.close("linear factor error", f.error(&lv) as f64, w, 1e-12 * half_sq_abs(&dense_abs(std::slice::from_ref(r), &l), &x));
        }
        if rng.coin(0.5) {
            lg = LinearGraph::from_vec(fs);
        } else {
            for f in fs {
                lg.add_factor(f);
            }
        }
        let go = lg.sparsity_pattern(to_order(&l));
        judge(c, "linear", &lg, &go, &want, &rows, &l, 1e-15);
        let w = half_sq(&want.0, &x, &want.1);
        c.close("linear graph error", lg.error(&lv) as f64, w, 1e-12 * half_sq_abs(&dense_abs(&rows, &l), &x));
    });
    ctx.finish(
        "one evaluation = one random graph (mixed types and widths, repeated and parallel factors, factors naming one variable twice, unused variables) or linear graph under random column layouts: error, assembled sparse Jacobian (values and structure), right-hand side and linear error against a dense placement of the individually linearised factors; events = assemblies compared; distinct = multiset of types and factor arities",
        &["orderings are gap-free partitions, as ValuesOrder requires"],
    );
}
