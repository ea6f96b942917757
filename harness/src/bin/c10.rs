//! C10: a factor's error and linearisation represent its weighted residual.
use factrs::containers::Values;
use harness::gen::*;
use harness::mixed::{rand_key, Any};
use harness::users::{kinds_of, NUSERS};
use harness::vars::*;
use harness::*;
use std::f64::consts::PI;

fn lin_checks(c: &mut Case, f: &FacS, model: &Model, vals: &Values, fac: &factrs::containers::Factor) {
    let r = f.resid(model);
    let n = r.len();
    let inf = f.noise.inf(n);
    let d2 = la::dot(&r, &inf.mv(&r));
    let rn = la::norm(&r);
    let infn = inf.max_abs() * n as f64;
    let mag = 1.0 + f.keys.iter().map(|k| model[k].mat().max_abs()).fold(0.0, f64::max) + f.z.mat().max_abs();
    // residuals carry the library's small-angle approximation error
    let rt = 2e-8 * mag * if f.angle(model) > 3.0 { 30.0 } else { 1.0 };
    let d2t = infn * (2.0 * rn * rt + rt * rt) + 1e-8 * d2;
    let err = fac.error(vals) as f64;
    let (lo, hi) = (f.ker.loss((d2 - d2t).max(0.0)), f.ker.loss(d2 + d2t));
    let slack = 1e-9 * (1.0 + hi.abs());
    c.check(err >= lo - slack && err <= hi + slack, "error = loss(|whitened residual|^2)", || format!("error {err:e} not in [{lo:e},{hi:e}] (d2 {d2:e}, {:?})", f.ker));
    c.check(fac.keys().iter().map(|k| k.0).collect::<Vec<_>>() == f.keys, "factor keys", || format!("{:?}", fac.keys()));
    c.check(fac.dim_out() == n, "dim_out", || format!("{} want {n}", fac.dim_out()));
    let Some(lin) = c.no_panic("linearize panicked", || fac.linearize(vals)) else { return };
    c.check(lin.keys.iter().map(|k| k.0).collect::<Vec<_>>() == f.keys, "linearised keys in order", || format!("{:?}", lin.keys));
    let a = tom!(lin.a.mat());
    let b: Vec<f64> = lin.b.iter().map(|x| *x as f64).collect();
    let dims: Vec<usize> = f.keys.iter().map(|k| model[k].dim()).collect();
    let tot: usize = dims.iter().sum();
    if !c.check(a.r == n && a.c == tot && b.len() == n && lin.dim_out() == n, "linearised shapes", || format!("A {}x{} b {}", a.r, a.c, b.len())) {
        return;
    }
    let mut col = 0;
    for (i, w) in dims.iter().enumerate() {
        let blk = tom!(lin.a.get_block(i));
        if c.check(blk.r == n && blk.c == *w, "one block per key of its variable's width", || format!("block {i} is {}x{} want {n}x{w}", blk.r, blk.c)) {
            c.close_m("block = its columns of A", &blk, &a.block(0, col, n, *w), 0.0);
        }
        let x: Vec<f64> = (0..*w).map(|j| 0.3 * j as f64 - 1.0).collect();
        let got: Vec<f64> = lin.a.mul(i, vx(&x).as_view()).iter().map(|q| *q as f64).collect();
        c.close_v("block multiplication", &got, &blk.mv(&x), 1e-10 * (1.0 + blk.max_abs()));
        col += w;
    }
    if f.angle(model) > PI - 0.03 {
        c.skip("cut locus");
        return;
    }
    let w = f.ker.weight(d2);
    let (wl, wh) = (f.ker.weight((d2 - d2t).max(0.0)), f.ker.weight(d2 + d2t));
    if !w.is_finite() || !wl.is_finite() {
        // L1 near zero: the weight is capped, only consistency between A and b can be judged
        c.count("l1-capped", 1);
        return;
    }
    let wt = (wl - wh).abs() + 1e-8 * w;
    let j = f.jac(model);
    let jm = j.max_abs();
    let jt = f.jtol() * mag * (1.0 + jm);
    let s = (tot * n) as f64;
    let ata = j.t().mul(&inf).mul(&j);
    c.close_m("A'A = w J' Sigma^-1 J", &a.t().mul(&a), &ata.scale(w), s * infn * w * (2.0 * jm * jt + jt * jt) + wt * ata.max_abs() + 1e-12);
    let unweighted = j.t().mul(&inf).mv(&r);
    let want = la::scale(&unweighted, -w);
    let tol = n as f64 * infn * w * (jm * rt + jt * rn + jt * rt) + wt * unweighted.iter().fold(0.0f64, |m, x| m.max(x.abs())) + 1e-12;
    c.close_v("A'b = -w J' Sigma^-1 r", &a.t().mv(&b), &want, tol);
    c.close("b'b = w r' Sigma^-1 r", la::dot(&b, &b), w * d2, w * d2t + wt * d2 + 1e-12);
    match &f.noise {
        NoiseS::Default | NoiseS::Unit => {
            c.close_m("A = sqrt(w) J", &a, &j.scale(w.sqrt()), w.sqrt() * jt + (wh.max(wl).sqrt() - wh.min(wl).sqrt() + 1e-9) * jm + 1e-12);
        }
        NoiseS::User(l) => {
            let lj = l.mul(&j).scale(w.sqrt());
            c.close_m("A = sqrt(w) L J", &a, &lj, n as f64 * l.max_abs() * (w.sqrt() * jt + (wh.max(wl).sqrt() - wh.min(wl).sqrt() + 1e-9) * jm) + 1e-12);
            c.close_v("b = -sqrt(w) L r", &b, &la::scale(&l.mv(&r), -w.sqrt()), n as f64 * l.max_abs() * (w.sqrt() * rt + (wh.max(wl).sqrt() - wh.min(wl).sqrt() + 1e-9) * rn) + 1e-12);
        }
        NoiseS::Sigmas(sg) => {
            for i in 0..n {
                let e = w.sqrt() / sg[i];
                c.close("|b_i| = sqrt(w)|r_i|/sigma_i", b[i].abs(), e * r[i].abs(), e * rt + (wh.max(wl).sqrt() - wh.min(wl).sqrt() + 1e-9) * rn / sg[i] + 1e-12);
            }
        }
        _ => {}
    }
}

/// the range of standard deviations of one case: usually ordinary, sometimes extremely precise or loose
fn scale(rng: &mut Rng) -> (f64, f64) {
    *rng.pick(&[(0.05, 20.0), (0.05, 20.0), (0.05, 20.0), (1e-6, 1e-4), (1e-4, 1e-2), (1e3, 1e5)])
}

fn main() {
    let ctx = Ctx::from_env("C10");
    for kd in 0..Any::KINDS.len() {
        for binary in [false, true] {
            let name = format!("{}/{}", if binary { "between" } else { "prior" }, Any::KINDS[kd]);
            ctx.family(&name, 350, 20000, |rng, c| {
                let mut model = Model::new();
                let z = moderate(rng, kd);
                let mut keys = vec![];
                let nk = if binary { 2 } else { 1 };
                while keys.len() < nk {
                    let k = fresh(rng, &model);
                    model.insert(k, moderate(rng, kd));
                    keys.push(k);
                }
                // how far the last variable is from agreeing with the measurement
                let far = rng.below(4);
                if far > 0 {
                    let exact = if binary { model[&keys[0]].compose(&z) } else { z.clone() };
                    let s = [0.0, rng.logu(1e-7, 1e-3), rng.logu(1e-3, 1.0)][far - 1];
                    let t = exact.small_tangent(rng, s);
                    model.insert(keys[nk - 1], exact.oplus(&t));
                }
                // bystanders of any type
                for _ in 0..rng.below(4) {
                    let k = fresh(rng, &model);
                    let q = rng.below(Any::KINDS.len());
                    model.insert(k, moderate(rng, q));
                }
                if binary && rng.coin(0.05) {
                    keys[1] = keys[0]; // one variable in both places
                    c.count("one variable named twice", 1);
                }
                let (lo, hi) = scale(rng);
                let noise = NoiseS::rand(rng, z.dim(), lo, hi);
                let f = FacS { z, keys, noise, ker: KerS::rand(rng), ker_first: rng.coin(0.5), user: None };
                c.desc(format!("{} at {:?}", f.describe(), f.keys.iter().map(|k| model[k].mat()).collect::<Vec<_>>()));
                let d2 = f.d2(&model);
                c.sig((far, std::mem::discriminant(&f.noise), f.ker.name, (d2 + 1e-30).log10() as i32));
                let mut order: Vec<u64> = model.keys().cloned().collect();
                rng.shuffle(&mut order);
                let vals = to_values(&model, &order);
                let fac = f.build();
                lin_checks(c, &f, &model, &vals, &fac);
            });
        }
    }
    for which in 0..NUSERS {
        ctx.family(&format!("user/{which}"), 500, 20000, |rng, c| {
            let mut model = Model::new();
            for kd in kinds_of(which) {
                let k = fresh(rng, &model);
                model.insert(k, moderate(rng, kd));
            }
            for _ in 0..rng.below(4) {
                let k = rand_key(rng);
                if !model.contains_key(&k) {
                    let q = rng.below(Any::KINDS.len());
                    model.insert(k, moderate(rng, q));
                }
            }
            let sc = scale(rng);
            let mut f = user_factor(rng, which, &model, sc).expect("types present");
            let twice = rng.coin(0.15) && name_twice(rng, &mut f, &model);
            if twice {
                c.count("one variable named twice", 1);
            }
            f.ker = KerS::rand(rng);
            c.desc(f.describe());
            c.sig((std::mem::discriminant(&f.noise), f.ker.name, (f.d2(&model) + 1e-30).log10() as i32));
            let mut order: Vec<u64> = model.keys().cloned().collect();
            rng.shuffle(&mut order);
            let vals = to_values(&model, &order);
            let fac = f.build();
            lin_checks(c, &f, &model, &vals, &fac);
            // -A'b is the gradient of the factor's own error (differences of the library's error)
            let d2 = f.d2(&model);
            if twice || sc.0 != 0.05 || !f.ker.weight(d2).is_finite() || (f.ker.name == "L1" && d2 < 0.1) || d2 > 1e5 || d2 < 1e-6 {
                return;
            }
            // kernels with a kink in their second derivative: keep away from the threshold
            let thr = f.ker.p.unwrap_or(1.345);
            if ["Huber", "Tukey"].contains(&f.ker.name) && (f.ker.p.is_none() || (d2.sqrt() / thr - 1.0).abs() < 0.05) {
                return;
            }
            let lin = fac.linearize(&vals);
            let g = tom!(lin.a.mat()).t().mv(&lin.b.iter().map(|x| *x as f64).collect::<Vec<_>>());
            let mut col = 0;
            for k in &f.keys {
                for j in 0..model[k].dim() {
                    let at = |h: f64| {
                        let mut e = vec![0.0; model[k].dim()];
                        e[j] = h;
                        let mut m2 = model.clone();
                        m2.insert(*k, model[k].oplus(&e));
                        fac.error(&to_values(&m2, &order)) as f64
                    };
                    let h = 1e-4;
                    let q = (8.0 * (at(h) - at(-h)) - (at(2.0 * h) - at(-2.0 * h))) / (12.0 * h);
                    let e0 = fac.error(&vals) as f64;
                    let sc = f.noise.inf(f.dim()).max_abs() * (1.0 + f.jac(&model).max_abs()).powi(2);
                    c.close("-A'b = gradient of error", -g[col + j], q, 1e-5 * (q.abs() + e0) + 1e-6 * sc);
                }
                col += model[k].dim();
            }
        });
    }
    // vectors: residual and Jacobian are known to rounding, so errors and weights of every magnitude can be judged relatively
    ctx.family("vector scales", 6000, 200000, |rng, c| {
        let kd = rng.int(5, 10) as usize;
        let zero = moderate(rng, kd);
        let zero = zero.compose(&zero.inverse());
        let n = zero.dim();
        let s = rng.logu(1e-12, 1e6);
        let at = |rng: &mut Rng| -> Vec<f64> { (0..n).map(|_| s * rng.normal()).collect() };
        let binary = rng.coin(0.5);
        let zv = if rng.coin(0.5) { vec![0.0; n] } else { at(rng) };
        let (x, y) = (at(rng), at(rng));
        let mut model = Model::new();
        let k0 = fresh(rng, &model);
        model.insert(k0, zero.oplus(&x));
        let mut keys = vec![k0];
        if binary {
            let k1 = fresh(rng, &model);
            model.insert(k1, zero.oplus(&y));
            keys.push(k1);
        }
        let sg = s * rng.logu(1e-4, 1e4);
        let noise = NoiseS::rand(rng, n, sg * 0.2, sg * 5.0);
        let mut ker = KerS::rand(rng);
        if ker.p.is_some() {
            ker.p = Some(rng.logu(1e-4, 1e4));
        }
        let f = FacS { z: zero.oplus(&zv), keys, noise, ker, ker_first: rng.coin(0.5), user: None };
        c.desc(format!("{} at {x:?} {y:?}", f.describe()));
        let r: Vec<f64> = (0..n).map(|i| if binary { x[i] + zv[i] - y[i] } else { zv[i] - x[i] }).collect();
        let mag: f64 = x.iter().chain(&y).chain(&zv).fold(0.0, |m, q| m.max(q.abs()));
        let inf = f.noise.inf(n);
        let d2 = la::dot(&r, &inf.mv(&r));
        c.sig((std::mem::discriminant(&f.noise), f.ker.name, (d2 + 1e-30).log10() as i32, s.log10() as i32));
        let infn = inf.max_abs() * n as f64;
        let d2t = 1e-9 * d2 + 1e-11 * infn * mag * mag;
        let order: Vec<u64> = model.keys().cloned().collect();
        let vals = to_values(&model, &order);
        let fac = f.build();
        let err = fac.error(&vals) as f64;
        let p = f.ker.p.unwrap_or(5.0);
        // losses are differences of numbers of the size of the parameter squared
        let floor = if ["none", "L2", "L1"].contains(&f.ker.name) { 0.0 } else { 1e-14 * (p * p).max(1.0) };
        let (lo, hi) = (f.ker.loss((d2 - d2t).max(0.0)), f.ker.loss(d2 + d2t));
        c.check(err >= lo * (1.0 - 1e-9) - floor && err <= hi * (1.0 + 1e-9) + floor, "error at every scale", || format!("error {err:e} not in [{lo:e},{hi:e}] (d2 {d2:e})"));
        let (w, wl, wh) = (f.ker.weight(d2), f.ker.weight((d2 - d2t).max(0.0)), f.ker.weight(d2 + d2t));
        if !w.is_finite() || !wl.is_finite() || d2 - d2t <= 0.0 || (w > 0.0 && w < 1e-100) {
            c.count("weight not judged", 1);
            return;
        }
        let Some(lin) = c.no_panic("linearize panicked", || fac.linearize(&vals)) else { return };
        let a = tom!(lin.a.mat());
        let b: Vec<f64> = lin.b.iter().map(|x| *x as f64).collect();
        if !c.check((a.r, a.c, b.len()) == (n, n * f.keys.len(), n), "linearised shapes", || format!("A {}x{} b {}", a.r, a.c, b.len())) {
            return;
        }
        let wt = (wl - wh).abs() + 1e-9 * w + if f.ker.name == "Tukey" { 1e-15 } else { 0.0 };
        let j = M::from_fn(n, n * f.keys.len(), |i, k| if k % n != i { 0.0 } else if binary && k < n { 1.0 } else { -1.0 });
        let ata = j.t().mul(&inf).mul(&j);
        c.close_m("A'A at every scale", &a.t().mul(&a), &ata.scale(w), wt * infn + 1e-9 * w * infn);
        let g = j.t().mul(&inf).mv(&r);
        c.close_v("A'b at every scale", &a.t().mv(&b), &la::scale(&g, -w), infn * mag * (wt + 1e-9 * w));
        c.close("b'b at every scale", la::dot(&b, &b), w * d2, w * d2t + wt * d2);
    });
    ctx.finish(
        "one evaluation = one factor (type, arity 1-6, noise kind, kernel and parameter, builder call order) evaluated and linearised at one point among bystander variables, judged by the weighted residual and Jacobian of an independent model; distinct = (distance, noise kind, kernel, magnitude) combinations",
        &["the square root of the information used for whitening is not unique: for full Gaussian noise only A'A, A'b and b'b are judged", "Jacobians within 0.03 rad of the log's cut locus and L1 weights for d^2 <= 1e-3 are not judged"],
    );
}
