//! C03: oplus/ominus follow the documented convention, undo each other, and container-wide updates apply it per variable.
use factrs::containers::*;
use factrs::linear::LinearValues;
use factrs::variables::*;
use harness::mixed::*;
use harness::vars::*;
use harness::*;
use std::f64::consts::PI;

const EPS: f64 = factrs::dtype::EPSILON as f64 * 4.0;
const LEFT: bool = cfg!(feature = "left");

fn pm<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("plusminus/{}", V::NAME), 8000, 300000, |rng, c| {
        let (x, bx) = V::rand(rng);
        let (xi, b) = V::rand_tangent(rng);
        c.desc(format!("x={:?} xi={xi:?}", x.mat()));
        c.sig((bx, b));
        let mag = x.mag() + la::norm(&xi) + 1.0;
        let tol = if V::ROT == 0 { 1e-13 * mag } else { 4e-9 * mag };
        let e = V::ref_exp(&xi);
        let v = vx(&xi);
        let r = x.mat().mul(&e);
        let l = e.mul(&x.mat());
        c.close_m("oplus_right = x exp(xi)", &x.oplus_right(v.as_view()).mat(), &r, tol);
        c.close_m("oplus_left = exp(xi) x", &x.oplus_left(v.as_view()).mat(), &l, tol);
        let p = x.oplus(v.as_view());
        c.close_m("oplus follows the selected convention", &p.mat(), if LEFT { &l } else { &r }, tol);
        // object-safe in-place form
        let mut bx: Box<dyn VariableSafe> = Box::new(x.clone());
        bx.oplus_mut(v.as_view());
        match bx.downcast_ref::<V>() {
            Some(q) => {
                c.close_m("oplus_mut (boxed) = oplus", &q.mat(), &p.mat(), 1e-13 * mag);
            }
            None => c.fail("oplus_mut (boxed) keeps the type", "downcast failed"),
        }
        // (x + xi) - x = xi
        let ang = la::norm(&xi[..V::ROT]);
        if ang < PI - 1e-6 {
            c.close_v("(x oplus xi) ominus x = xi", &fv(&p.ominus(&x)), &xi, 4.0 * tol);
            c.close_v("right", &fv(&x.oplus_right(v.as_view()).ominus_right(&x)), &xi, 4.0 * tol);
            c.close_v("left", &fv(&x.oplus_left(v.as_view()).ominus_left(&x)), &xi, 4.0 * tol);
        }
    });
    ctx.family(&format!("minus/{}", V::NAME), 8000, 300000, |rng, c| {
        let (x, bx) = V::rand(rng);
        let (y, by) = V::rand(rng);
        c.desc(format!("x={:?} y={:?}", x.mat(), y.mat()));
        c.sig((bx, by));
        let mag = x.mag() + y.mag();
        let tol = if V::ROT == 0 { 1e-13 * mag } else { 8e-9 * mag };
        let (xm, ym) = (x.mat(), y.mat());
        let yi = ym.inv().unwrap();
        for (name, got, m) in [
            ("ominus_right = log(y^-1 x)", fv(&x.ominus_right(&y)), yi.mul(&xm)),
            ("ominus_left = log(x y^-1)", fv(&x.ominus_left(&y)), xm.mul(&yi)),
            ("ominus follows the selected convention", fv(&x.ominus(&y)), if LEFT { xm.mul(&yi) } else { yi.mul(&xm) }),
        ] {
            c.close_m(name, &V::ref_exp(&got), &m, tol);
            c.check(la::norm(&got[..V::ROT]) <= PI + 1e-9, name, || "not principal".into());
        }
        // y + (x - y) = x
        let dlt = x.ominus(&y);
        c.close_m("y oplus (x ominus y) = x", &y.oplus(dlt.as_view()).mat(), &xm, 2.0 * tol);
        c.close_v("x ominus x = 0", &fv(&x.ominus(&x)), &vec![0.0; V::DIM], 1e-9 * mag);
    });
}

fn main() {
    let ctx = Ctx::from_env("C03");
    for_all_vars!(pm(&ctx));
    // Values::oplus_mut over mixed containers
    let container = |rng: &mut Rng, c: &mut Case, n: usize| {
        let (mut vals, model) = rand_values(rng, n);
        let order = ValuesOrder::from_values(&vals);
        let delta: Vec<f64> = {
            let s = if rng.coin(0.5) { 0.3 } else { rng.logu(1e-11, 0.3) };
            (0..order.dim()).map(|_| rng.normal() * s).collect()
        };
        c.sig((n, model.iter().take(14).map(|(_, v)| v.kind()).collect::<Vec<_>>()));
        c.desc(format!("{} variables: {:?}", n, model.iter().take(14).map(|(k, v)| (*k, v.kind())).collect::<Vec<_>>()));
        // delta may cover only part of the container, in a layout of its own
        let mut keys: Vec<u64> = model.iter().map(|(k, _)| *k).collect();
        rng.shuffle(&mut keys);
        let keep = if rng.coin(0.5) { keys.len() } else { rng.int(0, keys.len()) };
        let mut map: ahash::HashMap<Key, Idx> = Default::default();
        let mut at = 0;
        for k in &keys[..keep] {
            let dim = model.iter().find(|(q, _)| q == k).unwrap().1.dim();
            map.insert(Key(*k), Idx { idx: at, dim });
            at += dim;
        }
        // an update may also name variables the container does not hold (they were removed, or live elsewhere)
        let mut delta = delta;
        delta.truncate(at);
        if rng.coin(0.4) {
            for _ in 0..rng.int(1, 8) {
                let k = rng.u64();
                if !keys.contains(&k) && !map.contains_key(&Key(k)) {
                    let dim = rng.int(1, 6);
                    map.insert(Key(k), Idx { idx: at, dim });
                    at += dim;
                    delta.extend((0..dim).map(|_| rng.normal()));
                    c.count("updates for absent variables", 1);
                }
            }
        }
        let sub = ValuesOrder::new(map.clone());
        let dx = LinearValues::from_order_and_vector(sub, vx(&delta[..at]));
        vals.oplus_mut(&dx);
        c.check(vals.len() == model.len(), "no variable appears or disappears", || format!("{} {}", vals.len(), model.len()));
        for (k, v) in &model {
            let (want, own) = match map.get(&Key(*k)) {
                Some(ix) => (v.ref_oplus(&delta[ix.idx..ix.idx + ix.dim]), v.oplus(&delta[ix.idx..ix.idx + ix.dim]).mat()),
                None => (v.mat(), v.mat()),
            };
            match v.read_same(&vals, *k) {
                Some(m) => {
                    c.close_m("each variable moves by its own block", &m, &want, 1e-8 * (1.0 + want.max_abs()));
                    c.close_m("a variable moves in a container as on its own", &m, &own, 1e-13 * (1.0 + own.max_abs()));
                }
                None => c.fail("variable keeps key and type", format!("key {k} kind {}", v.kind())),
            }
            c.event();
        }
    };
    ctx.family("values", 1500, 40000, |rng, c| {
        let n = rng.int(0, 14);
        container(rng, c, n)
    });
    ctx.family("values, many variables", 6, 80, |rng, c| {
        let n = rng.int(500, 4000);
        container(rng, c, n)
    });
    // vectors of every scale and width: the update is the plain sum, to rounding
    ctx.family("values of vectors", 3000, 60000, |rng, c| {
        let n = rng.int(1, 10) as u64;
        let mut vals = Values::new();
        let mut map: ahash::HashMap<Key, Idx> = Default::default();
        let (mut at, mut delta) = (0, vec![]);
        let mut sig = vec![];
        for k in 0..n {
            let s = rng.logu(1e-30, 1e6);
            let dim = if rng.coin(0.5) {
                insert_wide(rng, &mut vals, k)
            } else {
                vals.insert_unchecked(Key(k), VectorVar2::new(d(rng.normal() * s * rng.logu(1e-3, 1.0)), d(rng.normal() * s)));
                2
            };
            if rng.coin(0.85) {
                map.insert(Key(k), Idx { idx: at, dim });
                at += dim;
                delta.extend((0..dim).map(|_| if rng.coin(0.1) { 0.0 } else if rng.coin(0.002) { f64::NAN } else { rng.normal() * s }));
            }
            sig.push((dim, s.log10() as i32));
        }
        c.sig(sig);
        c.desc(format!("{n} vectors, delta {delta:?}"));
        let read = |v: &Values, k: u64| v.get_unchecked::<_, VectorVar2>(Key(k)).map(|x| vec![x[0] as f64, x[1] as f64]).or_else(|| read_wide(v, k));
        let before: Vec<_> = (0..n).map(|k| read(&vals, k).unwrap()).collect();
        let dx = LinearValues::from_order_and_vector(ValuesOrder::new(map.clone()), vx(&delta));
        if c.no_panic("updating a container panicked", || vals.oplus_mut(&dx)).is_none() {
            return;
        }
        for k in 0..n {
            c.event();
            let old = &before[k as usize];
            let Some(new) = read(&vals, k) else {
                c.fail("variable keeps key and type", format!("key {k}"));
                continue;
            };
            for i in 0..old.len() {
                let add = map.get(&Key(k)).map_or(0.0, |ix| d(delta[ix.idx + i]) as f64);
                let want = old[i] + add;
                let tol = EPS * (old[i].abs() + add.abs());
                c.check((new[i] - want).abs() <= tol || (want.is_nan() && new[i].is_nan()), "a vector moves by exactly its block", || format!("key {k} entry {i}: {} + {add} became {}", old[i], new[i]));
            }
        }
    });
    ctx.finish(
        "pairs (x, xi) and (x, y) over every variable type with hostile angles, both quaternion signs; containers of up to 14 mixed variables updated by partial deltas in arbitrary layout; oracle: products of reference matrix exponentials; distinct by regime / type multiset",
        &["left convention is exercised by C26's `left` build of this same program"],
    );
}
