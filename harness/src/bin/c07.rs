//! C07: prior and between residuals (and user residuals through the same traits): values, Jacobians, key order.
use factrs::containers::{Key, Values};
use factrs::linalg::*;
use factrs::residuals::*;
use factrs::variables::*;
use harness::ad::*;
use harness::custom::Aff1;
use harness::mixed::{rand_key, rand_values};
use harness::vars::*;
use harness::*;
use std::f64::consts::PI;
use std::fmt;

fn om(a: &M, b: &M) -> M {
    if cfg!(feature = "left") {
        a.mul(&b.inv().unwrap())
    } else {
        b.inv().unwrap().mul(a)
    }
}
/// distinct keys not used in vals
fn fresh_keys(rng: &mut Rng, vals: &Values, n: usize) -> Vec<u64> {
    let mut out: Vec<u64> = vec![];
    while out.len() < n {
        let k = rand_key(rng);
        if out.contains(&k) || vals.iter().any(|(q, _)| q.0 == k) {
            continue;
        }
        out.push(k);
    }
    out
}
fn other<V: VarX>(rng: &mut Rng, base: &M, pick: impl Fn(&M) -> V) -> V {
    // exactly / nearly equal to base, or unrelated
    match rng.below(4) {
        0 => pick(base),
        1 => {
            let s = rng.logu(1e-9, 0.5);
            let t = V::small_tangent(rng, s);
            pick(base).oplus(vx(&t).as_view())
        }
        _ => V::rand(rng).0,
    }
}

macro_rules! types {
    ($ctx:expr, $($V:ident),*) => { $( {
        $ctx.family(concat!("prior/", stringify!($V)), 1500, 50000, |rng, c| {
            let (z, b) = <$V as VarX>::rand(rng);
            let v: $V = other(rng, &z.mat(), |_| z.clone());
            c.desc(format!("z={:?} v={:?}", z.mat(), v.mat()));
            let nv = rng.below(4);
            let (mut vals, _) = rand_values(rng, nv);
            let k = fresh_keys(rng, &vals, 1)[0];
            vals.insert_unchecked(Key(k), v.clone());
            let res = PriorResidual::new(z.clone());
            let zm = z.mat();
            let want = <$V as VarX>::ref_log(&om(&zm, &v.mat()));
            let ang = la::norm(&want[..<$V as VarX>::ROT]);
            let mag = 1.0 + z.mag() + v.mag();
            let got = fv(&Residual::residual(&res, &vals, &[Key(k)]));
            c.sig((b, (ang * 4.0) as u32, nv));
            c.check(Residual::dim_in(&res) == <$V as Variable>::DIM && Residual::dim_out(&res) == <$V as Variable>::DIM, "prior dims", || "wrong".into());
            // whatever the branch of the log, exp(r) must be the relative element
            c.close_m("prior residual = z ominus v", &<$V as VarX>::ref_exp(&got), &om(&zm, &v.mat()), 2e-8 * mag);
            c.check(la::norm(&got[..<$V as VarX>::ROT]) <= PI + 1e-9, "prior residual principal", || format!("{got:?}"));
            if ang > PI - 0.03 { c.skip("cut locus"); return; }
            c.close_v("prior residual value", &got, &want, 2e-8 * mag * if ang > 3.0 { 30.0 } else { 1.0 });
            let wj = numjac(&[arg(&v)], &|m: &[M]| <$V as VarX>::ref_log(&om(&zm, &m[0])));
            let DiffResult { value, diff } = Residual::residual_jacobian(&res, &vals, &[Key(k)]);
            c.close_v("prior jacobian's value", &fv(&value), &got, 1e-12 * mag);
            c.close_m("prior jacobian", &fm(&diff), &wj, 3e-6 * (mag + mag * wj.max_abs()));
        });
        $ctx.family(concat!("prior-zero/", stringify!($V)), 500, 20000, |rng, c| {
            let (z, b) = <$V as VarX>::rand(rng);
            let res = PriorResidual::new(z.clone());
            c.desc(format!("z={:?}", z.mat()));
            c.sig(b);
            let mut vals = Values::new();
            vals.insert_unchecked(Key(3), z.clone());
            let r = fv(&Residual::residual(&res, &vals, &[Key(3)]));
            c.close_v("prior zero at v = z", &r, &vec![0.0; r.len()], 1e-12 * z.mag());
            // and nowhere else: any displacement shows in full
            let s = rng.logu(1e-6, 1.0);
            let u = rng.unit_vec(<$V as Variable>::DIM);
            let xi = la::scale(&u, s);
            vals.insert_unchecked(Key(3), z.oplus(vx(&xi).as_view()));
            let r = fv(&Residual::residual(&res, &vals, &[Key(3)]));
            c.check(la::norm(&r) > 0.3 * s, "prior nonzero away from z", || format!("displacement {s:e} residual {:e}", la::norm(&r)));
        });
        $ctx.family(concat!("between/", stringify!($V)), 1500, 50000, |rng, c| {
            let (z, b1) = <$V as VarX>::rand(rng);
            let (v1, b2) = <$V as VarX>::rand(rng);
            let zm = z.mat();
            let v2: $V = other(rng, &zm, |_| v1.compose(&z));
            c.desc(format!("z={:?} v1={:?} v2={:?}", zm, v1.mat(), v2.mat()));
            let nv = rng.below(4);
            let (mut vals, _) = rand_values(rng, nv);
            let k = fresh_keys(rng, &vals, 2);
            if rng.coin(0.5) {
                vals.insert_unchecked(Key(k[0]), v1.clone());
                vals.insert_unchecked(Key(k[1]), v2.clone());
            } else {
                vals.insert_unchecked(Key(k[1]), v2.clone());
                vals.insert_unchecked(Key(k[0]), v1.clone());
            }
            let keys = [Key(k[0]), Key(k[1])];
            let res = BetweenResidual::new(z.clone());
            let f = |m: &[M]| <$V as VarX>::ref_log(&om(&m[0].mul(&zm), &m[1]));
            let rel = om(&v1.mat().mul(&zm), &v2.mat());
            let want = f(&[v1.mat(), v2.mat()]);
            let ang = la::norm(&want[..<$V as VarX>::ROT]);
            let mag = 1.0 + z.mag() + v1.mag() + v2.mag();
            c.sig((b1, b2, (ang * 4.0) as u32, k[0] < k[1]));
            let got = fv(&Residual::residual(&res, &vals, &keys));
            c.check(Residual::dim_in(&res) == 2 * <$V as Variable>::DIM && Residual::dim_out(&res) == <$V as Variable>::DIM, "between dims", || "wrong".into());
            c.close_m("between residual = (v1 z) ominus v2", &<$V as VarX>::ref_exp(&got), &rel, 2e-8 * mag);
            if ang > PI - 0.03 { c.skip("cut locus"); return; }
            c.close_v("between residual value", &got, &want, 2e-8 * mag * if ang > 3.0 { 30.0 } else { 1.0 });
            let wj = numjac(&[arg(&v1), arg(&v2)], &f);
            let DiffResult { value, diff } = Residual::residual_jacobian(&res, &vals, &keys);
            c.close_v("between jacobian's value", &fv(&value), &got, 1e-12 * mag);
            c.close_m("between jacobian", &fm(&diff), &wj, 3e-6 * (mag + mag * wj.max_abs()));
            // swapped keys read the operands the other way round
            let sw = fv(&Residual::residual(&res, &vals, &[keys[1], keys[0]]));
            c.close_m("between with swapped keys", &<$V as VarX>::ref_exp(&sw), &om(&v2.mat().mul(&zm), &v1.mat()), 2e-8 * mag);
            // same variable on both sides
            let same = fv(&Residual::residual(&res, &vals, &[keys[0], keys[0]]));
            c.close_m("between of one variable with itself", &<$V as VarX>::ref_exp(&same), &om(&v1.mat().mul(&zm), &v1.mat()), 2e-8 * mag);
            // consistent triple
            vals.insert_unchecked(Key(k[1]), v1.compose(&z));
            let r = fv(&Residual::residual(&res, &vals, &keys));
            c.close_v("between zero when v2 = v1 z", &r, &vec![0.0; r.len()], 1e-11 * mag);
        });
    } )* };
}

// user residuals of every arity over mixed types, differentiated both ways
macro_rules! user_residual {
    ($name:ident, $tr:ident, $func:ident, $differ:ty, $tot:literal, $( ($x:ident: $A:ident = $V:ident) ),*) => {
        struct $name { co: Coef }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
        impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
        #[factrs::mark]
        impl $tr for $name {
            type DimIn = Const<$tot>;
            type DimOut = Const<3>;
            $( type $A = $V; )*
            type Differ = $differ;
            fn $func<T: Numeric>(&self, $( $x: $V<T> ),*) -> VectorX<T> {
                let mut g = vec![];
                $( $x.feats(&mut g); )*
                self.co.eval(&g)
            }
        }
        impl $name {
            fn run(ctx: &Ctx, tol: f64) {
                ctx.family(concat!("user/", stringify!($name)), 800, 20000, |rng, c| {
                    let mut sigs = vec![];
                    let mut ds = String::new();
                    $( let ($x, b) = <$V as VarX>::rand(rng); sigs.push(b); ds += &format!(" {:?}", $x.mat()); )*
                    let ps = [ $( arg(&$x) ),* ];
                    let scale = ps.iter().map(|p| p.m.max_abs()).fold(1.0, f64::max);
                    let mut g: Vec<f64> = vec![];
                    $( g.extend(feats_of::<$V>(&$x.mat())); )*
                    let co = Coef::new(rng, 3, g.len(), scale);
                    c.desc(ds);
                    c.sig(sigs);
                    let (val, jg) = co.reference(&g);
                    let mut dg = M::zeros(g.len(), $tot);
                    let (mut r, mut col, mut ai) = (0, 0, 0);
                    $( {
                        let _ = &$x;
                        let p = &ps[ai];
                        for j in 0..p.dim { for (q, v) in feats_of::<$V>(&dmat(p, j)).iter().enumerate() { dg[(r + q, col + j)] = *v; } }
                        r += feats_of::<$V>(&p.m).len();
                        col += p.dim;
                        ai += 1;
                    } )*
                    let _ = (r, col);
                    let (mut vals, _) = rand_values(rng, 2);
                    let keys: Vec<Key> = fresh_keys(rng, &vals, ai).into_iter().map(Key).collect();
                    let mut i = 0;
                    $( vals.insert_unchecked(keys[i], $x.clone()); i += 1; )*
                    let _ = i;
                    let want = jg.mul(&dg);
                    let mag = 1.0 + want.max_abs() * scale;
                    let res = $name { co };
                    c.check(Residual::dim_in(&res) == $tot && Residual::dim_out(&res) == 3, "user dims", || "wrong".into());
                    c.close_v("user residual value", &fv(&Residual::residual(&res, &vals, &keys)), &val, 1e-11 * mag);
                    let DiffResult { value, diff } = Residual::residual_jacobian(&res, &vals, &keys);
                    c.close_v("user jacobian's value", &fv(&value), &val, 1e-11 * mag);
                    c.close_m("user jacobian", &fm(&diff), &want, tol * mag);
                });
            }
        }
    };
}
user_residual!(U1, Residual1, residual1, ForwardProp<Const<6>>, 6, (a: V1 = SE3));
user_residual!(U2, Residual2, residual2, ForwardProp<Const<5>>, 5, (a: V1 = VectorVar2), (b: V2 = SO3));
user_residual!(U3, Residual3, residual3, ForwardProp<Const<6>>, 6, (a: V1 = SE2), (b: V2 = SO2), (e: V3 = Aff1));
user_residual!(U4, Residual4, residual4, ForwardProp<Const<11>>, 11, (a: V1 = VectorVar1), (b: V2 = SE3), (e: V3 = SO2), (g: V4 = VectorVar3));
user_residual!(U5, Residual5, residual5, ForwardProp<Const<13>>, 13, (a: V1 = Aff1), (b: V2 = VectorVar4), (e: V3 = SO3), (g: V4 = SE2), (h: V5 = VectorVar1));
user_residual!(U6, Residual6, residual6, ForwardProp<Const<15>>, 15, (a: V1 = VectorVar3), (b: V2 = SO2), (e: V3 = VectorVar1), (g: V4 = SE3), (h: V5 = SO2), (k: V6 = SO3));
user_residual!(N1, Residual1, residual1, NumericalDiff<5>, 3, (a: V1 = SE2));
user_residual!(N2, Residual2, residual2, NumericalDiff<5>, 9, (a: V1 = SO3), (b: V2 = SE3));
user_residual!(N3, Residual3, residual3, NumericalDiff<5>, 8, (a: V1 = VectorVar5), (b: V2 = SO2), (e: V3 = Aff1));
user_residual!(N6, Residual6, residual6, NumericalDiff<5>, 15, (a: V1 = VectorVar3), (b: V2 = SO2), (e: V3 = VectorVar1), (g: V4 = SE3), (h: V5 = SO2), (k: V6 = SO3));

fn main() {
    let ctx = Ctx::from_env("C07");
    types!(ctx, SO2, SE2, SO3, SE3, ImuBias, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, Aff1);
    U1::run(&ctx, 1e-10);
    U2::run(&ctx, 1e-10);
    U3::run(&ctx, 1e-10);
    U4::run(&ctx, 1e-10);
    U5::run(&ctx, 1e-10);
    U6::run(&ctx, 1e-10);
    N1::run(&ctx, 2e-8);
    N2::run(&ctx, 2e-8);
    N3::run(&ctx, 2e-8);
    N6::run(&ctx, 2e-8);
    ctx.finish(
        "one evaluation = one residual at one point inside a container with unrelated variables: value against the matrix-level definition, Jacobian against 4th-order differences (exact derivatives for user residuals), key order swapped and repeated; distinct = regimes of operands and relative angle",
        &["Jacobians within 0.03 rad of the log's cut locus are skipped", "values granted the small-angle approximation error 2e-8*scale, Jacobians 3e-6*scale"],
    );
}
