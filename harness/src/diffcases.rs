// Shared by c05 (forward mode) and c06 (numerical differentiation).

type Vec7<T = dtype> = VectorVar<7, T>;
type Vec9<T = dtype> = VectorVar<9, T>;

/// One arity and type list. `$mode` selects the differentiator; `$tot` is the total tangent dimension.
macro_rules! arity_case {
    ($ctx:expr, $mode:ident, $num:literal, $tot:literal, $q:expr, $( ($x:ident: $V:ident) ),*) => { paste::paste! {
        $ctx.family(concat!("features/", $num $(, "-", stringify!($V))*), $q, $q * 20, |rng, c| {
            let mut sigs = vec![];
            let mut ds = String::new();
            $( let ($x, b) = <$V as VarX>::rand(rng); sigs.push(b); ds += &format!(" {}={:?}", stringify!($x), $x.mat()); )*
            let ps = [ $( arg(&$x) ),* ];
            let scale = ps.iter().map(|p| p.m.max_abs()).fold(1.0, f64::max);
            let mut g: Vec<f64> = vec![];
            $( g.extend(feats_of::<$V>(&$x.mat())); )*
            let k = rng.int(1, 5) as usize;
            let co = Coef::new(rng, k, g.len(), scale);
            c.desc(format!("{ds} A={:?} B={:?} C={:?}", co.a, co.b, co.c));
            c.sig(sigs);
            let (val, jg) = co.reference(&g);
            let mut dg = M::zeros(g.len(), $tot);
            let (mut r, mut col, mut ai) = (0, 0, 0);
            $( {
                let _ = &$x;
                let p = &ps[ai];
                for j in 0..p.dim {
                    let f = feats_of::<$V>(&dmat(p, j));
                    for (q, v) in f.iter().enumerate() { dg[(r + q, col + j)] = *v; }
                }
                r += feats_of::<$V>(&p.m).len();
                col += p.dim;
                ai += 1;
            } )*
            let _ = (r, ai);
            assert_eq!(col, $tot);
            let want = jg.mul(&dg);
            c.count("jacobian entries", (want.r * want.c) as u64);
            arity_case!(@run $mode, c, co, rng, val, want, scale, $num, $tot, $( ($x: $V) ),*);
        });
    } };
    (@run forward, $c:ident, $co:ident, $rng:ident, $val:ident, $want:ident, $scale:ident, $num:literal, $tot:literal, $( ($x:ident: $V:ident) ),*) => { paste::paste! {
        let _ = &$rng;
        let f = |$( $x: $V<DualVector<Const<$tot>>> ),*| -> VectorX<DualVector<Const<$tot>>> {
            let mut g = vec![];
            $( $x.feats(&mut g); )*
            $co.eval(&g)
        };
        let mag = 1.0 + $want.max_abs() * $scale;
        let DiffResult { value, diff } = ForwardProp::<Const<$tot>>::[<jacobian_ $num>](f, $( &$x ),*);
        $c.close_v("forward value", &fv(&value), &$val, 1e-11 * mag);
        $c.close_m("forward jacobian", &fm(&diff), &$want, 1e-10 * mag);
        let DiffResult { value, diff } = ForwardProp::<Const<$tot>>::[<gradient_ $num>](|$( $x: $V<DualVector<Const<$tot>>> ),*| f($( $x ),*)[0], $( &$x ),*);
        $c.close("forward gradient value", value as f64, $val[0], 1e-11 * mag);
        $c.close_v("forward gradient", &fv(&diff), &$want.block(0, 0, 1, $tot).d, 1e-10 * mag);
    } };
    (@run numerical, $c:ident, $co:ident, $rng:ident, $val:ident, $want:ident, $scale:ident, $num:literal, $tot:literal, $( ($x:ident: $V:ident) ),*) => { paste::paste! {
        let f = |$( $x: $V ),*| -> VectorX {
            let mut g: Vec<dtype> = vec![];
            $( $x.feats(&mut g); )*
            $co.eval(&g)
        };
        let mag = 1.0 + $want.max_abs() * $scale;
        let (res, gr, h): (DiffResult<VectorX, MatrixX>, DiffResult<dtype, VectorX>, f64) = match $rng.below(4) {
            0 => (NumericalDiff::<3>::[<jacobian_ $num>](&f, $( &$x ),*), NumericalDiff::<3>::[<gradient_ $num>](|$( $x: $V ),*| f($( $x ),*)[0], $( &$x ),*), 1e-3),
            1 => (NumericalDiff::<4>::[<jacobian_ $num>](&f, $( &$x ),*), NumericalDiff::<4>::[<gradient_ $num>](|$( $x: $V ),*| f($( $x ),*)[0], $( &$x ),*), 1e-4),
            2 => (NumericalDiff::<5>::[<jacobian_ $num>](&f, $( &$x ),*), NumericalDiff::<5>::[<gradient_ $num>](|$( $x: $V ),*| f($( $x ),*)[0], $( &$x ),*), 1e-5),
            _ => (NumericalDiff::<6>::[<jacobian_ $num>](&f, $( &$x ),*), NumericalDiff::<6>::[<gradient_ $num>](|$( $x: $V ),*| f($( $x ),*)[0], $( &$x ),*), 1e-6),
        };
        let tol = num_tol(h) * mag;
        $c.count(&format!("step {h:e}"), 1);
        $c.close_v("numerical value (unperturbed)", &fv(&res.value), &$val, 1e-12 * mag);
        $c.close_m("numerical jacobian", &fm(&res.diff), &$want, tol);
        $c.close("numerical gradient value", gr.value as f64, $val[0], 1e-12 * mag);
        $c.close_v("numerical gradient", &fv(&gr.diff), &$want.block(0, 0, 1, $tot).d, tol);
    } };
}

macro_rules! feature_functions {
    ($ctx:expr, $mode:ident) => {
        arity_case!($ctx, $mode, 1, 1, 1500, (x: SO2));
        arity_case!($ctx, $mode, 1, 3, 1500, (x: SE2));
        arity_case!($ctx, $mode, 1, 3, 1500, (x: SO3));
        arity_case!($ctx, $mode, 1, 6, 1500, (x: SE3));
        arity_case!($ctx, $mode, 1, 6, 800, (x: ImuBias));
        arity_case!($ctx, $mode, 1, 1, 400, (x: VectorVar1));
        arity_case!($ctx, $mode, 1, 2, 400, (x: VectorVar2));
        arity_case!($ctx, $mode, 1, 3, 400, (x: VectorVar3));
        arity_case!($ctx, $mode, 1, 4, 400, (x: VectorVar4));
        arity_case!($ctx, $mode, 1, 5, 400, (x: VectorVar5));
        arity_case!($ctx, $mode, 1, 6, 400, (x: VectorVar6));
        arity_case!($ctx, $mode, 1, 2, 800, (x: Aff1));
        arity_case!($ctx, $mode, 2, 6, 800, (x: SO3), (y: SO3));
        arity_case!($ctx, $mode, 2, 12, 800, (x: SE3), (y: SE3));
        arity_case!($ctx, $mode, 2, 4, 800, (x: SE2), (y: SO2));
        arity_case!($ctx, $mode, 2, 9, 800, (x: VectorVar3), (y: SE3));
        arity_case!($ctx, $mode, 2, 5, 800, (x: Aff1), (y: SO3));
        arity_case!($ctx, $mode, 3, 10, 600, (x: SE3), (y: VectorVar3), (z: SO2));
        arity_case!($ctx, $mode, 3, 9, 600, (x: VectorVar1), (y: SE2), (z: VectorVar5));
        arity_case!($ctx, $mode, 3, 11, 600, (x: SO3), (y: Aff1), (z: ImuBias));
        arity_case!($ctx, $mode, 4, 12, 500, (x: SO2), (y: SO3), (z: VectorVar2), (w: VectorVar6));
        arity_case!($ctx, $mode, 4, 12, 500, (x: SE2), (y: VectorVar4), (z: Aff1), (w: SO3));
        arity_case!($ctx, $mode, 5, 13, 400, (x: VectorVar1), (y: SE3), (z: SO2), (w: VectorVar2), (v: SE2));
        arity_case!($ctx, $mode, 5, 13, 400, (x: Aff1), (y: Aff1), (z: SO3), (w: VectorVar3), (v: SO3));
        arity_case!($ctx, $mode, 6, 12, 400, (x: VectorVar2), (y: SO2), (z: SO3), (w: VectorVar1), (v: SE2), (u: Aff1));
        arity_case!($ctx, $mode, 6, 30, 150, (x: SE3), (y: VectorVar3), (z: ImuBias), (w: SE3), (v: VectorVar3), (u: ImuBias));
        // wide vectors and user-defined variables far along the argument list
        arity_case!($ctx, $mode, 1, 7, 300, (x: Vec7));
        arity_case!($ctx, $mode, 1, 9, 300, (x: Vec9));
        arity_case!($ctx, $mode, 2, 10, 300, (x: SO3), (y: Vec7));
        arity_case!($ctx, $mode, 3, 17, 200, (x: SE3), (y: Vec9), (z: Aff1));
        arity_case!($ctx, $mode, 5, 25, 150, (x: ImuBias), (y: SE3), (z: Vec9), (w: SE2), (v: SO2));
        arity_case!($ctx, $mode, 6, 33, 100, (x: SE3), (y: SE3), (z: ImuBias), (w: Vec7), (v: SE3), (u: Aff1));
        // one type all along the argument list, and every type after the widest ones
        arity_case!($ctx, $mode, 6, 36, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3), (v: SE3), (u: SE3));
        arity_case!($ctx, $mode, 5, 30, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3), (v: SE3));
        arity_case!($ctx, $mode, 4, 24, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3));
        arity_case!($ctx, $mode, 3, 18, 80, (x: SE3), (y: SE3), (z: SE3));
        arity_case!($ctx, $mode, 6, 36, 40, (x: ImuBias), (y: ImuBias), (z: ImuBias), (w: ImuBias), (v: ImuBias), (u: ImuBias));
        arity_case!($ctx, $mode, 6, 36, 40, (x: VectorVar6), (y: VectorVar6), (z: VectorVar6), (w: VectorVar6), (v: VectorVar6), (u: VectorVar6));
        arity_case!($ctx, $mode, 6, 18, 80, (x: SO3), (y: SO3), (z: SO3), (w: SO3), (v: SO3), (u: SO3));
        arity_case!($ctx, $mode, 6, 18, 80, (x: SE2), (y: SE2), (z: SE2), (w: SE2), (v: SE2), (u: SE2));
        arity_case!($ctx, $mode, 6, 6, 80, (x: SO2), (y: SO2), (z: SO2), (w: SO2), (v: SO2), (u: SO2));
        arity_case!($ctx, $mode, 6, 12, 80, (x: Aff1), (y: Aff1), (z: Aff1), (w: Aff1), (v: Aff1), (u: Aff1));
        arity_case!($ctx, $mode, 6, 33, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3), (v: SE3), (u: SO3));
        arity_case!($ctx, $mode, 6, 33, 40, (x: ImuBias), (y: ImuBias), (z: ImuBias), (w: ImuBias), (v: ImuBias), (u: SE2));
        arity_case!($ctx, $mode, 6, 31, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3), (v: SE3), (u: SO2));
        arity_case!($ctx, $mode, 6, 28, 40, (x: SE3), (y: SE3), (z: SE3), (w: SE3), (v: SE2), (u: SO2));
        arity_case!($ctx, $mode, 6, 21, 40, (x: VectorVar6), (y: VectorVar5), (z: VectorVar4), (w: VectorVar3), (v: VectorVar2), (u: VectorVar1));
        arity_case!($ctx, $mode, 6, 21, 40, (x: VectorVar1), (y: VectorVar2), (z: VectorVar3), (w: VectorVar4), (v: VectorVar5), (u: VectorVar6));
        arity_case!($ctx, $mode, 5, 15, 80, (x: SO3), (y: SO3), (z: SO3), (w: SO3), (v: SO3));
        arity_case!($ctx, $mode, 4, 12, 80, (x: SE2), (y: SE2), (z: SE2), (w: SE2));
        arity_case!($ctx, $mode, 4, 12, 80, (x: SO3), (y: SO3), (z: SO3), (w: SO3));
        arity_case!($ctx, $mode, 3, 6, 80, (x: Aff1), (y: Aff1), (z: Aff1));
        arity_case!($ctx, $mode, 6, 33, 40, (x: SE3), (y: ImuBias), (z: VectorVar6), (w: VectorVar5), (v: VectorVar4), (u: SE3));
    };
}

/// Tolerance of a library function at a point: (hard skip, tolerance relative to mag, loosening for small-angle seams / h)
fn log_guard(out: &[f64], rot: usize) -> Option<bool> {
    let a = la::norm(&out[..rot]);
    if a > std::f64::consts::PI - 0.03 {
        None
    } else {
        Some(a < 0.012)
    }
}

/// One function built from library operations, generic over the number type, with an independent matrix-level reference.
macro_rules! lib_case {
    ($ctx:expr, $mode:ident, $name:expr, $q:expr, $num:literal, $tot:expr, log_rot=$rot:expr, $( ($x:ident: $V:ident) ),* => $body:block, $r:expr) => { paste::paste! {
        {
        fn f<T: Numeric>($( $x: $V<T> ),*) -> VectorX<T> $body
        const TOT: usize = $tot;
        $ctx.family(&format!("library/{}{}", $name, concat!($("-", stringify!($V)),*)), $q, $q * 25, |rng, c| {
            let mut sigs = vec![];
            let mut ds = String::new();
            $( let ($x, b) = rand_arg::<$V>(rng); sigs.push(b); ds += &format!(" {}={:?}", stringify!($x), $x.mat()); )*
            // half of the two-argument cases have (nearly) equal arguments
            lib_case!(@near rng, $( ($x: $V) ),*);
            let ps = [ $( arg(&$x) ),* ];
            let reff: &dyn Fn(&[M]) -> Vec<f64> = &$r;
            c.desc(ds);
            let ms: Vec<M> = ps.iter().map(|p| p.m.clone()).collect();
            let val = reff(&ms);
            let mut seam = false;
            if $rot > 0 {
                match log_guard(&val, $rot) {
                    None => { c.skip("cut locus"); return; }
                    Some(s) => seam = s,
                }
            }
            let scale = ps.iter().map(|p| p.m.max_abs()).fold(1.0, f64::max);
            c.sig((sigs, seam));
            let want = numjac(&ps, reff);
            c.count("jacobian entries", (want.r * want.c) as u64);
            let mag = 1.0 + scale * want.max_abs().max(1.0);
            lib_case!(@run $mode, c, rng, val, want, mag, seam, $num, TOT, $( ($x: $V) ),*);
        });
        }
    } };
    (@near $rng:ident, ($x:ident: $V:ident)) => {};
    (@near $rng:ident, ($x:ident: SE3), ($y:ident: SE3)) => { let $y = near(&$x, $y, $rng); };
    (@near $rng:ident, ($x:ident: SE2), ($y:ident: SE2)) => { let $y = near(&$x, $y, $rng); };
    (@near $rng:ident, ($x:ident: SO3), ($y:ident: SO3)) => { let $y = near(&$x, $y, $rng); };
    (@near $rng:ident, ($x:ident: SO2), ($y:ident: SO2)) => { let $y = near(&$x, $y, $rng); };
    (@near $rng:ident, ($x:ident: Aff1), ($y:ident: Aff1)) => { let $y = near(&$x, $y, $rng); };
    (@near $rng:ident, $($t:tt)*) => {};
    (@run forward, $c:ident, $rng:ident, $val:ident, $want:ident, $mag:ident, $seam:ident, $num:literal, $TOT:ident, $( ($x:ident: $V:ident) ),*) => { paste::paste! {
        let _ = (&$rng, $seam);
        let DiffResult { value, diff } = ForwardProp::<Const<$TOT>>::[<jacobian_ $num>](f, $( &$x ),*);
        $c.close_v("value", &fv(&value), &$val, 2e-8 * $mag);
        let plain = f::<dtype>($( $x.clone() ),*);
        $c.close_v("value = plain value", &fv(&value), &fv(&plain), 1e-12 * $mag);
        $c.close_m("forward jacobian", &fm(&diff), &$want, 3e-6 * $mag);
    } };
    (@run numerical, $c:ident, $rng:ident, $val:ident, $want:ident, $mag:ident, $seam:ident, $num:literal, $TOT:ident, $( ($x:ident: $V:ident) ),*) => { paste::paste! {
        let (DiffResult { value, diff }, h): (DiffResult<VectorX, MatrixX>, f64) = match $rng.below(4) {
            0 => (NumericalDiff::<3>::[<jacobian_ $num>](f::<dtype>, $( &$x ),*), 1e-3),
            1 => (NumericalDiff::<4>::[<jacobian_ $num>](f::<dtype>, $( &$x ),*), 1e-4),
            2 => (NumericalDiff::<5>::[<jacobian_ $num>](f::<dtype>, $( &$x ),*), 1e-5),
            _ => (NumericalDiff::<6>::[<jacobian_ $num>](f::<dtype>, $( &$x ),*), 1e-6),
        };
        let _ = $TOT;
        $c.count(&format!("step {h:e}"), 1);
        $c.close_v("value", &fv(&value), &$val, 2e-8 * $mag);
        $c.close_v("value = plain value", &fv(&value), &fv(&f::<dtype>($( $x.clone() ),*)), 1e-12 * $mag);
        let tol = num_tol(h) + 3e-6 + if $seam { 4e-9 / h } else { 0.0 };
        $c.close_m("numerical jacobian", &fm(&diff), &$want, tol * $mag);
    } };
}

fn rand_arg<V: VarX>(rng: &mut Rng) -> (V, u32) {
    let (v, b) = V::rand(rng);
    (v, b)
}
#[allow(dead_code)]
fn near<V: VarX>(x: &V, y: V, rng: &mut Rng) -> V {
    match rng.below(4) {
        0 => x.clone(),
        1 => {
            let s = rng.logu(1e-9, 0.3);
            let t = V::small_tangent(rng, s);
            x.oplus(vx(&t).as_view())
        }
        _ => y,
    }
}
#[allow(dead_code)]
fn vec_of(m: &M) -> Vec<f64> {
    (0..m.r - 1).map(|i| m[(i, m.c - 1)]).collect()
}

macro_rules! library_type {
    ($ctx:expr, $mode:ident, $V:ident, $n:literal, $rot:literal, $VN:ident, $q:expr) => { library_type!($ctx, $mode, $V, $n, { 2 * $n }, $rot, $VN, $q) };
    ($ctx:expr, $mode:ident, $V:ident, $n:literal, $n2:expr, $rot:literal, $VN:ident, $q:expr) => {
        lib_case!($ctx, $mode, "log", $q, 1, $n, log_rot=$rot, (x: $V) => { x.log() }, |m: &[M]| <$V as VarX>::ref_log(&m[0]));
        lib_case!($ctx, $mode, "log-inverse", $q, 1, $n, log_rot=$rot, (x: $V) => { x.inverse().log() }, |m: &[M]| <$V as VarX>::ref_log(&m[0].inv().unwrap()));
        lib_case!($ctx, $mode, "ominus", $q, 2, $n2, log_rot=$rot, (x: $V), (y: $V) => { x.ominus(&y) }, |m: &[M]| <$V as VarX>::ref_log(&if cfg!(feature = "left") { m[0].mul(&m[1].inv().unwrap()) } else { m[1].inv().unwrap().mul(&m[0]) }));
        lib_case!($ctx, $mode, "ominus_left", $q, 2, $n2, log_rot=$rot, (x: $V), (y: $V) => { x.ominus_left(&y) }, |m: &[M]| <$V as VarX>::ref_log(&m[0].mul(&m[1].inv().unwrap())));
        lib_case!($ctx, $mode, "ominus_right", $q, 2, $n2, log_rot=$rot, (x: $V), (y: $V) => { x.ominus_right(&y) }, |m: &[M]| <$V as VarX>::ref_log(&m[1].inv().unwrap().mul(&m[0])));
        lib_case!($ctx, $mode, "compose", $q, 2, $n2, log_rot=0, (x: $V), (y: $V) => { let mut g = vec![]; x.compose(&y).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| feats_of::<$V>(&m[0].mul(&m[1])));
        lib_case!($ctx, $mode, "minus", $q, 2, $n2, log_rot=0, (x: $V), (y: $V) => { let mut g = vec![]; x.minus(&y).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| feats_of::<$V>(&m[1].inv().unwrap().mul(&m[0])));
        lib_case!($ctx, $mode, concat!("exp-to-", stringify!($V)), $q, 1, $n, log_rot=0, (x: $VN) => { let v = VectorX::from_iterator(x.0.len(), x.0.iter().cloned()); let mut g = vec![]; $V::<T>::exp(v.as_view()).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| feats_of::<$V>(&<$V as VarX>::ref_exp(&vec_of(&m[0]))));
        lib_case!($ctx, $mode, concat!("oplus-of-", stringify!($V)), $q, 2, $n2, log_rot=0, (x: $V), (y: $VN) => { let v = VectorX::from_iterator(y.0.len(), y.0.iter().cloned()); let mut g = vec![]; x.oplus(v.as_view()).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| feats_of::<$V>(&move_by(&m[0], &<$V as VarX>::ref_exp(&vec_of(&m[1])))));
    };
}
macro_rules! library_lie {
    ($ctx:expr, $mode:ident, $V:ident, $n:literal, $np:literal, $P:ident, $pd:literal, $q:expr) => {
        lib_case!($ctx, $mode, "apply", $q, 2, $np, log_rot=0, (x: $V), (y: $P) => { let r = x.apply(y.0.as_view()); VectorX::from_iterator($pd, r.iter().cloned()) }, |m: &[M]| { let mut p = vec_of(&m[1]); if m[0].r > $pd { p.push(1.0); } m[0].mv(&p)[..$pd].to_vec() });
        lib_case!($ctx, $mode, "matrix-roundtrip", $q, 1, $n, log_rot=0, (x: $V) => { let m = x.to_matrix(); let y = $V::<T>::from_matrix(m.as_view()); let mut g = vec![]; y.feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| feats_of::<$V>(&m[0]));
        lib_case!($ctx, $mode, "to_matrix", $q, 1, $n, log_rot=0, (x: $V) => { let m = x.to_matrix().transpose(); VectorX::from_iterator(m.len(), m.iter().cloned()) }, |m: &[M]| m[0].d.clone());
        lib_case!($ctx, $mode, "adjoint-column", $q, 1, $n, log_rot=0, (x: $V) => { let m = x.adjoint(); let k = $n - 1; VectorX::from_iterator($n, (0..$n).map(|i| m[(i, 0)] + m[(i, k)] * T::from(d(2.0)))) }, |m: &[M]| {
            // Ad xi from X hat(xi) X^-1 for xi = e_0 + 2 e_{n-1}
            let mut xi = vec![0.0; $n];
            xi[0] += 1.0;
            xi[$n - 1] += 2.0;
            let h = m[0].mul(&<$V as VarX>::hatm(&xi)).mul(&m[0].inv().unwrap());
            match $n { 1 => vec![h[(1, 0)]], 3 if h.r == 3 && <$V as VarX>::ROT == 1 => vec![h[(1, 0)], h[(0, 2)], h[(1, 2)]], 3 => vec![h[(2, 1)], h[(0, 2)], h[(1, 0)]], _ => vec![h[(2, 1)], h[(0, 2)], h[(1, 0)], h[(0, 3)], h[(1, 3)], h[(2, 3)]] }
        });
    };
}
/// sum_k (-hat w)^k / (k+1)!, by the exponential of an augmented matrix
fn ref_dexp(w: &[f64]) -> Vec<f64> {
    let mut a = M::zeros(6, 6);
    let h = <SO3 as VarX>::hatm(w);
    for i in 0..3 {
        for j in 0..3 {
            a[(i, j)] = -h[(i, j)];
        }
        a[(i, i + 3)] = 1.0;
    }
    a.expm().block(0, 3, 3, 3).d
}
/// constructors and accessors a user's residual is written with
macro_rules! library_accessors {
    ($ctx:expr, $mode:ident) => {
        lib_case!($ctx, $mode, "to_theta", 800, 1, 1, log_rot=1, (x: SO2) => { vectorx![x.to_theta()] }, |m: &[M]| vec![m[0][(1, 0)].atan2(m[0][(0, 0)])]);
        lib_case!($ctx, $mode, "theta-x-y", 800, 1, 3, log_rot=1, (x: SE2) => { let v = x.xy(); vectorx![x.theta(), x.x(), x.y(), x.rot().to_theta(), v[0], v[1]] }, |m: &[M]| { let a = m[0][(1, 0)].atan2(m[0][(0, 0)]); vec![a, m[0][(0, 2)], m[0][(1, 2)], a, m[0][(0, 2)], m[0][(1, 2)]] });
        lib_case!($ctx, $mode, "from_theta", 500, 1, 1, log_rot=0, (x: VectorVar1) => { let mut g = vec![]; SO2::<T>::from_theta(x[0]).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| { let (s, c) = vec_of(&m[0])[0].sin_cos(); vec![c, -s, s, c] });
        lib_case!($ctx, $mode, "se2-new", 500, 1, 3, log_rot=0, (x: VectorVar3) => { let mut g = vec![]; SE2::<T>::new(x[0], x[1], x[2]).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| { let v = vec_of(&m[0]); let (s, c) = v[0].sin_cos(); vec![c, -s, v[1], s, c, v[2]] });
        lib_case!($ctx, $mode, "from_rot_trans", 500, 2, 6, log_rot=0, (x: SO3), (y: VectorVar3) => { let mut g = vec![]; SE3::<T>::from_rot_trans(SO3::from_xyzw(x.x(), x.y(), x.z(), x.w()), y.0).feats(&mut g); VectorX::from_vec(g) }, |m: &[M]| { let v = vec_of(&m[1]); let mut o = vec![]; for i in 0..3 { for j in 0..3 { o.push(m[0][(i, j)]); } o.push(v[i]); } o });
        lib_case!($ctx, $mode, "dexp", 600, 1, 3, log_rot=0, (x: VectorVar3) => { let m = SO3::<T>::dexp(x.0.as_view()).transpose(); VectorX::from_iterator(9, m.iter().cloned()) }, |m: &[M]| ref_dexp(&vec_of(&m[0])));
        lib_case!($ctx, $mode, "se3-apply-inverse", 600, 2, 9, log_rot=0, (x: SE3), (y: VectorVar3) => { let r = x.inverse().apply(y.0.as_view()); VectorX::from_iterator(3, r.iter().cloned()) }, |m: &[M]| { let mut p = vec_of(&m[1]); p.push(1.0); m[0].inv().unwrap().mv(&p)[..3].to_vec() });
        lib_case!($ctx, $mode, "hat-vee", 300, 1, 6, log_rot=0, (x: VectorVar6) => { let h = SE3::<T>::hat(x.0.as_view()); let v = SE3::<T>::vee(h.as_view()); VectorX::from_iterator(6, v.iter().cloned()) }, |m: &[M]| vec_of(&m[0]));
    };
}
macro_rules! library_functions {
    ($ctx:expr, $mode:ident) => {
        library_accessors!($ctx, $mode);
        library_type!($ctx, $mode, SO2, 1, 1, VectorVar1, 600);
        library_type!($ctx, $mode, SE2, 3, 1, VectorVar3, 1000);
        library_type!($ctx, $mode, SO3, 3, 3, VectorVar3, 1000);
        library_type!($ctx, $mode, SE3, 6, 3, VectorVar6, 600);
        library_type!($ctx, $mode, ImuBias, 6, 0, VectorVar6, 150);
        library_type!($ctx, $mode, VectorVar2, 2, 0, VectorVar2, 150);
        library_type!($ctx, $mode, VectorVar5, 5, 0, VectorVar5, 100);
        library_type!($ctx, $mode, Aff1, 2, 0, VectorVar2, 300);
        library_lie!($ctx, $mode, SO2, 1, 3, VectorVar2, 2, 500);
        library_lie!($ctx, $mode, SE2, 3, 5, VectorVar2, 2, 500);
        library_lie!($ctx, $mode, SO3, 3, 6, VectorVar3, 3, 500);
        library_lie!($ctx, $mode, SE3, 6, 9, VectorVar3, 3, 500);
    };
}
