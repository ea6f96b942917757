//! C04: matrix Lie group operations: hat/vee/hat_swap, adjoint, apply, to/from_matrix, raw constructors and accessors, dexp.
use factrs::linalg::{Vector, Matrix2, Matrix3, Matrix4, Vector1, Vector2, Vector3, Vector4, Vector6};
use factrs::variables::*;
use harness::vars::*;
use harness::*;

macro_rules! group {
    ($ctx:expr, $t:ty, $tv:ty, $mm:ty, $vv:ty, $td:expr, $md:expr, $vd:expr) => {{
        let name = <$t as VarX>::NAME;
        $ctx.family(&format!("algebra/{name}"), 6000, 200000, |rng, c| {
            let (xi, b) = <$t as VarX>::rand_tangent(rng);
            let (p, pb) = rand_trans(rng, $vd);
            c.desc(format!("xi={xi:?} p={p:?}"));
            c.sig((b, pb));
            let xv = <$tv>::from_iterator(xi.iter().map(|x| d(*x)));
            let h = tom!(<$t>::hat(xv.as_view()));
            let want = <$t as VarX>::hatm(&xi);
            c.close_m("hat(xi)", &h, &want, 0.0);
            let hm = <$mm>::from_fn(|i, j| d(want[(i, j)]));
            let back: Vec<f64> = <$t>::vee(hm.as_view()).iter().map(|x| *x as f64).collect();
            c.close_v("vee(hat(xi)) = xi", &back, &xi, 0.0);
            let pv = <$vv>::from_iterator(p.iter().map(|x| d(*x)));
            let hs = tom!(<$t>::hat_swap(pv.as_view()));
            c.check(hs.r == $vd && hs.c == $td, "hat_swap shape", || format!("{}x{}", hs.r, hs.c));
            // hat(xi) applied to p (homogeneous where the group is)
            let mut ph = p.clone();
            if $md > $vd { ph.push(1.0); }
            let lhs = want.mv(&ph);
            let rhs = hs.mv(&xi);
            let mag = (1.0 + la::norm(&xi)) * (1.0 + la::norm(&p));
            c.close_v("hat(xi) p = hat_swap(p) xi", &rhs, &lhs[..$vd], 1e-13 * mag);
        });
        $ctx.family(&format!("element/{name}"), 6000, 200000, |rng, c| {
            let (mut x, mut b) = <$t as VarX>::rand(rng);
            if rng.coin(0.3) { let (y, by) = <$t as VarX>::rand(rng); x = x.compose(&y); b = b * 131 + by; }
            let (p, pb) = rand_trans(rng, $vd);
            let (xi, tb) = <$t as VarX>::rand_tangent(rng);
            c.desc(format!("x={:?} p={p:?} xi={xi:?}", x.mat()));
            c.sig((b, pb, tb));
            let mag = x.mag();
            let m = x.mat();
            let tm = tom!(x.to_matrix());
            c.close_m("to_matrix = matrix of the raw coordinates", &tm, &m, 1e-13 * mag);
            // apply
            let pv = <$vv>::from_iterator(p.iter().map(|x| d(*x)));
            let mut ph = p.clone();
            if $md > $vd { ph.push(1.0); }
            let got: Vec<f64> = x.apply(pv.as_view()).iter().map(|x| *x as f64).collect();
            c.close_v("apply(p) = matrix * p", &got, &m.mv(&ph)[..$vd], 1e-13 * (mag + la::norm(&p)));
            // from_matrix inverts to_matrix, on every branch
            let mm = <$mm>::from_fn(|i, j| d(m[(i, j)]));
            let y = <$t>::from_matrix(mm.as_view());
            c.close_m("from_matrix(to_matrix(x)) = x", &y.mat(), &m, 1e-12 * mag);
            c.check(y.defect() < 1e-12, "from_matrix lands on the group", || format!("{:e}", y.defect()));
            // adjoint: x exp(xi) x^-1 = exp(Ad_x xi); on the algebra X hat(xi) X^-1 = hat(Ad xi)
            let ad = tom!(x.adjoint());
            c.check(ad.r == $td && ad.c == $td, "adjoint shape", || format!("{}x{}", ad.r, ad.c));
            let lhs = m.mul(&<$t as VarX>::hatm(&xi)).mul(&m.inv().unwrap());
            let rhs = <$t as VarX>::hatm(&ad.mv(&xi));
            c.close_m("X hat(xi) X^-1 = hat(Ad_X xi)", &rhs, &lhs, 1e-12 * mag * (1.0 + la::norm(&xi)));
        });
    }};
}

fn main() {
    let ctx = Ctx::from_env("C04");
    group!(ctx, SO2, Vector1, Matrix2, Vector2, 1, 2, 2);
    group!(ctx, SE2, Vector3, Matrix3, Vector2, 3, 3, 2);
    group!(ctx, SO3, Vector3, Matrix3, Vector3, 3, 3, 3);
    group!(ctx, SE3, Vector6, Matrix4, Vector3, 6, 4, 3);
    // raw constructors and accessors
    ctx.family("raw", 6000, 100000, |rng, c| {
        let (q, b) = rand_quat(rng);
        let (t, tb) = rand_trans(rng, 3);
        let (a, ab) = rng.angle();
        let a = a * rng.sign();
        c.desc(format!("q={q:?} t={t:?} a={a}"));
        c.sig((b, tb, ab));
        let r = so3(q);
        c.close_v("SO3 x,y,z,w", &[r.x() as f64, r.y() as f64, r.z() as f64, r.w() as f64], &q, 0.0);
        let r2 = SO3::from_vec(Vector4::new(d(q[0]), d(q[1]), d(q[2]), d(q[3])));
        c.close_m("SO3 from_vec = from_xyzw", &r2.mat(), &r.mat(), 0.0);
        let p = SE3::from_rot_trans(r.clone(), Vector3::new(d(t[0]), d(t[1]), d(t[2])));
        c.close_v("SE3 xyz", &p.xyz().iter().map(|x| *x as f64).collect::<Vec<_>>(), &t, 0.0);
        c.close_m("SE3 rot", &p.rot().mat(), &quat_mat(q), 0.0);
        let s = SO2::from_theta(d(a));
        c.close_m("SO2 from_theta", &tom!(s.to_matrix()), &rot2(a), 1e-15);
        let e = SE2::new(d(a), d(t[0]), d(t[1]));
        c.close_m("SE2 new", &tom!(e.to_matrix()), &homog(&rot2(a), &t[..2]), 1e-15);
        c.close_v("SE2 x,y,xy", &[e.x() as f64, e.y() as f64, e.xy()[0] as f64, e.xy()[1] as f64], &[t[0], t[1], t[0], t[1]], 0.0);
        c.close_m("SE2 rot", &tom!(e.rot().to_matrix()), &rot2(a), 1e-15);
        // vectors and biases: components in the order given, through every constructor and conversion
        let w: Vec<f64> = (0..6).map(|_| rng.normal() * rng.logu(1e-6, 1e6)).map(|x| d(x) as f64).collect();
        macro_rules! vector {
            ($V:ident, $N:literal, $($i:literal),*) => {{
                let v = $V::new($( d(w[$i]) ),*);
                let got: Vec<f64> = vec![$( v[$i] as f64 ),*];
                c.close_v(concat!(stringify!($V), " new and index"), &got, &w[..$N], 0.0);
                let raw: Vector<$N> = v.clone().into();
                c.close_v(concat!(stringify!($V), " into a vector"), &raw.iter().map(|x| *x as f64).collect::<Vec<_>>(), &w[..$N], 0.0);
                let back: $V = raw.into();
                c.close_v(concat!(stringify!($V), " from a vector"), &back.0.iter().map(|x| *x as f64).collect::<Vec<_>>(), &w[..$N], 0.0);
            }};
        }
        vector!(VectorVar1, 1, 0);
        vector!(VectorVar2, 2, 0, 1);
        vector!(VectorVar3, 3, 0, 1, 2);
        vector!(VectorVar4, 4, 0, 1, 2, 3);
        vector!(VectorVar5, 5, 0, 1, 2, 3, 4);
        vector!(VectorVar6, 6, 0, 1, 2, 3, 4, 5);
        use factrs::residuals::{Accel, Gyro};
        let bias = ImuBias::new(Gyro::new(d(w[0]), d(w[1]), d(w[2])), Accel::new(d(w[3]), d(w[4]), d(w[5])));
        let got: Vec<f64> = bias.gyro().iter().chain(bias.accel().iter()).map(|x| *x as f64).collect();
        c.close_v("ImuBias gyro, accel", &got, &w, 0.0);
        let z = ImuBias::zeros();
        c.check(z.gyro().iter().chain(z.accel().iter()).all(|x: &factrs::dtype| *x == 0.0), "ImuBias zeros", || format!("{z:?}"));
    });
    // from_matrix on rotations chosen to hit each branch and its boundaries
    ctx.family("from_matrix-branches", 8000, 200000, |rng, c| {
        let mut q = [0.0f64; 4];
        let k = rng.below(4);
        for i in 0..4 {
            q[i] = if i == k { 1.0 } else { rng.normal() * rng.logu(1e-9, 1.0) };
        }
        if rng.coin(0.3) {
            // two or more components of equal size: branch boundaries
            let j = (k + 1 + rng.below(3)) % 4;
            q[j] = rng.sign();
            if rng.coin(0.5) { let l = (j + 1) % 4; q[l] = rng.sign(); }
        }
        if rng.coin(0.2) { q[3] = 0.0; if la::norm(&q) == 0.0 { q[0] = 1.0; } }
        let n = la::norm(&q);
        for x in q.iter_mut() { *x /= n; }
        let m = quat_mat(q);
        c.desc(format!("q={q:?}"));
        c.sig((k, q.map(|x| (x * 4.0).round() as i64)));
        let mm = Matrix3::from_fn(|i, j| d(m[(i, j)]));
        let y = SO3::from_matrix(mm.as_view());
        c.close_m("from_matrix(R) represents R", &y.mat(), &m, 3e-12);
        c.check(y.defect() < 1e-11, "unit quaternion", || format!("{:e}", y.defect()));
    });
    // dexp: right Jacobian of the exponential, exp(xi + d) = exp(xi) exp(dexp(xi) d) + O(d^2)
    ctx.family("dexp", 6000, 100000, |rng, c| {
        let (xi, b) = <SO3 as VarX>::rand_tangent(rng);
        c.desc(format!("xi={xi:?}"));
        c.sig(b);
        let xv = Vector3::new(d(xi[0]), d(xi[1]), d(xi[2]));
        let got = tom!(SO3::dexp(xv.as_view()));
        // right Jacobian = left Jacobian at -xi
        let want = left_jac(&skew(&[-xi[0], -xi[1], -xi[2]]));
        c.close_m("dexp = right Jacobian of exp", &got, &want, 2e-9);
    });
    ctx.finish(
        "tangents, points and group elements of SO2/SE2/SO3/SE3 over hostile regimes, rotation matrices on every from_matrix branch and branch boundary; oracle: reference hat matrices and matrix products; distinct by regime",
        &[],
    );
}
