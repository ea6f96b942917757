//! C01: group laws, closure, matrix homomorphism, `minus`, operator forms.
use factrs::variables::*;
use harness::vars::*;
use harness::*;

#[allow(dead_code)]
fn same<V: VarX>(c: &mut Case, label: &str, a: &V, b: &V, scale: f64) {
    c.close_m(label, &a.mat(), &b.mat(), 1e-12 * scale);
}

fn laws<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("laws/{}", V::NAME), 12000, 600000, |rng, c| {
        let (x, bx) = V::rand(rng);
        let (mut y, mut by) = V::rand(rng);
        let (z, bz) = V::rand(rng);
        // related operands: the same element, its inverse, the identity
        match rng.below(16) {
            0 => (y, by) = (x.clone(), 900),
            1 => (y, by) = (x.inverse(), 901),
            2 => (y, by) = (V::identity(), 902),
            _ => {}
        }
        c.desc(format!("x={:?} y={:?} z={:?}", x.mat(), y.mat(), z.mat()));
        c.sig((bx, by, bz));
        let s = x.mag() + y.mag() + z.mag();
        let e = V::identity();
        c.close_m("identity element", &e.mat(), &M::eye(e.mat().r), 0.0);
        same(c, "x*e = x", &x.compose(&e), &x, s);
        same(c, "e*x = x", &e.compose(&x), &x, s);
        let xi = x.inverse();
        same(c, "x*x^-1 = e", &x.compose(&xi), &e, s);
        same(c, "x^-1*x = e", &xi.compose(&x), &e, s);
        same(c, "(x^-1)^-1 = x", &xi.inverse(), &x, s);
        let xy = x.compose(&y);
        let yz = y.compose(&z);
        same(c, "(xy)z = x(yz)", &xy.compose(&z), &x.compose(&yz), s);
        same(c, "(xy)^-1 = y^-1 x^-1", &xy.inverse(), &y.inverse().compose(&xi), s);
        // homomorphism: composition is multiplication of the matrix representations
        c.close_m("mat(xy) = mat(x)mat(y)", &xy.mat(), &x.mat().mul(&y.mat()), 1e-12 * s);
        c.close_m("mat(x^-1) = mat(x)^-1", &xi.mat(), &x.mat().inv().unwrap(), 1e-12 * s);
        // closure
        for (l, v) in [("xy", &xy), ("x^-1", &xi), ("e", &e)] {
            c.check(v.defect() <= 1e-13, "closed under the operation", || format!("{l}: constraint defect {:e}", v.defect()));
        }
        // minus: other^-1 * self, left/right independent
        let m = x.minus(&y);
        c.close_m("x minus y = y^-1 x", &m.mat(), &y.mat().inv().unwrap().mul(&x.mat()), 1e-12 * s);
        same(c, "y*(x minus y) = x", &y.compose(&m), &x, s);
        // the operands are not changed
        let (dx, dy) = (Variable::dim(&x), VariableSafe::dim(&y));
        c.check(dx == V::DIM && dy == V::DIM, "dim()", || format!("{dx} {dy} {}", V::DIM));
    });
}

fn chains<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("chain/{}", V::NAME), 60, 400, |rng, c| {
        let n = if c.thorough { rng.int(500, 20000) } else { rng.int(200, 3000) };
        let mut acc = V::identity();
        let mut seen = 0.0f64;
        let mut inv_acc = V::identity();
        for i in 0..n {
            let xi = V::rand_tangent(rng).0;
            // keep translations bounded so the check stays about rotations
            let xi: Vec<f64> = xi.iter().enumerate().map(|(k, v)| if k < V::ROT { *v } else { v.clamp(-1.0, 1.0) }).collect();
            let step = if rng.coin(0.5) { V::e_exp(&xi) } else { V::rand(rng).0 };
            acc = acc.compose(&step);
            if i < 60 {
                inv_acc = step.inverse().compose(&inv_acc);
                if i == 59 || i + 1 == n {
                    let p = acc.compose(&inv_acc);
                    c.close_m("prod * reverse prod of inverses = e", &p.mat(), &M::eye(p.mat().r), 1e-10 * (acc.mag() + inv_acc.mag()) );
                }
            }
            seen = seen.max(acc.defect());
            c.event();
        }
        c.desc(format!("chain of {n} compositions, max constraint defect {seen:e}"));
        c.sig((n / 64, V::NAME));
        // the defect of a product of n factors, each near 1e-15 (exp's small angle branch is accurate to 1e-14)
        c.check(seen <= 3e-13 + 4e-15 * n as f64 + 1.5e-14 * n as f64, "stays on the group along a chain", || {
            format!("defect {seen:e} after {n} compositions")
        });
    });
}

macro_rules! ops {
    ($ctx:expr, $($t:ty),*) => {$(
        $ctx.family(&format!("ops/{}", <$t as VarX>::NAME), 300, 5000, |rng, c| {
            let (x, bx) = <$t as VarX>::rand(rng);
            let (y, by) = <$t as VarX>::rand(rng);
            c.sig((bx, by));
            c.desc(format!("x={:?} y={:?}", x.mat(), y.mat()));
            let want = x.mat().mul(&y.mat());
            let s = x.mag() + y.mag();
            let r = &x * &y;
            c.close_m("&x * &y", &r.mat(), &want, 1e-12 * s);
            c.close_m("x * y", &(x.clone() * y.clone()).mat(), &want, 1e-12 * s);
        });
    )*};
}

fn main() {
    let ctx = Ctx::from_env("C01");
    for_all_vars!(laws(&ctx));
    for_all_vars!(chains(&ctx));
    ops!(ctx, SO2, SE2, SO3, SE3);
    ctx.family("ops/ImuBias-sub", 300, 5000, |rng, c| {
        let (x, bx) = <ImuBias as VarX>::rand(rng);
        let (y, by) = <ImuBias as VarX>::rand(rng);
        c.sig((bx, by));
        let w: Vec<f64> = la::sub(&x.e_log(), &y.e_log());
        c.close_v("&x - &y", &(&x - &y).e_log(), &w, 1e-13 * x.mag().max(y.mag()));
        c.close_v("x - y", &(x.clone() - y.clone()).e_log(), &w, 1e-13 * x.mag().max(y.mag()));
        c.close_v("zeros() is the identity", &ImuBias::<f64>::zeros().e_log(), &[0.0; 6], 0.0);
    });
    ctx.finish(
        "triples (x,y,z) built by raw constructors with angles drawn from 12 regimes (0, denormal, around each small-angle threshold, near pi, special angles), both quaternion signs, translations over 5 scales; plus long composition chains; non-trivial: every case, distinct by (type, regime of each element)",
        &["floating point equality up to 1e-12 relative to the magnitude of the elements"],
    );
}
