//! C09: robust kernels match the documented table; weights are loss'(d)/d.
use harness::kernels::*;
use harness::vars::d;
use harness::*;

fn main() {
    let ctx = Ctx::from_env("C09");
    for s in &SPECS {
        ctx.family(&format!("formula/{}", s.name), 30000, 1000000, |rng, c| {
            let dflt = rng.coin(0.3);
            let k = if dflt { s.default } else { { let r = rng.coin(0.3); if r { rng.logu(1e-6, 1e6) } else { rng.logu(1e-2, 1e2) } } };
            let ker = make(s.name, if dflt { None } else { Some(k) });
            let bucket = rng.below(9);
            let x = match bucket {
                0 => 0.0,
                1 => k * rng.logu(1e-8, 1e-3),
                2 => k * rng.logu(1e3, 1e8),
                3 => k * (1.0 + rng.sign() * rng.logu(1e-12, 1e-3)),
                4 => k,
                5 => rng.logu(1e-3, 1.0),
                6 => rng.logu(1.0, 100.0),
                _ => k * rng.logu(0.05, 20.0),
            };
            let d2 = x * x;
            c.desc(format!("k={k} d={x}"));
            c.sig((dflt, bucket, (x / k).log2().clamp(-40.0, 40.0) as i32));
            let (l, w) = (ker.loss(d(d2)) as f64, ker.weight(d(d2)) as f64);
            let (wl, ww) = ((s.loss)(x, k), (s.weight)(x, k));
            // cancellation: c^2(1 - g(x/c)) loses relative precision for tiny x/c
            c.close("loss formula", l, wl, 1e-12 * wl.abs() + 4e-16 * k * k * (1.0 + x / k));
            if s.name == "L1" {
                if d2 > 1.1e-3 {
                    c.close("weight = loss'(d)/d", w, ww, 1e-12 * ww);
                } else {
                    c.check(w > 0.0 && w <= ww * (1.0 + 1e-12) && w <= 1000.0, "L1 weight capped near zero", || format!("w={w}"));
                }
            } else {
                // at an exact threshold one ulp of d^2 may fall on either side: the weights are continuous there
                // relative, but for the loss of digits of 1 - u near the threshold and of exp of a large argument
                let wt = if s.name == "Tukey" { 1e-12 } else { 1e-12 * ww * (1.0 + x * x / (k * k)).min(1e12) + 1e-300 };
                c.close("weight = loss'(d)/d", w, ww, wt + if (x / k - 1.0).abs() < 1e-9 { 1e-8 } else { 0.0 });
                c.check((0.0..=1.0).contains(&w), "weight in [0,1]", || format!("{w}"));
            }
            c.check(l >= -1e-15 * k * k * (1.0 + x / k), "loss never negative", || format!("loss {l:e}"));
            if x == 0.0 {
                c.close("zero at zero", l, 0.0, 0.0);
            }
            // difference quotient of the kernel's own loss against its own weight
            if x > 1e-3 * k && x < 1e3 * k && (s.name != "L1" || d2 > 2e-3) {
                let h = 1e-5 * x;
                let lp = ker.loss(d((x + h) * (x + h))) as f64;
                let lm = ker.loss(d((x - h) * (x - h))) as f64;
                let q = (lp - lm) / (2.0 * h) / x;
                let noise = 1e-15 * (k * k * (1.0 + x / k) + wl) / (h * x);
                c.close("weight = slope of the kernel's own loss / d", w, q, 1e-4 * ww.max(1e-12) + 20.0 * noise + 3e-5 * ww.min(1.0) + 1e-7 + if (x / k - 1.0).abs() < 1e-4 { 1e-3 } else { 0.0 });
            }
        });
        ctx.family(&format!("monotone/{}", s.name), 3000, 60000, |rng, c| {
            let dflt = rng.coin(0.3);
            let k = if dflt { s.default } else { { let r = rng.coin(0.3); if r { rng.logu(1e-6, 1e6) } else { rng.logu(1e-2, 1e2) } } };
            let ker = make(s.name, if dflt { None } else { Some(k) });
            c.desc(format!("k={k} sweep"));
            let n = 60;
            let hi = k * rng.logu(1.5, 1e4);
            c.sig((dflt, (k.log2()) as i32, (hi / k).log2() as i32));
            let mut prev: Option<(f64, f64, f64)> = None;
            for i in 0..n {
                let x = if rng.coin(0.1) { k * (1.0 + (i as f64 - 30.0) * 1e-6) } else { hi * i as f64 / n as f64 };
                if let Some((px, _, _)) = prev {
                    if x <= px {
                        continue;
                    }
                }
                let (l, w) = (ker.loss(d(x * x)) as f64, ker.weight(d(x * x)) as f64);
                c.event();
                if let Some((px, pl, pw)) = prev {
                    c.check(l >= pl - 1e-12 * pl.abs() - 4e-16 * k * k, "loss non-decreasing", || format!("loss({px})={pl:e} > loss({x})={l:e}"));
                    // no jump: |dl| <= max slope * dx (slope of every kernel is at most d)
                    let lip = if s.name == "L1" { 1.0 } else { x };
                    c.check(l - pl <= (x - px) * lip * (1.0 + 1e-9) + 1e-12 * (1.0 + l), "loss continuous", || format!("jump between {px} and {x}: {pl:e} -> {l:e}"));
                    if s.name != "L1" || px * px > 1.1e-3 {
                        c.check(w <= pw * (1.0 + 1e-9) + 1e-15, "weight never increases", || format!("w({px})={pw:e} < w({x})={w:e}"));
                    }
                }
                prev = Some((x, l, w));
            }
        });
    }
    ctx.finish(
        "one evaluation = one kernel, parameter and error magnitude (including at and around the threshold, 0, tiny and huge): loss and weight against the documented formula and against the slope of the kernel's own loss, or one monotone sweep of up to 60 magnitudes; distinct = parameter/magnitude buckets",
        &["L1's weight is only bounded (0 < w <= 1/d) for d^2 <= 1e-3, where the library caps it", "the documented Geman-McClure weight is read as (c^2/(c^2+x^2))^2, the derivative of its documented loss"],
    );
}
