//! C23: loading a g2o file reproduces exactly the pose graph it describes.
//! Files are generated from a known pose graph (in a scratch directory), loaded by the library, and the result compared with
//! the known graph: variables one by one, factors through the graph's error at many values.
use factrs::containers::*;
use factrs::utils::load_g20;
use factrs::variables::*;
use harness::vars::*;
use harness::*;
use std::fmt::Write as _;

fn key(id: u64) -> u64 {
    ('x' as u64) << 32 | id
}
fn scratch(c: &Case) -> String {
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    format!("{dir}/g2o_{}_{}.g2o", c.family.replace(['/', ' '], "_"), c.idx)
}
fn num(rng: &mut Rng, x: f64) -> String {
    match rng.below(6) {
        5 => {
            // as C and C++ streams print it: two exponent digits with a sign
            let t = format!("{x:.17e}");
            let (m, e) = t.split_once('e').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{m}e{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
        }
        0 => format!("{x:e}"),
        1 => format!("{x:?}"),
        2 if x.is_sign_positive() => format!("+{x}"),
        3 => format!("{x:.17e}").replace('e', "E"),
        _ => format!("{x}"),
    }
}

struct Edge {
    a: u64,
    b: u64,
    z: M,
    info: M, // rotation first
    nums: Vec<f64>, // the measurement as written
}
struct File3 {
    text: String,
    verts: Vec<(u64, M)>,
    edges: Vec<Edge>,
    three: bool,
}

fn rand_info(rng: &mut Rng, n: usize) -> M {
    match rng.below(4) {
        0 => M::diag(&(0..n).map(|_| rng.logu(1e-1, 1e4)).collect::<Vec<_>>()),
        1 => M::eye(n).scale(rng.logu(1e-2, 1e4)),
        _ => {
            let a = M::from_fn(n, n, |_, _| rng.normal());
            let s: Vec<f64> = (0..n).map(|_| rng.logu(0.5, 30.0)).collect();
            let q = a.mul(&a.t()).add(&M::eye(n).scale(0.5));
            M::from_fn(n, n, |i, j| 0.5 * (q[(i, j)] + q[(j, i)]) * s[i] * s[j])
        }
    }
}

fn pose(rng: &mut Rng, three: bool) -> (M, Vec<f64>) {
    // matrix and the numbers of the file, in file order
    if three {
        let (q, _) = rand_quat(rng);
        let (t, _) = rand_trans(rng, 3);
        (homog(&quat_mat(q), &t), vec![t[0], t[1], t[2], q[0], q[1], q[2], q[3]])
    } else {
        let mut th = rng.angle().0 * rng.sign();
        // angles accumulated over several turns
        if rng.coin(0.15) {
            th = rng.range(-30.0, 30.0);
        }
        let (t, _) = rand_trans(rng, 2);
        (homog(&rot2(th), &t), vec![t[0], t[1], th])
    }
}

fn generate(rng: &mut Rng, three: bool, nv: usize, ne: usize, junk: bool) -> File3 {
    let mut verts: Vec<(u64, M)> = vec![];
    let mut vlines = vec![];
    let seq = rng.coin(0.5);
    while verts.len() < nv {
        let id = if seq { verts.len() as u64 } else { match rng.below(3) { 0 => rng.below(50) as u64, 1 => rng.below(100000) as u64, _ => rng.u64() >> 32 } };
        if verts.iter().any(|v| v.0 == id) {
            continue;
        }
        let (m, f) = pose(rng, three);
        let nums: Vec<String> = f.iter().map(|x| num(rng, *x)).collect();
        vlines.push(format!("{} {id} {}", if three { "VERTEX_SE3:QUAT" } else { "VERTEX_SE2" }, nums.join(" ")));
        verts.push((id, m));
    }
    let mut edges = vec![];
    let mut elines = vec![];
    for _ in 0..ne {
        if nv < 2 {
            break;
        }
        let i = rng.below(nv);
        let j = if rng.coin(0.6) { (i + 1) % nv } else { rng.below(nv) };
        // an edge of a vertex with itself is an edge like any other
        if i == j && !rng.coin(0.2) {
            continue;
        }
        let (z, f) = pose(rng, three);
        if ne > 500 {
            // keep the whole sum judgeable: no edge near half a turn
            let r = verts[j].1.inv().unwrap().mul(&verts[i].1).mul(&z);
            if la::norm(&res_log(three, &r)[..if three { 3 } else { 1 }]) > 2.8 {
                continue;
            }
        }
        let n = if three { 6 } else { 3 };
        let r = if three { 3 } else { 1 };
        let info = rand_info(rng, n);
        // the file lists the upper triangle with translation first
        let perm: Vec<usize> = (r..n).chain(0..r).collect();
        let mut nums: Vec<String> = f.iter().map(|x| num(rng, *x)).collect();
        for a in 0..n {
            for b in a..n {
                nums.push(num(rng, info[(perm[a], perm[b])]));
            }
        }
        elines.push(format!("{} {} {} {}", if three { "EDGE_SE3:QUAT" } else { "EDGE_SE2" }, verts[i].0, verts[j].0, nums.join(" ")));
        edges.push(Edge { a: verts[i].0, b: verts[j].0, z, info, nums: f });
    }
    // interleave: order within each kind is kept, edges may come before their vertices
    let mut text = String::new();
    let layout = rng.below(3);
    let (mut vi, mut ei) = (vlines.into_iter(), elines.into_iter());
    let mut lines: Vec<String> = vec![];
    match layout {
        0 => {
            lines.extend(&mut vi);
            lines.extend(&mut ei);
        }
        1 => {
            lines.extend(&mut ei);
            lines.extend(&mut vi);
        }
        _ => loop {
            let mut any = false;
            if rng.coin(0.5) {
                if let Some(l) = vi.next() {
                    lines.push(l);
                    any = true;
                }
            } else if let Some(l) = ei.next() {
                lines.push(l);
                any = true;
            }
            if !any {
                lines.extend(&mut vi);
                lines.extend(&mut ei);
                break;
            }
        },
    }
    if junk {
        for _ in 0..rng.int(1, 6) {
            let at = rng.below(lines.len() + 1);
            let first = if three { "VERTEX_SE2x 0 1 2 3" } else { "VERTEX_SE3 0 1 2 3" };
            let l = rng.pick(&["# a comment VERTEX_SE2 0 0 0 0", "", "FIX 0", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "vertex_se2 1 2 3 4", " ", first, "LANDMARK 3 nan abc", "EDGE_SE2_XY 0 1 2 3 4 5 6"]).to_string();
            lines.insert(at, l);
        }
    }
    let eol = if rng.coin(0.3) { "\r\n" } else { "\n" };
    for (i, l) in lines.iter().enumerate() {
        let last = i + 1 == lines.len();
        let _ = write!(text, "{l}{}", if last && rng.coin(0.5) { "" } else { eol });
    }
    File3 { text, verts, edges, three }
}

fn load(c: &mut Case, text: &str) -> Option<(Graph, Values)> {
    let p = scratch(c);
    std::fs::write(&p, text).expect("scratch file");
    let r = c.no_panic("loading a well-formed file", || load_g20(&p));
    let _ = std::fs::remove_file(&p);
    c.event();
    r
}

fn read(vals: &Values, three: bool, id: u64) -> Option<M> {
    if three {
        vals.get_unchecked::<_, SE3>(Key(key(id))).map(|v| v.mat())
    } else {
        vals.get_unchecked::<_, SE2>(Key(key(id))).map(|v| v.mat())
    }
}
fn put(vals: &mut Values, three: bool, id: u64, xi: &[f64]) {
    use std::collections::hash_map::Entry;
    let _ = three;
    if let Entry::Occupied(mut o) = vals.entry(Key(key(id))) {
        o.get_mut().oplus_mut(vx(xi).as_view());
    }
}
fn res_log(three: bool, m: &M) -> Vec<f64> {
    if three {
        <SE3 as VarX>::ref_log(m)
    } else {
        <SE2 as VarX>::ref_log(m)
    }
}

/// error of the edges at the given values (read back from the container itself), and its tolerance
fn edges_error(f: &File3, vals: &Values) -> Option<(f64, f64)> {
    let mut e = 0.0;
    let mut tol = 0.0;
    for ed in &f.edges {
        let (a, b) = (read(vals, f.three, ed.a)?, read(vals, f.three, ed.b)?);
        let r = if cfg!(feature = "left") { a.mul(&ed.z).mul(&b.inv()?) } else { b.inv()?.mul(&a).mul(&ed.z) };
        let v = res_log(f.three, &r);
        let nr = if f.three { 3 } else { 1 };
        if la::norm(&v[0..nr]) > std::f64::consts::PI - 1e-2 {
            return None; // the sign of the log is not determined
        }
        e += la::dot(&v, &ed.info.mv(&v)) / 2.0;
        let mag = 1.0 + a.max_abs() + b.max_abs() + ed.z.max_abs();
        tol += ed.info.max_abs() * (la::norm(&v) + 1e-7) * mag * 3e-7;
    }
    Some((e, tol + 1e-12))
}

fn judge(rng: &mut Rng, c: &mut Case, f: &File3) {
    let Some((graph, vals)) = load(c, &f.text) else { return };
    c.check(vals.len() == f.verts.len(), "one variable per vertex line", || format!("{} for {}", vals.len(), f.verts.len()));
    let want = f.edges.len() + usize::from(!f.verts.is_empty());
    c.check(graph.len() == want, "one factor per edge line plus one prior", || format!("{} want {want}", graph.len()));
    for (id, m) in &f.verts {
        match read(&vals, f.three, *id) {
            None => c.fail("every vertex is loaded under its id with its type", format!("id {id}")),
            Some(g) => {
                c.close_m("vertex pose", &g, m, 1e-12 * (1.0 + m.max_abs()));
            }
        }
    }
    if c.failed() || f.verts.is_empty() {
        return;
    }
    let dim = if f.three { 6 } else { 3 };
    // edges, with the anchored vertex at its own pose so that the prior is silent
    for k in 0..4 {
        let mut v = vals.clone();
        if k > 0 {
            for (id, _) in &f.verts[1..] {
                let s = *rng.pick(if f.edges.len() > 300 { &[0.0, 0.01] } else { &[0.0, 0.01, 0.5] });
                put(&mut v, f.three, *id, &rng.nvec(dim, s));
            }
        }
        if let Some((want, tol)) = edges_error(f, &v) {
            c.close("error = sum over edges of r' Omega r / 2", graph.error(&v) as f64, want, tol);
        } else {
            c.count("rotation at pi: not judged", 1);
        }
    }
    // each edge alone
    for _ in 0..3 {
        if f.edges.is_empty() {
            break;
        }
        let i = rng.below(f.edges.len());
        let e = &f.edges[i];
        if e.a == e.b {
            c.count("edges of a vertex with itself", 1);
            continue;
        }
        let line: Vec<&str> = f.text.lines().filter(|l| l.starts_with("EDGE_SE2 ") || l.starts_with("EDGE_SE3:")).collect();
        let verts: Vec<&str> = f.text.lines().filter(|l| l.starts_with("VERTEX_SE2 ") || l.starts_with("VERTEX_SE3:")).collect();
        let one = File3 {
            text: format!("{}\n{}\n", verts.join("\n"), line[i]),
            verts: f.verts.clone(),
            edges: vec![Edge { a: e.a, b: e.b, z: e.z.clone(), info: e.info.clone(), nums: e.nums.clone() }],
            three: f.three,
        };
        let Some((g, mut v)) = load(c, &one.text) else { return };
        // along every direction of the second vertex (or the first when the second is the anchor)
        let mover = if e.b != f.verts[0].0 { e.b } else { e.a };
        let base = v.clone();
        for j in 0..dim {
            let mut xi = vec![0.0; dim];
            xi[j] = rng.range(0.2, 0.6);
            put(&mut v, f.three, mover, &xi);
            if rng.coin(0.3) {
                put(&mut v, f.three, mover, &rng.nvec(dim, 0.1));
            }
            if let Some((want, tol)) = edges_error(&one, &v) {
                c.close("single edge", g.error(&v) as f64, want, tol);
            }
            v = base.clone();
        }
        // measurement and information to the last digits written: at b = a z oplus xi the residual is -xi itself
        if e.b != f.verts[0].0 && !cfg!(feature = "fake_exp") && !cfg!(feature = "f32") {
            let z: Vec<_> = e.nums.iter().map(|x| d(*x)).collect();
            let k = Key(key(e.b));
            let mag = 1.0 + read(&base, f.three, e.a).map_or(0.0, |m| m.max_abs()) + e.z.max_abs();
            for t in 0..6 {
                let mut v = base.clone();
                if f.three {
                    let a: &SE3 = v.get_unchecked(Key(key(e.a))).expect("vertex");
                    let b = a.compose(&SE3::from_rot_trans(SO3::from_xyzw(z[3], z[4], z[5], z[6]), factrs::linalg::Vector3::new(z[0], z[1], z[2])));
                    v.insert_unchecked(k, b);
                } else {
                    let a: &SE2 = v.get_unchecked(Key(key(e.a))).expect("vertex");
                    let b = a.compose(&SE2::new(z[2], z[0], z[1]));
                    v.insert_unchecked(k, b);
                }
                let mut xi = if t == 0 { vec![0.0; dim] } else { rng.nvec(dim, 1.0) };
                let nr = if f.three { 3 } else { 1 };
                let n = la::norm(&xi[..nr]);
                let to = if t % 2 == 0 { 0.0 } else { rng.range(0.05, 2.0) };
                xi[..nr].iter_mut().for_each(|x| *x *= if n > 0.0 { to / n } else { 0.0 });
                put(&mut v, f.three, e.b, &xi);
                let want = la::dot(&xi, &e.info.mv(&xi)) / 2.0;
                let del = 2e-12 * mag;
                let tol = e.info.max_abs() * (dim * dim) as f64 * (la::norm(&xi) * del + del * del);
                c.close("single edge, to the digits written", g.error(&v) as f64, want, tol);
            }
        }
    }
    // the prior: on the first vertex alone, zero at its pose, and the same whatever else is in the file
    let verts: Vec<&str> = f.text.lines().filter(|l| l.starts_with("VERTEX_SE2 ") || l.starts_with("VERTEX_SE3:")).collect();
    let Some((g0, v0)) = load(c, &verts.join("\n")) else { return };
    c.check(g0.len() == 1, "vertices alone give one prior", || format!("{}", g0.len()));
    c.close("prior is zero at the file's pose", g0.error(&v0) as f64, 0.0, 1e-9);
    let mut v = v0.clone();
    for (id, _) in f.verts.iter().skip(1) {
        put(&mut v, f.three, *id, &rng.nvec(dim, 0.5));
    }
    c.close("only the first vertex is anchored", g0.error(&v) as f64, 0.0, 1e-9);
    for j in 0..dim {
        let mut v = v0.clone();
        let mut xi = vec![0.0; dim];
        xi[j] = 0.3;
        put(&mut v, f.three, f.verts[0].0, &xi);
        c.check((g0.error(&v) as f64) > 1e-6, "the first vertex is anchored in every direction", || format!("direction {j}"));
    }
    let xi = rng.nvec(dim, 0.2);
    let (mut a, mut b) = (v0.clone(), vals.clone());
    put(&mut a, f.three, f.verts[0].0, &xi);
    put(&mut b, f.three, f.verts[0].0, &xi);
    if let Some((want, tol)) = edges_error(f, &b) {
        let p = g0.error(&a) as f64;
        c.close("prior plus edges", graph.error(&b) as f64, want + p, tol + 1e-9 * p);
    }
}

fn main() {
    let ctx = Ctx::from_env("C23");
    for three in [false, true] {
        let n = if three { "3D" } else { "2D" };
        ctx.family(&format!("small/{n}"), 600, 15000, |rng, c| {
            let (nv, ne, junk) = (rng.int(0, 5), rng.below(6), rng.coin(0.3));
            let f = generate(rng, three, nv, ne, junk);
            c.desc(f.text.clone());
            c.sig((nv, f.edges.len(), junk, f.text.len()));
            judge(rng, c, &f);
        });
        ctx.family(&format!("medium/{n}"), 60, 1500, |rng, c| {
            let (nv, ne, junk) = (rng.int(10, 80), rng.int(10, 200), rng.coin(0.5));
            let f = generate(rng, three, nv, ne, junk);
            c.desc(f.text.chars().take(300).collect::<String>());
            c.sig((nv, f.edges.len(), junk));
            judge(rng, c, &f);
        });
        ctx.family(&format!("large/{n}"), 2, 40, |rng, c| {
            let (nv, ne, junk) = (rng.int(1500, 3000), rng.int(1500, 4000), rng.coin(0.5));
            let f = generate(rng, three, nv, ne, junk);
            c.desc(f.text.chars().take(300).collect::<String>());
            c.sig((nv, f.edges.len(), junk));
            judge(rng, c, &f);
        });
        // damage one line of a good file: never loaded as if nothing happened
        ctx.family(&format!("malformed/{n}"), 800, 15000, |rng, c| {
            let f = generate(rng, three, 3, 3, false);
            let mut lines: Vec<String> = f.text.lines().map(|s| s.to_string()).collect();
            let i = rng.below(lines.len());
            let mut parts: Vec<String> = lines[i].split(' ').map(|s| s.to_string()).collect();
            let at = rng.int(1, parts.len() - 1);
            let ids = if parts[0].starts_with("EDGE") { 2 } else { 1 };
            let kind = rng.below(4);
            match kind {
                // missing trailing field(s)
                0 => {
                    parts.truncate(at);
                }
                1 => parts[at] = rng.pick(&["abc", "1.0.0", "0x10", "", "1,5", "--1", "1e", "e5", "1_0"]).to_string(),
                2 if at <= ids => parts[at] = rng.pick(&["-1", "1.5", "x1", "99999999999999999999999"]).to_string(),
                _ => {
                    // letters glued to a number
                    parts[at].push('q');
                }
            }
            lines[i] = parts.join(" ");
            let text = lines.join("\n");
            c.desc(format!("line {i} field {at} damage {kind}: {}", lines[i]));
            c.sig((i, at, kind));
            let p = scratch(c);
            std::fs::write(&p, text).expect("scratch file");
            c.panics("a malformed line is rejected", || load_g20(&p));
            let _ = std::fs::remove_file(&p);
        });
        ctx.family(&format!("bad information/{n}"), 200, 4000, |rng, c| {
            // an information matrix that is not positive definite cannot be loaded as a noise model
            let mut f = generate(rng, three, 2, 0, false);
            let n = if three { 6 } else { 3 };
            let mut d = rng.vec(n, 0.5, 5.0);
            let j = rng.below(n);
            d[j] = -rng.range(0.5, 5.0);
            let m = M::diag(&d);
            let (_, z) = pose(rng, three);
            let mut nums: Vec<String> = z.iter().map(|x| format!("{x}")).collect();
            for a in 0..n {
                for b in a..n {
                    nums.push(format!("{}", m[(a, b)]));
                }
            }
            f.text = format!("{}\n{} {} {} {}\n", f.text.trim_end(), if three { "EDGE_SE3:QUAT" } else { "EDGE_SE2" }, f.verts[0].0, f.verts[1].0, nums.join(" "));
            c.desc(f.text.clone());
            c.sig((j, n));
            let p = scratch(c);
            std::fs::write(&p, &f.text).expect("scratch file");
            c.panics("an indefinite information matrix is rejected", || load_g20(&p));
            let _ = std::fs::remove_file(&p);
        });
    }
    // both kinds of lines in one file: still one prior, on the very first vertex
    ctx.family("mixed/2D and 3D", 200, 4000, |rng, c| {
        let (n2, n3) = (rng.int(1, 5), rng.int(1, 5));
        let (e2, e3) = (rng.below(5), rng.below(5));
        let mut fs = [generate(rng, false, n2, e2, false), generate(rng, true, n3, e3, false)];
        if fs[0].verts.iter().any(|a| fs[1].verts.iter().any(|b| a.0 == b.0)) {
            // ids of their own for the 3D part
            let (off, f) = (rng.int(200_000, 1 << 30) as u64, &mut fs[1]);
            if f.verts.iter().any(|v| v.0 + off > u32::MAX as u64) {
                return c.count("ids too large: skipped", 1);
            }
            f.verts.iter_mut().for_each(|v| v.0 += off);
            f.edges.iter_mut().for_each(|e| (e.a, e.b) = (e.a + off, e.b + off));
            let lines: Vec<String> = f
                .text
                .lines()
                .map(|l| {
                    let mut p: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                    let n = if p[0].starts_with("EDGE") { 2 } else { 1 };
                    (1..=n).for_each(|i| p[i] = (p[i].parse::<u64>().unwrap() + off).to_string());
                    p.join(" ")
                })
                .collect();
            f.text = lines.join("\n");
            if fs[1].verts.iter().any(|a| fs[0].verts.iter().any(|b| a.0 == b.0)) {
                return c.count("ids still clash: skipped", 1);
            }
        }
        let mut parts: Vec<std::collections::VecDeque<String>> = fs.iter().map(|f| f.text.lines().map(|l| l.to_string()).collect()).collect();
        let mut lines = vec![];
        while parts.iter().any(|p| !p.is_empty()) {
            let k = rng.below(2);
            if let Some(l) = parts[k].pop_front() {
                lines.push(l);
            }
        }
        let first: u64 = lines.iter().find(|l| l.starts_with("VERTEX")).and_then(|l| l.split(' ').nth(1)).unwrap().parse().unwrap();
        c.desc(lines.join("\n"));
        c.sig((n2, n3, fs[0].edges.len(), fs[1].edges.len()));
        let Some((graph, vals)) = load(c, &lines.join("\n")) else { return };
        let want = fs[0].edges.len() + fs[1].edges.len() + 1;
        c.check(graph.len() == want, "mixed: one factor per edge line plus one prior", || format!("{} want {want}", graph.len()));
        c.check(vals.len() == n2 + n3, "mixed: one variable per vertex line", || format!("{}", vals.len()));
        for rep in 0..3 {
            let mut v = vals.clone();
            for f in &fs {
                for (id, m) in &f.verts {
                    match read(&vals, f.three, *id) {
                        None => return c.fail("mixed: every vertex is loaded under its id with its type", format!("id {id}")),
                        Some(g) => c.close_m("mixed: vertex pose", &g, m, 1e-12 * (1.0 + m.max_abs())),
                    };
                    if rep > 0 && *id != first {
                        put(&mut v, f.three, *id, &rng.nvec(if f.three { 6 } else { 3 }, 0.3));
                    }
                }
            }
            if let (Some(a), Some(b)) = (edges_error(&fs[0], &v), edges_error(&fs[1], &v)) {
                c.close("mixed: error = sum over edges", graph.error(&v) as f64, a.0 + b.0, a.1 + b.1);
            }
        }
    });
    ctx.family("missing file", 20, 100, |rng, c| {
        let p = format!("{}.{}", scratch(c), rng.below(1000));
        c.sig(c.idx);
        c.panics("a missing file is rejected", || load_g20(&p));
    });
    ctx.finish(
        "generated 2D/3D pose-graph files (0..80 vertices, 0..200 edges, any line order, number formats, junk lines, CRLF) and damaged ones; oracle = the graph they were generated from, through poses and errors at many values; signature = size, damage position",
        &["one space between fields (the only separator the loader knows)", "ids below 2^32, each id defined once, unit quaternions to rounding", "the prior's strength is not part of the file and not judged, only that it anchors every direction"],
    );
}
