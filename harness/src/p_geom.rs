//! C29 weighted graphs and Laplacians, C30 Delaunay triangulations.
use crate::check;
use crate::core::*;
use crate::p_lin;
use alg::commutative::{Rational, PID};
use alg::lin_alg::{ConstVector, Matrix};
use geom::{delaunay_triangulation, Triangle};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topo_spaces::graph::WeightedSimpleGraph;

// ---------------------------------------------------------------- C29
type WE = Vec<(String, String, i64)>;
fn laplacian_ok<T: PID + Copy + std::fmt::Debug>(ctx: &mut Ctx, what: &str, g: WeightedSimpleGraph<T>, e: &WE, conv: impl Fn(i64) -> T) -> Result<Matrix<T>, Violation> where WeightedSimpleGraph<T>: , T: std::iter::Sum {
    let mut names: Vec<&String> = vec![]; for (a, b, _) in e { for x in [a, b] { if !names.contains(&x) { names.push(x); } } }
    let vs = g.vertices().clone();
    check!(g.n_vertices() == names.len() && vs.len() == names.len(), "weighted:vertices", "{}: {} vertices, expected {}", what, g.n_vertices(), names.len());
    check!(vs.iter().collect::<BTreeSet<_>>() == names.iter().copied().collect::<BTreeSet<_>>(), "weighted:names", "{}: vertices {:?}", what, vs);
    let ix: BTreeMap<&String, usize> = vs.iter().enumerate().map(|(i, v)| (v, i)).collect();
    let n = vs.len(); let mut w = vec![vec![0i64; n]; n];
    for (a, b, x) in e { w[ix[a]][ix[b]] = *x; w[ix[b]][ix[a]] = *x; }
    let d = g.data();
    check!((**d).size() == (n, n), "weighted:size", "{}: adjacency matrix of size {:?}", what, (**d).size());
    for i in 0..n { for j in 0..n { check!(d[(i, j)] == conv(w[i][j]), "weighted:adjacency", "{}: weight between {:?} and {:?} is {:?}, expected {:?}", what, vs[i], vs[j], d[(i, j)], conv(w[i][j])); } }
    let l = must("laplacian", || g.laplacian())?;
    check!((*l).size() == (n, n), "laplacian:size", "{}: size {:?}", what, (*l).size());
    for i in 0..n { for j in 0..n {
        let x = if i == j { w[i].iter().sum() } else { -w[i][j] };
        check!(l[(i, j)] == conv(x), "laplacian:entry", "{}: entry ({}, {}) is {:?}, expected {:?}", what, i, j, l[(i, j)], conv(x));
    } }
    ctx.see_n("Laplacian entries compared", (n * n) as u64);
    Ok(l)
}
pub fn c29(ctx: &mut Ctx) -> Res {
    // names and edges
    let n = if ctx.rng.chance(1, 120) { ctx.rng.size(10, 70) } else { ctx.rng.size(2, 9) }; let style = if n > 9 { ctx.rng.below(2) } else { ctx.rng.below(3) };
    let nm: Vec<String> = ctx.rng.perm(n).into_iter().map(|i| match style { 0 => format!("v{}", i), 1 => i.to_string(), _ => ["a", "", "b b", "é", "v0", "V0", "0", "00", "-1"][i].to_string() }).collect();
    let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
    ctx.rng.shuffle(&mut pairs);
    let k = match ctx.rng.below(4) { 0 => ctx.rng.size(1, n), 1 => pairs.len(), _ => ctx.rng.size(1, pairs.len()) };
    let mut chosen: Vec<(usize, usize)> = if ctx.rng.chance(1, 3) { (1..n).map(|i| (ctx.rng.below(i), i)).collect() } else if n >= 4 && ctx.rng.chance(1, 3) { let c = ctx.rng.size(2, n - 2); pairs.iter().copied().filter(|&(i, j)| (i < c) == (j < c)).collect() } else { pairs.iter().copied().take(k).collect() };
    ctx.rng.shuffle(&mut chosen);
    let wkind = ctx.rng.below(4);
    let mut e: WE = vec![];
    for (i, j) in chosen {
        let w = match wkind { 0 => 1, 1 => ctx.rng.range(1, 9), 2 => ctx.rng.range(-9, 9), _ => *ctx.rng.pick(&[0, 1, 2, 1000, 65536]) };
        let (i, j) = if ctx.rng.bool() { (i, j) } else { (j, i) };
        e.push((nm[i].clone(), nm[j].clone(), w));
        if ctx.rng.chance(1, 12) { e.push((nm[j].clone(), nm[i].clone(), w)); }
    }
    ctx.input(format!("{:?}", e), e.len() > 1);
    // refusing loops
    if ctx.rng.chance(1, 20) { let mut b = e.clone(); b.push((nm[0].clone(), nm[0].clone(), 1)); check!(guard(|| WeightedSimpleGraph::from(b.clone())).is_err(), "weighted:loop", "a loop is accepted in {:?}", b); ctx.see("loops refused"); }
    let l = match ctx.rng.below(3) {
        0 => { let g = must("from", || WeightedSimpleGraph::<i64>::from(e.clone()))?; let m = laplacian_ok(ctx, "i64", g, &e, |x| x)?; let s = (*m).size().0; (0..s).map(|i| (0..s).map(|j| m[(i, j)] as f64).collect()).collect::<p_lin::F>() }
        1 => { let g = must("from", || WeightedSimpleGraph::<Rational>::from(e.iter().map(|(a, b, x)| (a.clone(), b.clone(), Rational::new(*x, 4))).collect()))?; let m = laplacian_ok(ctx, "rational", g, &e, |x| Rational::new(x, 4))?; let s = (*m).size().0; (0..s).map(|i| (0..s).map(|j| { let x: f64 = m[(i, j)].into(); x * 4.0 }).collect()).collect() }
        _ => {
            // the weights may come from an embedding of the vertices
            if e.len() >= 3 && ctx.rng.bool() {
                let pos: HashMap<&str, f64> = nm.iter().enumerate().map(|(i, s)| (s.as_str(), (i * i) as f64)).collect();
                let f = |a: f64, b: f64| (a - b).abs() + 1.0;
                let (p, q, r) = (&e[0], &e[e.len() / 2], &e[e.len() - 1]);
                let we: WE = [p, q, r].iter().map(|x| (x.0.clone(), x.1.clone(), f(pos[x.0.as_str()], pos[x.1.as_str()]) as i64)).collect();
                use topo_spaces::graph;
                let g: WeightedSimpleGraph<f64> = must("graph!", || graph! { embedding = pos, weight_fn = f, [p.0.as_str(), p.1.as_str()], [q.0.as_str(), q.1.as_str()], [r.0.as_str(), r.1.as_str()] })?;
                laplacian_ok(ctx, "embedded f64", g, &we, |x| x as f64)?;
                let g: WeightedSimpleGraph<f64> = must("graph!", || graph! { [p.0, p.1; weight = p.2 as f64], [q.0, q.1; weight = q.2 as f64], [r.0, r.1; weight = r.2 as f64] })?;
                laplacian_ok(ctx, "macro f64", g, &vec![p.clone(), q.clone(), r.clone()], |x| x as f64)?; ctx.see("graphs from macros");
            }
            let s = 2f64.powi(*ctx.rng.pick(&[0i32, 0, 0, -2, -20, -45, -60, -300, 30, 200])); if s != 1.0 { ctx.see("graphs with weights at other scales"); }
            let g = must("from", || WeightedSimpleGraph::<f64>::from(e.iter().map(|(a, b, x)| (a.clone(), b.clone(), *x as f64 * s)).collect()))?; let m = laplacian_ok(ctx, "f64", g, &e, |x| x as f64 * s)?; p_lin::from(&m).into_iter().map(|r| r.into_iter().map(|x| x / s).collect()).collect()
        }
    };
    if e.iter().all(|x| x.2 > 0 && x.2 < 10) {
        // connected exactly when the second smallest eigenvalue is positive
        let used: BTreeSet<&String> = e.iter().flat_map(|x| [&x.0, &x.1]).collect();
        let mut comp: BTreeMap<&String, usize> = used.iter().enumerate().map(|(i, s)| (*s, i)).collect();
        for _ in 0..used.len() { for (a, b, _) in &e { let m = comp[a].min(comp[b]); *comp.get_mut(a).unwrap() = m; *comp.get_mut(b).unwrap() = m; } }
        let nc = comp.values().collect::<BTreeSet<_>>().len();
        let ev = p_lin::jacobi(l.clone());
        check!(ev[0].abs() < 1e-7 && (ev[1] > 1e-3) == (nc == 1), "laplacian:connected", "{} components but eigenvalues {:?}", nc, ev);
        let z = ev.iter().filter(|x| x.abs() < 1e-3).count();
        check!(z == nc, "laplacian:components", "{} components but {} vanishing eigenvalues {:?}", nc, z, ev);
        ctx.see(if nc == 1 { "spectra of connected graphs" } else { "spectra of disconnected graphs" });
    }
    Ok(())
}

// ---------------------------------------------------------------- C30
type P = (i64, i64);
fn orient(a: P, b: P, c: P) -> i128 { (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128 }
/// positive when d is strictly inside the circle through a, b, c (any orientation)
fn incircle(a: P, b: P, c: P, d: P) -> i128 {
    let r = |p: P| { let (x, y) = ((p.0 - d.0) as i128, (p.1 - d.1) as i128); (x, y, x * x + y * y) };
    let (a1, b1, c1) = (r(a), r(b), r(c));
    let det = a1.0 * (b1.1 * c1.2 - b1.2 * c1.1) - a1.1 * (b1.0 * c1.2 - b1.2 * c1.0) + a1.2 * (b1.0 * c1.1 - b1.1 * c1.0);
    det * orient(a, b, c).signum()
}
fn d2(a: P, b: P) -> f64 { let (x, y) = ((a.0 - b.0) as f64, (a.1 - b.1) as f64); x * x + y * y }
/// triples far from collinear and quadruples far from cocircular, so that rounding cannot matter
fn clear_triple(a: P, b: P, c: P) -> bool { let m = d2(a, b).max(d2(b, c)).max(d2(a, c)); (orient(a, b, c) as f64).abs() > 1e-5 * m }
fn clear_quad(a: P, b: P, c: P, d: P, off: f64) -> bool {
    let o = (orient(a, b, c) as f64).abs(); let r = (d2(a, b) * d2(b, c) * d2(a, c)).sqrt() / (2.0 * o);
    let pw = (incircle(a, b, c, d) as f64).abs() / o; // power of d with respect to the circle
    // compare the gap between distance and radius with the error of centre and radius
    let m = d2(a, b).max(d2(a, c)); let cond = m / o;
    pw / (2.0 * r + 1.0) > 1e-12 * (r + off) * (1.0 + cond) * 10.0
}
fn gen_points(ctx: &mut Ctx) -> (Vec<P>, &'static str) {
    let n = match ctx.rng.below(8) { 0 => ctx.rng.size(0, 3), 1 => if ctx.rng.chance(1, 8) { ctx.rng.size(31, 60) } else { ctx.rng.size(16, 30) }, _ => ctx.rng.size(3, 15) };
    let big = *ctx.rng.pick(&[20i64, 100, 1000, 100000]); let kind = ctx.rng.below(9);
    let off = if ctx.rng.chance(1, 4) { (ctx.rng.range(-5, 5) * big, ctx.rng.range(-5, 5) * big) } else { (0, 0) };
    let mut v: Vec<P> = vec![]; let mut tries = 0;
    let name = ["uniform", "parabola", "circle", "clusters", "strip", "outlier", "same column", "grid", "wheel"][kind];
    while v.len() < n && tries < 400 + 10 * n {
        tries += 1;
        let t = ctx.rng.range(-big, big); let r = &mut ctx.rng;
        let p = match kind {
            0 => (t, r.range(-big, big)),
            1 => (t, t * t / (big * 3) + r.range(0, 1 + big / 50)),
            2 => { let a = r.f(0.0, 6.283); let q = big as f64 * r.f(0.9, 1.0); ((a.cos() * q) as i64, (a.sin() * q) as i64) }
            3 => { let c = r.range(0, 2); (c * big * 8 + r.range(-big, big) / 4, (c % 2) * big * 7 + r.range(-big, big) / 4) }
            4 => (t, r.range(0, big / 8 + 2)),
            5 => if v.len() == n / 2 { (t * 40, r.range(-40 * big, 40 * big)) } else { (t, r.range(-big, big)) },
            6 => (if v.len() < 2 { 0 } else { t }, r.range(-big, big)),
            // the hub is inside most of the circles around: inserted last, it replaces most triangles at once
            8 => if v.is_empty() { (t / 9, r.range(-big, big) / 9) } else { let a = r.f(0.0, 6.283); let q = big as f64 * r.f(0.97, 1.0); ((a.cos() * q) as i64, (a.sin() * q) as i64) },
            _ => { let s = (big / 5).max(1); (r.range(-5, 5) * s + r.range(0, 2), r.range(-5, 5) * s + r.range(0, 2)) }
        };
        let p = (p.0 + off.0, p.1 + off.1);
        let o = (p.0.abs() + p.1.abs()) as f64;
        if v.contains(&p) { continue; }
        let m = v.len();
        let ok = (0..m).all(|i| (0..i).all(|j| clear_triple(v[i], v[j], p)))
            && (0..m).all(|i| (0..i).all(|j| (0..j).all(|k| clear_quad(v[i], v[j], v[k], p, o) && clear_quad(v[i], v[j], p, v[k], o) && clear_quad(v[i], p, v[k], v[j], o) && clear_quad(p, v[j], v[k], v[i], o))));
        if ok { v.push(p); }
    }
    let hub = v.first().copied();
    match ctx.rng.below(4) { 0 => v.sort(), 1 => { v.sort(); v.reverse() } _ => ctx.rng.shuffle(&mut v) }
    if kind == 8 && ctx.rng.chance(2, 3) { if let Some(h) = hub { v.retain(|p| *p != h); v.push(h); } }
    (v, name)
}
pub fn c30(ctx: &mut Ctx) -> Res {
    let (v, name) = gen_points(ctx);
    let n = v.len();
    // exact scaling by powers of two
    let s = 2f64.powi(*ctx.rng.pick(&[0, 0, -10, -20, 3]));
    let pts: Vec<ConstVector<f64, 2>> = v.iter().map(|p| ConstVector::from([p.0 as f64 * s, p.1 as f64 * s])).collect();
    ctx.input(format!("{} {:?} * {}", name, v, s), n > 3);
    let (ts, ix) = must("delaunay_triangulation", || delaunay_triangulation(&pts))?;
    check!(ts.len() == ix.len(), "delaunay:lists", "{} triangles but {} triples of indices", ts.len(), ix.len());
    let mut got: BTreeSet<[usize; 3]> = BTreeSet::new();
    for (t, i) in ts.iter().zip(&ix) {
        check!(i.iter().all(|x| *x < n) && i[0] != i[1] && i[0] != i[2] && i[1] != i[2], "delaunay:indices", "triangle {:?} of {} points", i, n);
        let mut k = *i; k.sort();
        check!(got.insert(k), "delaunay:repeated", "triangle {:?} occurs twice", k);
        let same = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().any(|q| *t == Triangle::new([pts[i[q[0]]], pts[i[q[1]]], pts[i[q[2]]]]));
        check!(same, "delaunay:triangle", "triangle does not have the corners {:?} of its indices", i);
    }
    let mut want: BTreeSet<[usize; 3]> = BTreeSet::new();
    for c in 0..n { for b in 0..c { for a in 0..b { if (0..n).all(|d| d == a || d == b || d == c || incircle(v[a], v[b], v[c], v[d]) < 0) { want.insert([a, b, c]); } } } }
    if let Some(t) = got.iter().find(|t| !want.contains(*t)) { let d = (0..n).find(|&d| !t.contains(&d) && incircle(v[t[0]], v[t[1]], v[t[2]], v[d]) > 0); return fail("delaunay:circle", format!("the circumcircle of triangle {:?} contains point {:?}", t, d)); }
    if let Some(t) = want.iter().find(|t| !got.contains(*t)) { return fail("delaunay:missing", format!("triangle {:?} has an empty circumcircle but is missing, {} of {} triangles found", t, got.len(), want.len())); }
    ctx.see_n("Delaunay triangles compared", want.len() as u64); ctx.see(&format!("{} point sets", name));
    // the circle test itself
    for _ in 0..6 {
        if n < 4 { break; }
        let q = ctx.rng.perm(n); let (a, b, c, d) = (q[0], q[1], q[2], q[3]);
        let t = Triangle::new([pts[a], pts[b], pts[c]]);
        let g = must("circum_circle_contains", || t.circum_circle_contains(pts[d]))?;
        let e = incircle(v[a], v[b], v[c], v[d]) > 0;
        check!(g == e, "delaunay:contains", "circle through {:?} {:?} {:?} contains {:?}: {}, expected {}", v[a], v[b], v[c], v[d], g, e);
        ctx.see(if g { "points inside circles" } else { "points outside circles" });
    }
    // a point on the circle is not strictly inside: squares whose coordinates and centres are exact
    let h = 2f64.powi(ctx.rng.range(-2, 6) as i32); let (x, y) = (ctx.rng.range(-8, 8) as f64 * h, ctx.rng.range(-8, 8) as f64 * h);
    let q = if ctx.rng.bool() { [(x, y), (x + h, y), (x + h, y + h), (x, y + h)] } else { [(x - h, y), (x, y - h), (x + h, y), (x, y + h)] };
    let p = ctx.rng.perm(4); let cv = |i: usize| ConstVector::from([q[p[i]].0, q[p[i]].1]);
    let t = Triangle::new([cv(0), cv(1), cv(2)]);
    for i in 0..4 { check!(!must("circum_circle_contains", || t.circum_circle_contains(cv(i)))?, "delaunay:on-circle", "corner {:?} of the square {:?} counts as strictly inside the circle through {:?} {:?} {:?}", q[p[i]], q, q[p[0]], q[p[1]], q[p[2]]); ctx.see("points on circles"); }
    Ok(())
}
