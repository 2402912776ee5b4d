//! C22 determinants, linear systems, LU, norms; C23 orthogonal factorisations; C24/C25 spectra; C26 lattice reduction.
//! All oracles are residuals computed here on plain nested vectors.
use crate::check;
use crate::core::*;
use crate::refmat::*;
use alg::lin_alg::Matrix;

pub type F = Vec<Vec<f64>>;
pub fn to(a: &F) -> Matrix<f64> { Matrix::from_array(a.clone()) }
pub fn from(m: &Matrix<f64>) -> F { let (r, c) = (**m).size(); (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect() }
pub fn mul(a: &F, b: &F) -> F { a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|k| r[k] * b[k][j]).sum()).collect()).collect() }
pub fn tr(a: &F) -> F { (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect() }
pub fn sub(a: &F, b: &F) -> F { a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| p - q).collect()).collect() }
pub fn norm(a: &F) -> f64 { a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt() }
pub fn eye(n: usize) -> F { (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect() }
pub fn finite(a: &F) -> bool { a.iter().flatten().all(|x| x.is_finite()) }
pub fn show(a: &F) -> String { format!("{}x{} [{}]", a.len(), a.get(0).map_or(0, |r| r.len()), a.iter().map(|r| r.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; ")) }
pub fn col(v: &[f64]) -> F { v.iter().map(|x| vec![*x]).collect() }
fn close(a: &F, b: &F, tol: f64) -> bool { finite(a) && norm(&sub(a, b)) <= tol }

pub fn gen_int(rng: &mut Rng, n: usize, m: usize) -> F {
    let e = *rng.pick(&[1i64, 2, 5, 9]); let d = rng.size(1, 3);
    (0..n).map(|_| (0..m).map(|_| if rng.chance(d, 3) { rng.range(-e, e) as f64 } else { 0.0 }).collect()).collect()
}
pub fn gen_f(rng: &mut Rng, n: usize, m: usize) -> F {
    match rng.below(3) { 0 => gen_int(rng, n, m), 1 => (0..n).map(|_| (0..m).map(|_| rng.f(-2.0, 2.0)).collect()).collect(), _ => (0..n).map(|_| (0..m).map(|_| rng.normal()).collect()).collect() }
}
/// random orthogonal matrix made here
pub fn ortho(rng: &mut Rng, n: usize) -> F {
    let mut q = eye(n);
    for _ in 0..2 * n { let v: Vec<f64> = (0..n).map(|_| rng.normal()).collect(); let s: f64 = v.iter().map(|x| x * x).sum(); if s < 1e-3 { continue; }
        for c in 0..n { let d: f64 = (0..n).map(|k| v[k] * q[k][c]).sum::<f64>() * 2.0 / s; for k in 0..n { q[k][c] -= d * v[k]; } } }
    q
}
fn to_rm(a: &F) -> RM { let mut r = RM::new(a.len(), a[0].len()); for i in 0..a.len() { for j in 0..a[0].len() { r.a[i][j] = a[i][j] as i128; } } r }
fn det_exact(a: &F) -> i128 { let d = det_mod(&to_rm(a), P1) as i128; if d > P1 as i128 / 2 { d - P1 as i128 } else { d } }
/// smallest singular value by an independent Jacobi iteration on A^T A (good to ~1e-8 relative to the largest)
pub fn jacobi(mut a: F) -> Vec<f64> {
    let n = a.len();
    for _ in 0..60 {
        let off: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).map(|(i, j)| a[i][j] * a[i][j]).sum();
        if off <= 1e-30 * norm(&a).powi(2) { break; }
        for p in 0..n { for q in p + 1..n { if a[p][q] == 0.0 { continue; }
            let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]); let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt()); let t = if th == 0.0 { 1.0 } else { t };
            let c = 1.0 / (t * t + 1.0).sqrt(); let s = t * c;
            for k in 0..n { let (x, y) = (a[k][p], a[k][q]); a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for k in 0..n { let (x, y) = (a[p][k], a[q][k]); a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } } }
    }
    let mut v: Vec<f64> = (0..n).map(|i| a[i][i]).collect(); v.sort_by(|x, y| x.partial_cmp(y).unwrap()); v
}
pub fn smin(a: &F) -> f64 { jacobi(mul(&tr(a), a))[0].max(0.0).sqrt() }

// ---------------------------------------------------------------- C22
/// determinant by an independent elimination with partial pivoting
fn det_ref(a: &F) -> f64 {
    let mut a = a.clone(); let n = a.len(); let mut d = 1.0;
    for c in 0..n { let p = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap(); if a[p][c] == 0.0 { return 0.0; } if p != c { a.swap(p, c); d = -d; } d *= a[c][c];
        for r in c + 1..n { let f = a[r][c] / a[c][c]; if f != 0.0 { for k in c..n { let x = a[c][k]; a[r][k] -= f * x; } } } }
    d
}
/// well-conditioned systems of up to 110 unknowns
fn c22_large(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.size(17, 110); let sc = (2f64).powi(*ctx.rng.pick(&[0, 0, -3, 3]));
    let q = ortho(&mut ctx.rng, n); let p = ctx.rng.perm(n);
    let kind = ctx.rng.below(3);
    let a: F = match kind {
        0 => { let d: Vec<f64> = (0..n).map(|_| ctx.rng.f(0.5, 2.0)).collect(); (0..n).map(|i| (0..n).map(|j| sc * q[i][p[j]] * d[j]).collect()).collect() }
        1 => (0..n).map(|i| (0..n).map(|j| sc * (if j == p[i] { 2.0 * n as f64 } else { 0.0 } + q[i][j])).collect()).collect(),
        _ => { let mut a = gen_f(&mut ctx.rng, n, n); for i in 0..n { let s: f64 = a[i].iter().map(|x| x.abs()).sum(); a[i][i] = if ctx.rng.bool() { s + 0.5 } else { -s - 0.5 }; } a }
    };
    ctx.input(format!("large system {}", show(&a)), true); ctx.see("systems of 17 to 110 unknowns");
    let b: F = (0..n).map(|_| vec![ctx.rng.normal()]).collect();
    let x = from(&must("solve", || to(&a).solve(to(&b)))?);
    let res = norm(&sub(&mul(&a, &x), &b));
    check!(finite(&x) && res <= 1e-9 * (norm(&a) * norm(&x) + norm(&b)), "solve", "residual {} for a system of {} unknowns", res, n);
    let d = det_ref(&a);
    if d.abs() > 1e-200 && d.abs() < 1e200 { let g = must("det", || to(&a).det())?; check!((g - d).abs() <= 1e-7 * d.abs(), "det", "det is {} but elimination with pivoting gives {} (size {})", g, d, n); ctx.see("determinants of size 17 to 110"); }
    if kind == 2 {
        let mut m = to(&a); must("lu", || m.lu())?; let f = from(&m);
        let lo: F = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i { f[i][j] } else { 0.0 }).collect()).collect();
        let up: F = (0..n).map(|i| (0..n).map(|j| if j >= i { f[i][j] } else { 0.0 }).collect()).collect();
        let e = norm(&sub(&mul(&lo, &up), &a));
        check!(finite(&f) && e <= 1e-9 * norm(&a), "lu", "the factors of a matrix of size {} differ from it by {}", n, e);
    }
    Ok(())
}
pub fn c22(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 150) { return c22_large(ctx); }
    let n = if ctx.rng.chance(1, 25) { ctx.rng.size(8, 16) } else { ctx.rng.size(1, 7) };
    let a = { let mut a = gen_int(&mut ctx.rng, n, n); if ctx.rng.chance(1, 4) { let p = ctx.rng.perm(n); for i in 0..n { a[i][p[i]] += 3.0; } } if ctx.rng.chance(1, 5) && n > 1 { let (i, j) = (ctx.rng.below(n), ctx.rng.below(n)); let k = ctx.rng.range(-2, 2) as f64; if i != j { a[i] = a[j].iter().map(|x| x * k).collect(); } } a };
    let x0: F = (0..n).map(|_| vec![ctx.rng.range(-9, 9) as f64]).collect();
    ctx.input(format!("A={} x={:?}", show(&a), x0), n > 1);
    let had: f64 = a.iter().map(|r| r.iter().map(|x| x * x).sum::<f64>().sqrt().max(1.0)).product();
    if had > 5e17 { ctx.inconclusive = true; return Ok(()); }
    let d = det_exact(&a) as f64;
    if n > 7 { ctx.see("determinants of matrices of size 8 to 16"); }
    let g = must("det", || to(&a).det())?;
    check!((g - d).abs() <= 1e-9 * had, "det", "det is {} but the exact determinant is {}", g, d);
    let big = to(&a);
    let g = must("det of a view", || big[(.., ..)].det())?;
    check!((g - d).abs() <= 1e-9 * had, "det", "det of the view is {} but the exact determinant is {}", g, d);
    let g = must("det of the transpose", || (*big).transpose().det())?;
    check!((g - d).abs() <= 1e-9 * had, "det", "det of the transpose is {} but the exact determinant is {}", g, d);
    ctx.see(if d == 0.0 { "singular matrices" } else { "regular matrices" });
    if a[0][0] == 0.0 && d != 0.0 { ctx.see("regular matrices with zero first pivot"); }
    if n > 1 { let w = gen_f(&mut ctx.rng, n, n - 1); check!(must("det non-square", || to(&w).det())? == 0.0, "det:non-square", "non-zero"); }
    // systems with an exact integer solution
    if d != 0.0 {
        let b = mul(&a, &x0);
        let x = from(&must("solve", || to(&a).solve(to(&b)))?);
        check!(finite(&x), "solve", "the solution contains {:?} although det = {}", x, d);
        let res = norm(&sub(&mul(&a, &x), &b));
        check!(res <= 1e-9 * (norm(&a) * norm(&x) + norm(&b) + 1.0), "solve", "residual {} for solution {:?}, exact solution {:?}", res, x, x0);
        let s = smin(&a);
        if s > 1e-4 * (1.0 + norm(&a)) { check!(norm(&sub(&x, &x0)) <= 1e-7 * (1.0 + norm(&x0)), "solve", "solution {:?}, exact {:?}", x, x0); ctx.see("solutions compared with the exact one"); }
        // real right-hand side and a view of a larger matrix
        let bf: F = (0..n).map(|_| vec![ctx.rng.normal()]).collect();
        let x = from(&must("solve", || to(&a).solve(to(&bf)))?);
        let res = norm(&sub(&mul(&a, &x), &bf));
        check!(finite(&x) && res <= 1e-9 * (norm(&a) * norm(&x) + norm(&bf)), "solve", "residual {} for right-hand side {:?}", res, bf);
        ctx.see_n("systems solved", 2);
    }
    // the same at other scales: multiplying by a power of two commutes with rounding
    if ctx.rng.chance(1, 3) {
        let sc = (2f64).powi(*ctx.rng.pick(&[-40, -20, -10, -3, 3, 10, 20, 40])); let scn = sc.powi(n as i32);
        let b: F = a.iter().map(|r| r.iter().map(|x| x * sc).collect()).collect();
        let g = must("det", || to(&b).det())?;
        check!((g - d * scn).abs() <= 1e-9 * had * scn, "det", "det of A scaled by {} is {} but the exact determinant is {}", sc, g, d * scn);
        if d != 0.0 { let y = mul(&b, &x0); let x = from(&must("solve", || to(&b).solve(to(&y)))?);
            let res = norm(&sub(&mul(&b, &x), &y));
            check!(finite(&x) && res <= 1e-9 * (norm(&b) * norm(&x) + norm(&y)), "solve", "residual {} for A scaled by {}", res, sc); }
        ctx.see("systems at other scales");
    }
    // LU on matrices for which it exists and is stable
    let mut l = gen_f(&mut ctx.rng, n, n);
    for i in 0..n { let s: f64 = l[i].iter().map(|x| x.abs()).sum(); l[i][i] = if ctx.rng.bool() { s + 0.5 } else { -s - 0.5 }; }
    if ctx.rng.chance(1, 4) { let sc = (2f64).powi(*ctx.rng.pick(&[-30, -10, 10, 30])); for r in l.iter_mut() { for x in r.iter_mut() { *x *= sc; } } }
    let mut m = to(&l);
    must("lu", || m.lu())?;
    let f = from(&m);
    let lo: F = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i { f[i][j] } else { 0.0 }).collect()).collect();
    let up: F = (0..n).map(|i| (0..n).map(|j| if j >= i { f[i][j] } else { 0.0 }).collect()).collect();
    check!(close(&mul(&lo, &up), &l, 1e-10 * norm(&l)), "lu", "the factors of {} multiply to {}", show(&l), show(&mul(&lo, &up)));
    // LU of a window leaves the rest alone
    let (r, c, e) = (ctx.rng.below(3), ctx.rng.below(3), ctx.rng.below(3));
    let mut big: F = gen_f(&mut ctx.rng, n + r + e, n + c + e); for i in 0..n { for j in 0..n { big[r + i][c + j] = l[i][j]; } }
    let mut mb = to(&big); must("lu of a view", || mb[(r..r + n, c..c + n)].lu())?;
    let got = from(&mb);
    for i in 0..big.len() { for j in 0..big[0].len() { let w = if i >= r && i < r + n && j >= c && j < c + n { f[i - r][j - c] } else { big[i][j] }; check!((got[i][j] - w).abs() <= 1e-12 * (1.0 + w.abs()), "lu:view", "entry ({},{}) is {} instead of {}", i, j, got[i][j], w); } }
    // norms
    let (h, w) = if ctx.rng.chance(1, 20) { (ctx.rng.size(1, 50), ctx.rng.size(1, 50)) } else { (ctx.rng.size(1, 6), ctx.rng.size(1, 6)) };
    let mut q = gen_f(&mut ctx.rng, h, w); if ctx.rng.chance(1, 4) { let sc = (2f64).powi(*ctx.rng.pick(&[-40, -20, 20, 40])); for r in q.iter_mut() { for x in r.iter_mut() { *x *= sc; } } } let m = to(&q);
    let one = (0..w).map(|j| (0..h).map(|i| q[i][j].abs()).sum::<f64>()).fold(0.0, f64::max);
    let inf = (0..h).map(|i| (0..w).map(|j| q[i][j].abs()).sum::<f64>()).fold(0.0, f64::max);
    let t = 1e-12 * norm(&q);
    check!((m.one_norm() - one).abs() <= t && (m.inf_norm() - inf).abs() <= t && (m.frobenius_norm() - norm(&q)).abs() <= t, "norm", "norms of {}: {} {} {}", show(&q), m.one_norm(), m.inf_norm(), m.frobenius_norm());
    let j = ctx.rng.below(w);
    check!((m[(.., j)].two_norm() - norm(&col(&(0..h).map(|i| q[i][j]).collect::<Vec<_>>()))).abs() <= t, "norm", "2-norm of column {} of {}", j, show(&q));
    Ok(())
}

// ---------------------------------------------------------------- C23
fn refl(n: usize, off: usize, v: &F, b: f64) -> F { let mut p = eye(n); for i in 0..v.len() { for j in 0..v.len() { p[off + i][off + j] -= b * v[i][0] * v[j][0]; } } p }
fn orth(what: &str, q: &F) -> Res { let e = norm(&sub(&mul(&tr(q), q), &eye(q[0].len()))); check!(finite(q) && e <= 1e-8, format!("orthogonal:{}", what), "{}: Q^T Q differs from the identity by {}: Q = {}", what, e, show(q)); Ok(()) }
pub fn sym(rng: &mut Rng, n: usize) -> F {
    let mut a = gen_f(rng, n, n);
    match rng.below(5) {
        0 => for i in 0..n { for j in 0..n { if (i as i64 - j as i64).abs() > 1 { a[i][j] = 0.0; } } },
        1 => { let k = rng.below(n + 1); for i in 0..n { for j in 0..n { if (i < k) != (j < k) { a[i][j] = 0.0; } } } }
        2 => { // graph Laplacian
            for i in 0..n { for j in 0..n { a[i][j] = if i < j && rng.chance(1, 2) { -1.0 } else { 0.0 }; } }
            for i in 0..n { for j in 0..i { a[i][j] = a[j][i]; } }
            for i in 0..n { a[i][i] = -(0..n).filter(|j| *j != i).map(|j| a[i][j]).sum::<f64>(); } return a; }
        _ => {}
    }
    for i in 0..n { for j in 0..i { a[i][j] = a[j][i]; } }
    a
}
pub fn scaled(a: &mut F, s: f64) { for r in a.iter_mut() { for x in r.iter_mut() { *x *= s; } } }
pub fn a_scale(rng: &mut Rng) -> f64 { if rng.chance(3, 4) { 1.0 } else { 10f64.powi(rng.range(-5, 6) as i32) * rng.f(0.5, 2.0) } }
/// error allowed for data of norm x: relative, with a floor where the thresholds of the library are absolute
fn rel(x: f64) -> f64 { x + 1e-5 }
pub fn c23(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 25) { ctx.rng.size(10, 24) } else if ctx.rng.chance(1, 200) { ctx.rng.size(25, 70) } else { ctx.rng.size(1, 9) };
    // Householder vectors
    let mut v: Vec<f64> = (0..n).map(|_| ctx.rng.normal()).collect();
    match ctx.rng.below(6) { 0 => for x in v.iter_mut().skip(1) { *x = 0.0; }, 1 => v[0] = 0.0, 2 => v.iter_mut().for_each(|x| *x = x.round()), 3 => { let k = ctx.rng.below(n); let s = *ctx.rng.pick(&[-1.0, 1.0, -3.0, 0.0]); v = vec![0.0; n]; v[k] = s; } _ => {} }
    let mut a = gen_f(&mut ctx.rng, n, n);
    let mut s = sym(&mut ctx.rng, n);
    // tails or whole vectors whose squares underflow
    if ctx.rng.chance(1, 12) { let e = 10f64.powi(-(ctx.rng.range(5, 170) as i32)); let all = ctx.rng.bool(); for (i, x) in v.iter_mut().enumerate() { if i > 0 || all { *x *= e; } } ctx.see("vectors with tiny entries"); }
    let (sv, sa, ss) = (a_scale(&mut ctx.rng), a_scale(&mut ctx.rng), a_scale(&mut ctx.rng));
    for x in v.iter_mut() { *x *= sv; } scaled(&mut a, sa); scaled(&mut s, ss);
    if sv * sa * ss != 1.0 { ctx.see("cases at other scales"); } if n > 24 { ctx.see("matrices of size 25 to 70"); }
    ctx.input(format!("v={:?} A={} S={}", v, show(&a), show(&s)), n > 2);
    let x = col(&v);
    let (h, b) = if ctx.rng.bool() { must("householder", || to(&x).householder_vec())? } else { must("householder", || to(&x)[(.., 0)].householder_vec())? };
    let h = from(&h);
    check!((h[0][0] - 1.0).abs() < 1e-12, "householder", "first entry {} for {:?}", h[0][0], v);
    let p = refl(n, 0, &h, b); orth("householder", &p)?;
    let px = mul(&p, &x); let big = v.iter().fold(0.0f64, |m, y| m.max(y.abs())); let big = if big > 0.0 { big } else { 1.0 };
    let len = big * v.iter().map(|y| (y / big) * (y / big)).sum::<f64>().sqrt(); let mut e = vec![0.0; n]; e[0] = len;
    check!(close(&px.iter().map(|y| vec![y[0] / big]).collect(), &e.iter().map(|y| vec![y / big]).collect(), 1e-9 * (1.0 + len / big)), "householder", "the reflection sends {:?} to {:?}", v, px);
    ctx.see("reflections checked");
    // Givens
    let (p, q) = (*ctx.rng.pick(&[0.0, 1.0, -1.0, v[0], 1e-3 * v[0], 1e-14]), *ctx.rng.pick(&[0.0, 1.0, -1.0, v[n - 1], 2.0, 1e-13, -1e-15]));
    let (c, s1) = Matrix::<f64>::givens_rotation(p, q);
    check!((c * c + s1 * s1 - 1.0).abs() < 1e-9 && (s1 * p + c * q).abs() < 1e-9 * (p.abs() + q.abs()).max(1e-300), "givens", "rotation of ({}, {}) is ({}, {})", p, q, c, s1);
    // Hessenberg form: same characteristic data, zero below the subdiagonal, stays inside its window
    let mut m = to(&a); must("hessenberg", || m.hessenberg_form())?; let f = from(&m);
    for i in 0..n { for j in 0..n { if i > j + 1 { check!(f[i][j].abs() <= 1e-8 * rel(norm(&a)), "hessenberg", "entry ({},{}) of the Hessenberg form of {} is {}", i, j, show(&a), f[i][j]); } } }
    similar("hessenberg", &a, &f)?;
    // Francis step on an unreduced Hessenberg matrix, with its operator
    if n >= 3 {
        let mut g = f.clone();
        for i in 0..n { for j in 0..n { if i > j + 1 { g[i][j] = 0.0; } else if i == j + 1 && g[i][j].abs() < 1e-3 { g[i][j] = 1.0; } } }
        let mut m = to(&g); let op = from(&must("francis", || m[(.., ..)].francis_step_with_op())?); let t = from(&m);
        orth("francis operator", &op)?;
        check!(close(&mul(&g, &op), &mul(&op, &t), 1e-7 * rel(norm(&g))), "francis:operator", "A·Q differs from Q·A' by {} for A={}, Q={}", norm(&sub(&mul(&g, &op), &mul(&op, &t))), show(&g), show(&op));
        let mut m2 = to(&g); must("francis", || m2.francis_step())?;
        check!(close(&from(&m2), &t, 1e-9 * rel(norm(&g))), "francis", "the step with and without operator differ");
        for i in 0..n { for j in 0..n { if i > j + 1 { check!(t[i][j].abs() <= 1e-7 * rel(norm(&g)), "francis:hessenberg", "entry ({},{}) = {} after a step on {}", i, j, t[i][j], show(&g)); } } }
        ctx.see("francis steps checked");
    }
    // symmetric tridiagonalisation and QR, with operators
    let mut m = to(&s); must("tridiagonalization", || m.householder_tridiagonalization(false))?; let t = tri(&from(&m));
    check!(close(&tr(&t), &t, 1e-9 * rel(norm(&s))), "tridiagonal", "not symmetric");
    similar("tridiagonal", &s, &t)?;
    if n >= 3 {
        let mut m = to(&s); must("tridiagonalization", || m.householder_tridiagonalization(true))?;
        let mut q = eye(n); let w = from(&must("extract", || m[(2.., ..n - 2)].extract_householder_vecs())?);
        for i in 1..n { for j in 1..n { q[i][j] = w[i - 1][j - 1]; } }
        orth("tridiagonalisation operator", &q)?;
        let t = tri(&from(&m));
        check!(close(&mul(&q, &s), &mul(&t, &q), 1e-8 * rel(norm(&s))), "tridiagonal:operator", "Q·S differs from T·Q by {} for S={}", norm(&sub(&mul(&q, &s), &mul(&t, &q))), show(&s));
        ctx.see("tridiagonalisations checked");
    }
    let mut m = to(&s); let op = from(&must("symmetric qr", || m[(.., ..)].symmetric_qr(true))?); let t = from(&m);
    orth("symmetric QR operator", &op)?;
    check!(close(&mul(&op, &s), &mul(&t, &op), 1e-7 * rel(norm(&s))), "symmetric-qr:operator", "Q·S differs from T·Q by {} for S={}", norm(&sub(&mul(&op, &s), &mul(&t, &op))), show(&s));
    ctx.see("symmetric QR operators checked");
    // QR with operator on a matrix with real spectrum
    let mut m = to(&s); let op = from(&must("qr", || m[(.., ..)].qr_with_op())?); let t = from(&m);
    orth("QR operator", &op)?;
    check!(close(&mul(&s, &op), &mul(&op, &t), 1e-7 * rel(norm(&s))), "qr:operator", "A·Q differs from Q·T by {} for A={}", norm(&sub(&mul(&s, &op), &mul(&op, &t))), show(&s));
    // Gram-Schmidt on independent columns
    let k = ctx.rng.size(1, n);
    let g = gen_f(&mut ctx.rng, n, k);
    if smin(&g) > 1e-2 {
        let q = from(&must("gram-schmidt", || to(&g).gram_schmidt())?);
        orth("gram-schmidt", &q)?;
        let r = mul(&tr(&q), &g);
        check!(close(&mul(&q, &r), &g, 1e-8 * rel(norm(&g))), "gram-schmidt:span", "the columns of {} are not spanned by {}", show(&g), show(&q));
        for i in 0..k { for j in 0..i { check!(r[i][j].abs() <= 1e-8 * rel(norm(&g)), "gram-schmidt:flag", "column {} is not in the span of the first {} outputs", j, j + 1); } check!(r[i][i] > 0.0, "gram-schmidt:direction", "column {} reversed", i); }
        let u = from(&must("gram-schmidt", || to(&g).gram_schmidt_without_normalize())?);
        for j in 0..k { let d: f64 = r[j][j]; for i in 0..n { check!((u[i][j] - q[i][j] * d).abs() <= 1e-8 * rel(norm(&g)), "gram-schmidt:unnormalised", "column {} of {} without normalisation is {}", j, show(&g), show(&u)); } }
        ctx.see("gram-schmidt bases checked");
    }
    // random orthogonal matrices and unit vectors
    orth("random_orthogonal", &from(&must("random_orthogonal", || Matrix::<f64>::random_orthogonal(n))?))?;
    let u = from(&must("random_unit_vec", || Matrix::<f64>::random_unit_vec(n))?);
    check!((norm(&u) - 1.0).abs() < 1e-9, "random_unit_vec", "norm {}", norm(&u));
    let rs = from(&must("random_symmetric", || Matrix::<f64>::random_sparse_symmetric(n, n))?);
    check!(rs == tr(&rs), "random_symmetric", "{}", show(&rs));
    Ok(())
}
fn tri(a: &F) -> F { (0..a.len()).map(|i| (0..a.len()).map(|j| if (i as i64 - j as i64).abs() <= 1 { a[i][j] } else { 0.0 }).collect()).collect() }
/// equal traces of powers and equal Frobenius norm (orthogonal similarity)
fn similar(what: &str, a: &F, b: &F) -> Res {
    check!(finite(b), format!("{}:similar", what), "{} became {}", show(a), show(b));
    let na = norm(a);
    check!((norm(b) - na).abs() <= 1e-8 * rel(na), format!("{}:similar", what), "Frobenius norm {} became {} for {}", na, norm(b), show(a));
    let (mut a2, mut b2) = (a.clone(), b.clone()); scaled(&mut a2, 1.0 / rel(na)); scaled(&mut b2, 1.0 / rel(na)); let (mut p, mut q) = (a2.clone(), b2.clone());
    for k in 1..=a.len() { let (x, y): (f64, f64) = ((0..a.len()).map(|i| p[i][i]).sum(), (0..a.len()).map(|i| q[i][i]).sum());
        check!((x - y).abs() <= 1e-8, format!("{}:similar", what), "trace of power {} was {} and became {} (divided by the norm) for {}", k, x, y, show(a)); p = mul(&p, &a2); q = mul(&q, &b2); }
    Ok(())
}

// ---------------------------------------------------------------- C24, C25
fn eig(ctx: &mut Ctx, what: &str, a: &F, exp: &[f64], got: &F, tol: f64) -> Res {
    ctx.see_n("eigenvalues compared", exp.len() as u64);
    check!(got.len() == exp.len() && got[0].len() == 1, format!("{}:count", what), "{} eigenvalues reported for a matrix of size {}", got.len(), exp.len());
    for i in 0..exp.len() { check!((got[i][0] - exp[i]).abs() <= tol, format!("{}:values", what), "spectrum of {} reported as {:?}, exact {:?}", show(a), got, exp); }
    Ok(())
}
fn evec(ctx: &mut Ctx, what: &str, a: &F, l: f64, v: &[f64], tol: f64) -> Res {
    ctx.see("eigenvectors checked");
    let v = col(v);
    check!(finite(&v) && (norm(&v) - 1.0).abs() < 1e-6, format!("{}:vector", what), "eigenvector of {} for {} is {:?}", show(a), l, v);
    let r = norm(&sub(&mul(a, &v), &v.iter().map(|x| vec![x[0] * l]).collect()));
    check!(r <= tol, format!("{}:vector", what), "|A v - lambda v| = {} for lambda = {}, v = {:?}, A = {}", r, l, v, show(a));
    Ok(())
}
fn vcol(m: &F, j: usize) -> Vec<f64> { m.iter().map(|r| r[j]).collect() }
fn spread(rng: &mut Rng, n: usize, distinct: bool) -> Vec<f64> {
    let mut d: Vec<f64> = match rng.below(4) {
        0 => { let mut v: Vec<f64> = (-15i64.max(n as i64)..=15.max(n as i64)).map(|x| x as f64).collect(); rng.shuffle(&mut v); v.truncate(n); v }
        1 => (0..n).map(|i| i as f64 + 1.0).collect(),
        2 if !distinct => (0..n).map(|_| rng.range(-2, 2) as f64).collect(),
        _ => { let mut x = rng.f(-6.0, 0.0); (0..n).map(|_| { x += rng.f(0.3, 2.0); x }).collect() }
    };
    rng.shuffle(&mut d); d
}
pub fn c24(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 25) { ctx.rng.size(9, 14) } else if ctx.rng.chance(1, 150) { ctx.rng.size(15, 36) } else { ctx.rng.size(1, 8) };
    let d = spread(&mut ctx.rng, n, true);
    // A = P D P^-1 with P a product of unimodular row operations (its inverse is known exactly)
    let (mut p, mut pi) = (eye(n), eye(n));
    let kind = ctx.rng.below(5);
    if n > 1 && kind > 0 { for _ in 0..ctx.rng.size(1, 2 * n) {
        let (i, j) = (ctx.rng.below(n), ctx.rng.below(n)); if i == j { continue; }
        let k = ctx.rng.range(-1, 1) as f64;
        for c in 0..n { p[i][c] += k * p[j][c]; } for r in 0..n { pi[r][j] -= k * pi[r][i]; }
    } }
    if kind == 4 || (n > 14 && kind != 1) { if n > 14 { p = eye(n); pi = eye(n); } let q = ortho(&mut ctx.rng, n); p = mul(&q, &p); pi = mul(&pi, &tr(&q)); }
    let mut a: F = mul(&p, &(0..n).map(|i| (0..n).map(|j| pi[i][j] * d[i]).collect()).collect());
    if kind == 1 { a = eye(n); for i in 0..n { a[i][i] = d[i]; for j in i + 1..n { a[i][j] = ctx.rng.range(-2, 2) as f64; } } p = eye(n); pi = eye(n); if n > 4 { p[0][0] = 30.0; } }
    let mut e = d.clone(); e.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let cond = norm(&p) * norm(&pi) * if kind == 1 { 40.0 } else { 1.0 };
    if cond > 2e3 || norm(&a) > 300.0 { ctx.input(format!("A={} eigenvalues {:?}", show(&a), e), false); ctx.inconclusive = true; return Ok(()); }
    let sc = a_scale(&mut ctx.rng); scaled(&mut a, sc); for x in e.iter_mut() { *x *= sc; }
    ctx.input(format!("A={} eigenvalues {:?}", show(&a), e), n > 1 && kind > 0);
    if sc != 1.0 { ctx.see("cases at other scales"); } if n > 14 { ctx.see("matrices of size 15 to 36"); }
    let tol = 1e-9 * cond * rel(norm(&a));
    let s = from(&must("spectrum", || to(&a).spectrum())?);
    eig(ctx, "spectrum", &a, &e, &s, tol)?;
    let (s, v) = must("spectrum with vectors", || to(&a).spectrum_with_invariant_space())?;
    let (s, v) = (from(&s), from(&v));
    eig(ctx, "spectrum-vectors", &a, &e, &s, tol)?;
    check!(v.len() == n && v[0].len() == n, "spectrum-vectors:shape", "{}x{}", v.len(), v[0].len());
    for j in 0..n { evec(ctx, "spectrum-vectors", &a, e[j], &vcol(&v, j), 2.0 * tol + 1e-7 * sc.min(1.0).max(1e-3))?; }
    Ok(())
}
pub fn c25(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 25) { ctx.rng.size(11, 30) } else if ctx.rng.chance(1, 250) { ctx.rng.size(31, 60) } else { ctx.rng.size(1, 10) };
    let (mut a, mut e) = if ctx.rng.bool() {
        let d = spread(&mut ctx.rng, n, false);
        let q = match ctx.rng.below(4) { 0 => eye(n), 1 => { let p = ctx.rng.perm(n); (0..n).map(|i| (0..n).map(|j| if p[i] == j { 1.0 } else { 0.0 }).collect()).collect() } _ => ortho(&mut ctx.rng, n) };
        let mut a = mul(&q, &tr(&q).iter().enumerate().map(|(i, r)| r.iter().map(|x| x * d[i]).collect()).collect());
        for i in 0..n { for j in 0..i { a[i][j] = a[j][i]; } }
        let mut e = d; e.sort_by(|x, y| x.partial_cmp(y).unwrap()); (a, e)
    } else { let a = sym(&mut ctx.rng, n); let e = jacobi(a.clone()); (a, e) };
    let sc = a_scale(&mut ctx.rng); scaled(&mut a, sc); for x in e.iter_mut() { *x *= sc; }
    if sc != 1.0 { ctx.see("cases at other scales"); } if n > 30 { ctx.see("matrices of size 31 to 60"); }
    ctx.input(format!("S={} eigenvalues {:?}", show(&a), e), n > 1 && (0..n).any(|i| (0..n).any(|j| i != j && a[i][j] != 0.0)));
    let sc = rel(norm(&a));
    let tol = 1e-7 * sc;
    let s = from(&must("spectrum", || to(&a).spectrum_symmetric())?);
    eig(ctx, "symmetric", &a, &e, &s, tol)?;
    let gap = |i: usize| (0..n).filter(|j| *j != i).map(|j| (e[j] - e[i]).abs()).fold(f64::INFINITY, f64::min);
    let k = ctx.rng.size(1, n); let t = ctx.rng.below(n);
    let (s1, v1) = must("spectrum with vectors", || to(&a).spectrum_with_invariant_space_symmetric())?;
    let (s2, v2) = must("spectrum with n vectors", || to(&a).spectrum_with_n_smallest_eigenvecs_symmetric(k))?;
    let (l3, v3) = must("spectrum with one vector", || to(&a).spectrum_with_n_th_eigenvec_symmetric(t))?;
    let (v1, v2, v3) = (from(&v1), from(&v2), from(&v3));
    eig(ctx, "symmetric-vectors", &a, &e, &from(&s1), tol)?;
    eig(ctx, "symmetric-smallest", &a, &e, &from(&s2), tol)?;
    check!((l3 - e[t]).abs() <= tol, "symmetric-nth:values", "eigenvalue {} reported as {}, exact {:?}", t, l3, e);
    check!(v1.len() == n && v1[0].len() == n && v2.len() == n && v2[0].len() == k && v3.len() == n && v3[0].len() == 1, "symmetric:shape", "{} {} {}", v1[0].len(), v2[0].len(), v3[0].len());
    for j in 0..n { evec(ctx, "symmetric-vectors", &a, e[j], &vcol(&v1, j), 1e-6 * sc)?; }
    for j in 0..k { evec(ctx, "symmetric-smallest", &a, e[j], &vcol(&v2, j), 1e-6 * sc)?; }
    evec(ctx, "symmetric-nth", &a, e[t], &vcol(&v3, 0), 1e-6 * sc)?;
    for (what, v, k) in [("symmetric-vectors", &v1, n), ("symmetric-smallest", &v2, k)] { for i in 0..k { for j in 0..i {
        let d: f64 = (0..n).map(|r| v[r][i] * v[r][j]).sum(); check!(d.abs() < 1e-6, format!("{}:orthogonal", what), "eigenvectors {} and {} of {} have product {}", i, j, show(&a), d);
        ctx.see(if gap(i).min(gap(j)) > 0.05 * sc / (1.0 + n as f64) { "pairs of eigenvectors" } else { "pairs of eigenvectors of close eigenvalues" });
    } } }
    // the general algorithm on the same matrix
    let s = from(&must("spectrum", || to(&a).spectrum())?);
    eig(ctx, "general-on-symmetric", &a, &e, &s, 1e-6 * sc)?;
    Ok(())
}

// ---------------------------------------------------------------- C26
/// B = A U with U integral of determinant +-1, everything verified exactly: the columns span the same lattice
fn same_lattice(a: &RM, b: &RM) -> bool {
    let Some(u) = solve_mod(a, b, P1) else { return false };
    // a coefficient that is not integral lifts to a huge number: reductions of these bases have small ones
    if u.a.iter().flatten().any(|x| x.abs() > 1 << 50) { return false; }
    let d = det_mod(&u, P1);
    a.mul(&u) == *b && (d == 1 || d == P1 - 1)
}
pub fn c26(ctx: &mut Ctx) -> Res {
    let k = if ctx.rng.chance(1, 20) { ctx.rng.size(7, 12) } else if ctx.rng.chance(1, 300) { ctx.rng.size(13, 20) } else { ctx.rng.size(1, 6) }; let n = k + ctx.rng.below(3);
    let mut a = gen_int(&mut ctx.rng, n, k);
    match ctx.rng.below(3) {
        0 => for i in 0..k { a[i][i] += 7.0; },
        1 => { let (e, s) = (gen_int(&mut ctx.rng, n, k), ctx.rng.range(2, 40) as f64); for i in 0..n { for j in 0..k { a[i][j] = s * if i == j { 1.0 } else { 0.0 } + e[i][j]; } } if k > 1 { for _ in 0..k { let (x, y) = (ctx.rng.below(k), ctx.rng.below(k)); let c = ctx.rng.range(-6, 6) as f64; if x != y { for i in 0..n { a[i][x] += c * a[i][y]; } } } } }
        _ => {}
    }
    if norm(&a) > 3e3 || rank_q(&to_rm(&a)) < k { ctx.inconclusive = true; return Ok(()); }
    let delta = *ctx.rng.pick(&[0.3, 0.5, 0.75, 0.9, 0.99]);
    ctx.input(format!("basis (columns) {} delta {}", show(&a), delta), k > 1);
    let b = from(&must("lll", || to(&a).lll_lattice_reduce(delta))?);
    check!(b.len() == n && b[0].len() == k, "lll:shape", "{}", show(&b));
    check!(b.iter().flatten().all(|x| x.is_finite() && (x - x.round()).abs() < 1e-6), "lll:lattice", "output {} is not integral", show(&b));
    let int = |m: &F| -> RM { let mut r = RM::new(n, k); for i in 0..n { for j in 0..k { r.a[i][j] = m[i][j].round() as i128; } } r };
    check!(same_lattice(&int(&a), &int(&b)), "lll:lattice", "{} and its reduction {} span different lattices", show(&a), show(&b));
    // reducedness, with an independent orthogonalisation
    let mut o: Vec<Vec<f64>> = vec![]; let mut nn: Vec<f64> = vec![];
    let eps = 1e-6;
    for i in 0..k {
        let bi = vcol(&b, i); let mut w = bi.clone(); let mut last = 0.0;
        for j in 0..i { let mu: f64 = bi.iter().zip(&o[j]).map(|(x, y)| x * y).sum::<f64>() / nn[j]; for r in 0..n { w[r] -= mu * o[j][r]; } check!(mu.abs() <= 0.5 + eps, "lll:size-reduced", "coefficient ({},{}) of {} is {}", i, j, show(&b), mu); last = mu; }
        let q: f64 = w.iter().map(|x| x * x).sum();
        if i > 0 { check!(q >= (delta - last * last) * nn[i - 1] - eps * nn[i - 1], "lll:lovasz", "condition fails at {} for {} with delta {}", i, show(&b), delta); }
        o.push(w); nn.push(q);
    }
    ctx.see("reduced bases checked");
    if int(&a) != int(&b) { ctx.see("bases that changed"); }
    if k > 6 { ctx.see("lattices of rank 7 to 12"); }
    Ok(())
}
