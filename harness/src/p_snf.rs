//! C05 Smith normal form certificate; C06 rank of a matrix over the rationals.
use crate::check;
use crate::core::*;
use crate::refmat::*;
use alg::commutative::{PID, Rational};
use alg::lin_alg::Matrix;
use std::fmt::{Debug, Display};

pub trait Int: PID + Debug + Display + Copy { fn of(x: i128) -> Self; fn to(self) -> i128; }
impl Int for i64 { fn of(x: i128) -> i64 { x as i64 } fn to(self) -> i128 { self as i128 } }
impl Int for i32 { fn of(x: i128) -> i32 { x as i32 } fn to(self) -> i128 { self as i128 } }
impl Int for i128 { fn of(x: i128) -> i128 { x } fn to(self) -> i128 { self } }
pub fn to_mat<T: Int>(r: &RM) -> Matrix<T> { Matrix::from_array(r.a.iter().map(|v| v.iter().map(|&x| T::of(x)).collect()).collect()) }
pub fn from_mat<T: Int>(m: &Matrix<T>) -> RM { let (n, k) = (**m).size(); let mut r = RM::new(n, k); for i in 0..n { for j in 0..k { r.a[i][j] = m[(i, j)].to(); } } r }

/// an overflow of i64 is only excused where the coefficients do grow: the same computation in i128 overflows too, or ends with large transformations
pub fn grows(maps: &[RM]) -> bool {
    maps.iter().any(|a| match guard(|| to_mat::<i128>(a).smith_normal_form()) {
        Ok((ri, r, d, c, ci)) => [&ri, &r, &d, &c, &ci].iter().any(|x| from_mat(x).a.iter().flatten().any(|y| y.abs() > 1 << 20)),
        Err(e) => e.contains("overflow") && a.n * a.m > 6,
    })
}
/// the same excuse for eliminations over the rationals: some numerator or denominator of the elimination in i128 is large
pub fn rational_grows(a: &RM, sc: &[(i64, i64)]) -> bool {
    fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
    let red = |p: i128, q: i128| { let g = gcd(p, q).max(1); let s = if q < 0 { -1 } else { 1 }; (s * p / g, s * q / g) };
    let big = |x: (i128, i128)| x.0.abs() > 1 << 15 || x.1.abs() > 1 << 15;
    for transposed in [false, true] {
        let mut m: Vec<Vec<(i128, i128)>> = (0..a.n).map(|i| (0..a.m).map(|j| { let (u, v) = sc.get(i).copied().unwrap_or((1, 1)); red(a.a[i][j] * u as i128, v as i128) }).collect()).collect();
        if transposed { m = (0..a.m).map(|j| m.iter().map(|r| r[j]).collect()).collect(); }
        let mut r = 0;
        for k in 0..m.get(0).map_or(0, |r| r.len()) {
            let Some(p) = (r..m.len()).find(|&i| m[i][k].0 != 0) else { continue }; m.swap(r, p);
            for l in r + 1..m.len() { if m[l][k].0 == 0 { continue; } let q = red(m[l][k].0 * m[r][k].1, m[l][k].1 * m[r][k].0); if big(q) { return true; }
                for c in 0..m[l].len() { let (x, y) = (m[r][c], m[l][c]); let t = red(q.0 * x.0, q.1 * x.1); let z = red(y.0 * t.1 - t.0 * y.1, y.1 * t.1); if big(t) || big(z) { return true; } m[l][c] = z; } }
            r += 1; if r == m.len() { break; }
        }
    }
    false
}
pub fn gen_int(ctx: &mut Ctx) -> RM {
    let style = ctx.rng.below(9);
    let big = ctx.thorough;
    let r = &mut ctx.rng;
    let (n, m) = match style { 0 | 1 => (r.size(1, 4), r.size(1, 4)), 2 | 3 | 4 => (r.size(1, 6), r.size(1, 6)), 5 => (r.size(1, 3), r.size(4, 10)), 6 => (r.size(4, 10), r.size(1, 3)), _ => { let q = if big { 24 } else { 14 }; let q = if r.chance(1, 12) { 2 * q } else { q }; (r.size(6, q), r.size(6, q)) } };
    let mut a = RM::new(n, m);
    match style {
        7 => { // boundary-like: each column has a couple of +-1
            for j in 0..m { let mut s = 1; for _ in 0..r.size(1, 3) { let i = r.below(n); a.a[i][j] = s; s = -s; } }
        }
        8 => { // sparse small entries, low rank
            let k = r.size(1, 4); let mut u = RM::new(n, k); let mut v = RM::new(k, m);
            for row in u.a.iter_mut() { for x in row.iter_mut() { if r.chance(1, 2) { *x = r.range(-2, 2) as i128; } } }
            for row in v.a.iter_mut() { for x in row.iter_mut() { if r.chance(1, 2) { *x = r.range(-2, 2) as i128; } } }
            a = u.mul(&v);
        }
        4 => { // diagonal with a planted divisor structure, scrambled by unimodular operations
            let k = n.min(m); for i in 0..k { a.a[i][i] = *r.pick(&[0i128, 1, 1, 2, 2, 3, 4, 6, 9, 10, 12, 15, -1, -2, -6]); }
            for _ in 0..r.below(2 * (n + m)) { let q = r.range(-2, 2) as i128; if r.bool() && n > 1 { let i = r.below(n); let j = (i + 1 + r.below(n - 1)) % n; for c in 0..m { let v = a.a[j][c]; a.a[i][c] += q * v; } } else if m > 1 { let i = r.below(m); let j = (i + 1 + r.below(m - 1)) % m; for c in 0..n { let v = a.a[c][j]; a.a[c][i] += q * v; } } }
        }
        _ => { let e = if n * m <= 6 && r.chance(1, 6) { *r.pick(&[100i64, 1000, 30000]) } else { *r.pick(&[1i64, 2, 5, 12, 30]) }; let dens = r.size(1, 4); for row in a.a.iter_mut() { for x in row.iter_mut() { if r.chance(dens, 4) { *x = r.range(-e, e) as i128; } } } }
    }
    // degenerate structure: zero columns/rows, duplicates
    if r.chance(1, 4) { let j = r.below(m); for i in 0..n { a.a[i][j] = 0; } }
    if r.chance(1, 4) { let i = r.below(n); for j in 0..m { a.a[i][j] = 0; } }
    if r.chance(1, 6) && m > 1 { let j = r.below(m - 1); for i in 0..n { a.a[i][j + 1] = 2 * a.a[i][j]; } }
    a
}

fn snf<T: Int>(ctx: &mut Ctx, a: &RM) -> Res {
    let m: Matrix<T> = to_mat(a);
    let (ri, r, d, c, ci) = match guard(|| m.smith_normal_form()) {
        Ok(x) => x,
        Err(e) if e.contains("overflow") && (std::mem::size_of::<T>() < 8 && (a.n > 2 || a.m > 2) || grows(&[a.clone()])) => { ctx.inconclusive = true; ctx.see("coefficient overflow (inconclusive)"); return Ok(()); }
        Err(e) => return fail("snf:panic", format!("smith_normal_form of {} panicked: {}", a.show(), e)),
    };
    let (ri, r, d, c, ci) = (from_mat(&ri), from_mat(&r), from_mat(&d), from_mat(&c), from_mat(&ci));
    let lim = 1i128 << 55;
    for x in [&ri, &r, &d, &c, &ci] { if x.a.iter().any(|v| v.iter().any(|y| y.abs() > lim)) { ctx.inconclusive = true; return Ok(()); } }
    check!((r.n, r.m, ri.n, ri.m, c.n, c.m, ci.n, ci.m, d.n, d.m) == (a.n, a.n, a.n, a.n, a.m, a.m, a.m, a.m, a.n, a.m), "snf:shape", "sizes of the factors for {}", a.show());
    check!(r.mul(&ri) == RM::id(a.n), "snf:row-inverse", "row transformation times its inverse is not the identity for {}\nR={}\nR'={}", a.show(), r.show(), ri.show());
    check!(c.mul(&ci) == RM::id(a.m), "snf:col-inverse", "column transformation times its inverse is not the identity for {}\nC={}\nC'={}", a.show(), c.show(), ci.show());
    check!(r.mul(a).mul(&c) == d, "snf:product", "R*M*C != D for M={}\nR={}\nC={}\nD={}", a.show(), r.show(), c.show(), d.show());
    for i in 0..d.n { for j in 0..d.m { check!(i == j || d.a[i][j] == 0, "snf:diagonal", "off-diagonal entry for {}: D={}", a.show(), d.show()); } }
    let k = d.n.min(d.m);
    for i in 1..k { let (x, y) = (d.a[i - 1][i - 1], d.a[i][i]); check!(if x == 0 { y == 0 } else { y % x == 0 }, "snf:chain", "diagonal entries do not divide in order for {}: D={}", a.show(), d.show()); }
    ctx.see("certificates checked");
    if let Some(f) = invariant_factors(a) {
        let got: Vec<i128> = (0..k).map(|i| d.a[i][i].abs()).filter(|&x| x != 0).collect();
        check!(got == f, "snf:factors", "invariant factors {:?} expected {:?} for {}", got, f, a.show());
        ctx.see("invariant factors compared");
        if f.last().map_or(false, |&x| x > 1) { ctx.see("with torsion"); }
    }
    Ok(())
}
/// large matrices whose elimination does not grow: oriented incidence matrices, intervals of ones, a few columns multiplied
fn gen_large(r: &mut Rng) -> RM {
    let (n, m) = (r.size(16, 66), r.size(16, 66));
    let mut a = RM::new(n, m);
    let style = r.below(3);
    for j in 0..m { match style {
        0 => { let (x, y) = (r.below(n), r.below(n)); if x != y { a.a[x][j] = 1; a.a[y][j] = -1; } }
        1 => { let x = r.below(n); let y = (x + r.below(6)).min(n - 1); for i in x..=y { a.a[i][j] = 1; } }
        _ => if j < n { a.a[j][j] = *r.pick(&[0i128, 1, 1, 1, 2, 3, 4, 6, -1, -2]); }
    } }
    if style == 2 { // put the diagonal entries anywhere
        let mut rows = a.a.clone(); for i in (1..n).rev() { rows.swap(i, r.below(i + 1)); } a.a = rows;
        for j in (1..m).rev() { let k = r.below(j + 1); for row in a.a.iter_mut() { row.swap(j, k); } }
    } else { for _ in 0..r.below(4) { let j = r.below(m); let q = *r.pick(&[2i128, 3, 4, 6, -1, 0]); for row in a.a.iter_mut() { row[j] *= q; } } }
    if r.bool() { a = a.transpose(); }
    a
}
/// the same over a field: every non-zero element is a unit, so only R*M*C = D, the inverses, the diagonal and the rank are left to judge
fn snf_field(ctx: &mut Ctx) -> Res {
    let mut a = gen_int(ctx);
    a.n = a.n.min(5); a.m = a.m.min(5); a.a.truncate(a.n); for r in a.a.iter_mut() { r.truncate(a.m); for x in r.iter_mut() { *x %= 6; } }
    let sc: Vec<(i64, i64)> = (0..a.n).map(|_| if ctx.rng.bool() { (1, 1) } else { (*ctx.rng.pick(&[1i64, -1, 2, 3]), *ctx.rng.pick(&[1i64, 2, 3, 5])) }).collect();
    ctx.input(format!("over the rationals: {} rows scaled by {:?}", a.show(), sc), !a.is_zero() && a.n * a.m > 1);
    let m: Matrix<Rational> = Matrix::from_array((0..a.n).map(|i| (0..a.m).map(|j| Rational::new(a.a[i][j] as i64 * sc[i].0, sc[i].1)).collect()).collect());
    let (m0, want) = (m.clone(), rank_q(&a));
    let ov = |e: &str| e.contains("overflow");
    let (ri, r, d, c, ci) = match guard(|| m.smith_normal_form()) {
        Ok(x) => x,
        Err(e) if ov(&e) && (rational_grows(&a, &sc) || a.n > 2 || a.m > 2) => { ctx.inconclusive = true; return Ok(()); }
        Err(e) => return fail("snf:panic", format!("smith_normal_form over the rationals of {} rows scaled by {:?} panicked: {}", a.show(), sc, e)),
    };
    check!((r.size(), ri.size(), c.size(), ci.size(), d.size()) == ((a.n, a.n), (a.n, a.n), (a.m, a.m), (a.m, a.m), (a.n, a.m)), "snf:shape", "sizes of the factors over the rationals for {}", a.show());
    let rat = |m: &Matrix<Rational>| -> Vec<Vec<(i128, i128)>> { let (n, k) = (**m).size(); (0..n).map(|i| (0..k).map(|j| { let s = m[(i, j)].to_string(); let mut t = s.split('/'); let p: i128 = t.next().unwrap().trim().parse().unwrap(); let q: i128 = t.next().map_or(1, |x| x.trim().parse().unwrap()); (p, q) }).collect()).collect() };
    // products in exact fractions of i128, given up when they do not fit
    fn g(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { g(b, a % b) } }
    type F = (i128, i128);
    let mul = |x: &Vec<Vec<F>>, y: &Vec<Vec<F>>, w: usize| -> Option<Vec<Vec<F>>> {
        let mut z = vec![vec![(0i128, 1i128); w]; x.len()];
        for i in 0..x.len() { for j in 0..w { let mut t: F = (0, 1); for k in 0..y.len() {
            let (p, q) = (x[i][k].0.checked_mul(y[k][j].0)?, x[i][k].1.checked_mul(y[k][j].1)?);
            let n = t.0.checked_mul(q)?.checked_add(p.checked_mul(t.1)?)?; let e = t.1.checked_mul(q)?; let h = g(n, e).max(1); t = (n / h, e / h);
        } z[i][j] = t; } }
        Some(z)
    };
    let id = |n: usize| -> Vec<Vec<F>> { (0..n).map(|i| (0..n).map(|j| ((i == j) as i128, 1)).collect()).collect() };
    let (fr, fri, fc, fci, fd, fm) = (rat(&r), rat(&ri), rat(&c), rat(&ci), rat(&d), rat(&m0));
    let prods = (|| Some((mul(&fr, &fri, a.n)?, mul(&fc, &fci, a.m)?, mul(&mul(&fr, &fm, a.m)?, &fc, a.m)?)))();
    let Some((p1, p2, p3)) = prods else { ctx.inconclusive = true; return Ok(()); };
    check!(p1 == id(a.n), "snf:row-inverse", "over the rationals the row transformation times its inverse is not the identity for {} rows scaled by {:?}", a.show(), sc);
    check!(p2 == id(a.m), "snf:col-inverse", "over the rationals the column transformation times its inverse is not the identity for {} rows scaled by {:?}", a.show(), sc);
    check!(p3 == fd, "snf:product", "over the rationals R*M*C != D for {} rows scaled by {:?}: D={:?}", a.show(), sc, fd);
    for i in 0..a.n { for j in 0..a.m { check!(i == j || fd[i][j].0 == 0, "snf:diagonal", "off-diagonal entry over the rationals for {}: D={:?}", a.show(), fd); } }
    let diag: Vec<bool> = (0..a.n.min(a.m)).map(|i| fd[i][i].0 != 0).collect();
    check!(diag.iter().enumerate().all(|(i, &z)| z == (i < want)), "snf:factors", "over the rationals {} has rank {} but the diagonal is {:?}", a.show(), want, fd);
    ctx.see("normal forms over the rationals");
    Ok(())
}
pub fn c05(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 12) { return snf_field(ctx); }
    let a = if ctx.rng.chance(1, 1500) { ctx.see("large matrices"); gen_large(&mut ctx.rng) } else { gen_int(ctx) };
    ctx.input(a.show(), !a.is_zero() && a.n * a.m > 1);
    if ctx.idx % 16 == 1 && a.a.iter().flatten().all(|x| x.abs() < 1 << 14) { ctx.see("over i32"); return snf::<i32>(ctx, &a); }
    if ctx.idx % 3 == 0 { snf::<i64>(ctx, &a) } else { snf::<i128>(ctx, &a) }
}

pub fn c06(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 5) { return crate::p_simp::over_q(ctx); }
    let mut a = gen_int(ctx);
    let big = ctx.rng.chance(1, 10);
    if (a.n > 8 || a.m > 8) && !big { a.n = a.n.min(8); a.m = a.m.min(8); a.a.truncate(a.n); for r in a.a.iter_mut() { r.truncate(a.m); } }
    let keep = a.n.max(a.m) <= 3 && ctx.rng.bool(); for r in a.a.iter_mut() { for x in r.iter_mut() { *x %= if keep { 100 } else { 7 }; } }
    // non-integer entries: scale rows by rationals (rank unchanged)
    let sc: Vec<(i64, i64)> = (0..a.n).map(|_| if ctx.rng.bool() { (1, 1) } else { (*ctx.rng.pick(&[1i64, -1, 2, 3]), *ctx.rng.pick(&[1i64, 2, 3, 5])) }).collect();
    ctx.input(format!("{} rows scaled by {:?}", a.show(), sc), !a.is_zero() && a.n * a.m > 1);
    let m: Matrix<Rational> = Matrix::from_array((0..a.n).map(|i| (0..a.m).map(|j| Rational::new(a.a[i][j] as i64 * sc[i].0, sc[i].1)).collect()).collect());
    let before = format!("{:?}", m);
    let want = rank_q(&a);
    let got = match guard(|| m.rank_as_linear_map()) {
        Ok(x) => x,
        Err(e) if e.contains("overflow") && rational_grows(&a, &sc) => { ctx.inconclusive = true; return Ok(()); }
        Err(e) => return fail("rank:panic", format!("rank of {} panicked: {}", a.show(), e)),
    };
    check!(got == want, "rank:value", "rank_as_linear_map = {} but the rank is {} for {} scaled {:?}", got, want, a.show(), sc);
    check!(format!("{:?}", m) == before, "rank:mutates", "computing the rank changed the matrix");
    let t: Matrix<Rational> = m.clone().transpose();
    let gt = match guard(|| t.rank_as_linear_map()) { Ok(x) => x, Err(e) if e.contains("overflow") && rational_grows(&a, &sc) => { ctx.inconclusive = true; return Ok(()); } Err(e) => return fail("rank:panic", e) };
    check!(gt == want, "rank:transpose", "rank of the transpose = {} but the rank is {} for {}", gt, want, a.show());
    ctx.see("ranks compared");
    if want < a.n.min(a.m) { ctx.see("rank deficient"); }
    Ok(())
}
