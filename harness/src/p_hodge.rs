//! C33 combinatorial and weighted Laplacians of complexes, composed from boundary maps as in the examples of the library.
use crate::check;
use crate::core::*;
use crate::p_lin::{self, F};
use crate::p_simp::*;
use crate::p_snf::*;
use crate::refmat::*;
use alg::commutative::Rational;
use alg::lin_alg::{Matrix, SubMatrix};
use topo_spaces::simplicial::SimplicialCplx;
use topo_spaces::Complex;

fn real(m: &SubMatrix<i64>) -> Matrix<f64> { let (r, c) = m.size(); let mut x = Matrix::zero(r, c); for i in 0..r { for j in 0..c { x[(i, j)] = m[(i, j)] as f64; } } x }
fn diag(w: &[f64]) -> Matrix<f64> { let mut m = Matrix::identity(w.len()); for i in 0..w.len() { m[(i, i)] *= w[i]; } m }
/// Betti numbers from the harness's own chain complex
fn betti(ch: &Chain) -> Vec<usize> { let r: Vec<usize> = ch.maps.iter().map(rank_q).collect(); (0..r.len()).map(|k| ch.maps[k].m - r[k] - r.get(k + 1).unwrap_or(&0)).collect() }
fn lap(lo: &RM, hi: Option<&RM>) -> RM { let mut l = lo.transpose().mul(lo); if let Some(h) = hi { let u = h.mul(&h.transpose()); for i in 0..l.n { for j in 0..l.n { l.a[i][j] += u.a[i][j]; } } } l }
fn fl(m: &RM) -> F { m.a.iter().map(|r| r.iter().map(|&x| x as f64).collect()).collect() }
fn compare(what: &str, k: usize, got: &F, want: &[f64], tol: f64) -> Res {
    check!(got.len() == want.len(), format!("{}:count", what), "dimension {}: {} eigenvalues, expected {}", k, got.len(), want.len());
    for i in 0..want.len() { check!((got[i][0] - want[i]).abs() <= tol, format!("{}:values", what), "dimension {}: spectrum {:?}, expected {:?}", k, got.iter().map(|x| x[0]).collect::<Vec<_>>(), want); }
    Ok(())
}

/// bm: what the library says; ch: the same complex made by the harness, up to the order and orientation of cells
fn judge(ctx: &mut Ctx, bm: &[Matrix<i64>], ch: &Chain) -> Res {
    let b = betti(ch); let n = ch.maps.len();
    check!(bm.len() == n, "hodge:dims", "{} boundary maps, expected {}", bm.len(), n);
    let lib: Vec<RM> = bm.iter().map(from_mat).collect();
    for k in 0..n { check!(lib[k].m == ch.maps[k].m && (k == 0 || lib[k].n == lib[k - 1].m), "hodge:cells", "boundary map {} of size {}x{}, expected {} cells", k, lib[k].n, lib[k].m, ch.maps[k].m); }
    // as in the examples: x^T x + y y^T on borrowed views
    let ls: Vec<Matrix<i64>> = must("combinatorial laplacians", || {
        let mut v: Vec<Matrix<i64>> = bm.iter().zip(bm.iter().skip(1)).map(|(x, y)| { let x = &**x; let y = &**y; x.transpose() * x + y * y.transpose() }).collect();
        let h = &**bm.last().unwrap(); v.push(h.transpose() * h); v
    })?;
    let lim = if ctx.thorough { 40 } else { 26 };
    for k in 0..n {
        let m = ch.maps[k].m; if m == 0 { continue; }
        let l = from_mat(&ls[k]);
        check!(l.n == m && l.m == m && l == l.transpose(), "hodge:symmetric", "Laplacian in dimension {} is {}", k, l.show());
        check!(l == lap(&lib[k], lib.get(k + 1)), "hodge:entries", "Laplacian in dimension {} is {}, its boundary maps are {} and {:?}", k, l.show(), lib[k].show(), lib.get(k + 1).map(|x| x.show()));
        check!(m - rank_q(&l) == b[k], "hodge:kernel", "the kernel of the Laplacian in dimension {} has rank {}, the Betti number is {}", k, m - rank_q(&l), b[k]);
        // boundary maps carry harmonic parts to each other
        if k + 1 < n { let c = from_mat(&must("product", || bm[k + 1].clone() * ls[k + 1].clone())?); let d = from_mat(&must("product", || &*ls[k] * &*bm[k + 1])?); check!(c == d, "hodge:commute", "the boundary does not commute with the Laplacians in dimension {}", k + 1); ctx.see("commutations checked"); }
        ctx.see("combinatorial Laplacians checked"); if b[k] > 0 && k > 0 { ctx.see("Laplacians with harmonic chains of positive dimension"); }
        if m <= 10 { match guard(|| { let mut q = Matrix::<Rational>::zero(m, m); for i in 0..m { for j in 0..m { q[(i, j)] = Rational::new(l.a[i][j] as i64, 1); } } q.rank_as_linear_map() }) {
            Ok(r) => { check!(m - r == b[k], "hodge:rank", "rank {} of the Laplacian of size {} in dimension {}, Betti number {}", r, m, k, b[k]); ctx.see("ranks over the rationals compared"); }
            Err(e) if e.contains("overflow") && rational_grows(&l, &[]) => ctx.see("coefficient overflow (inconclusive)"), Err(e) => return fail("hodge:panic", e) } }
        if m > lim { ctx.see("too many cells for the spectrum"); continue; }
        // spectrum, against the Laplacian of the harness's own complex
        let want = p_lin::jacobi(fl(&lap(&ch.maps[k], ch.maps.get(k + 1)))); let sc = 1.0 + p_lin::norm(&fl(&l));
        let got = p_lin::from(&must("spectrum", || real(&ls[k]).spectrum())?);
        compare("hodge:spectrum", k, &got, &want, 1e-6 * sc)?;
        let got = p_lin::from(&must("symmetric spectrum", || real(&ls[k]).spectrum_symmetric())?);
        compare("hodge:symmetric-spectrum", k, &got, &want, 1e-6 * sc)?;
        if b[k] == m || want[b[k]] > 1e-3 + 1e-5 * sc { let z = got.iter().filter(|x| x[0].abs() < 1e-6 * sc).count(); check!(z == b[k], "hodge:vanishing", "{} vanishing eigenvalues in dimension {}, the Betti number is {}", z, k, b[k]); ctx.see("vanishing eigenvalues counted"); }
        // harmonic chains: eigenvectors for the vanishing eigenvalues are cycles and orthogonal to boundaries
        if b[k] > 0 && ctx.rng.bool() {
            let (_, v) = must("harmonic chains", || real(&ls[k]).spectrum_with_n_smallest_eigenvecs_symmetric(b[k]))?;
            let v = p_lin::from(&v); let d = p_lin::norm(&p_lin::mul(&fl(&lib[k]), &v)); let u = lib.get(k + 1).filter(|h| h.m > 0).map_or(0.0, |h| p_lin::norm(&p_lin::mul(&fl(&h.transpose()), &v)));
            if b[k] == m || want[b[k]] > 1e-2 + 1e-4 * sc { check!(d < 1e-4 * sc && u < 1e-4 * sc, "hodge:harmonic", "the eigenvectors of the vanishing eigenvalues in dimension {} have boundary {} and coboundary {}", k, d, u); ctx.see_n("harmonic chains checked", b[k] as u64); }
        }
        // weighted Laplacian as in the example
        let (e0, spread) = (if ctx.rng.chance(1, 4) { ctx.rng.range(-4, 4) as i32 } else { 0 }, ctx.rng.chance(1, 5));
        if e0 != 0 || spread { ctx.see("weights at other scales"); }
        let mut ws = |m: usize| -> Vec<f64> { if e0 != 0 || spread { return (0..m).map(|_| 10f64.powi(if spread { e0 + ctx.rng.range(-1, 1) as i32 } else { e0 }) * ctx.rng.f(0.5, 2.0)).collect(); } (0..m).map(|_| if ctx.rng.chance(1, 3) { 1.0 / ctx.rng.range(1, 20) as f64 } else { 1.0 }).collect() };
        let (wl, w, wh) = (ws(lib[k].n), ws(m), ws(lib.get(k + 1).map_or(1, |x| x.m)));
        if wh.is_empty() { continue; }
        let inv = |w: &[f64]| -> Vec<f64> { w.iter().map(|x| 1.0 / x).collect() };
        let got = must("weighted laplacian", || {
            let (lo, hi) = (real(&bm[k]), if k + 1 < n { real(&bm[k + 1]) } else { Matrix::zero(m, 1) });
            let (lo, hi) = (&*lo, &*hi);
            let (a, b, c, d) = (diag(&inv(&w)), diag(&wl), diag(&inv(&wh)), diag(&w)); let (a, b, c, d) = (&*a, &*b, &*c, &*d);
            let down = a * lo.transpose() * b * lo; let up = hi * c * hi.transpose() * d;
            let s = down + up; let e = p_lin::from(&s); (e, s.spectrum())
        })?;
        // reference: entries, and the symmetric matrix similar to it
        let (lo, hi) = (&lib[k], lib.get(k + 1));
        let mut e: F = vec![vec![0.0; m]; m]; let mut s = e.clone();
        for i in 0..m { for j in 0..m {
            let dn: f64 = (0..lo.n).map(|r| lo.a[r][i] as f64 * wl[r] * lo.a[r][j] as f64).sum();
            let up: f64 = hi.map_or(0.0, |h| (0..h.m).map(|r| h.a[i][r] as f64 / wh[r] * h.a[j][r] as f64).sum());
            e[i][j] = dn / w[i] + up * w[j]; s[i][j] = dn / (w[i] * w[j]).sqrt() + up * (w[i] * w[j]).sqrt();
        } }
        let sc = p_lin::norm(&e) + 1e-6;
        check!(p_lin::finite(&got.0) && p_lin::norm(&p_lin::sub(&got.0, &e)) <= 1e-10 * sc, "hodge:weighted-entries", "weighted Laplacian in dimension {} is {}, expected {}", k, p_lin::show(&got.0), p_lin::show(&e));
        let want = p_lin::jacobi(s.clone());
        compare("hodge:weighted-spectrum", k, &p_lin::from(&got.1), &want, 1e-6 * sc)?;
        let got = must("symmetric spectrum", || p_lin::to(&s).spectrum_symmetric())?;
        compare("hodge:weighted-symmetric-spectrum", k, &p_lin::from(&got), &want, 1e-8 * p_lin::norm(&s) + 1e-12)?;
        ctx.see("weighted Laplacians checked");
    }
    Ok(())
}
pub fn c33(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(8) {
        0 | 1 => {
            let ch = gen_chain(&mut ctx.rng, false);
            ctx.input(format!("chain complex {}", ch.show()), ch.maps.iter().any(|m| !m.is_zero()));
            if ch.maps.iter().any(|m| m.a.iter().flatten().any(|x| x.abs() > 30)) { ctx.inconclusive = true; return Ok(()); }
            let bm: Vec<Matrix<i64>> = ch.maps.iter().map(to_mat).collect();
            ctx.see("user-defined complexes"); judge(ctx, &bm, &ch)
        }
        2 | 3 => { let (bm, ch) = crate::p_topo::for_laplacians(ctx)?; ctx.see("cubical complexes"); judge(ctx, &bm, &ch) }
        _ => {
            let (mut fs, name, _) = gen_faces(&mut ctx.rng, false);
            let names = ctx.rng.perm(fs.iter().flatten().max().map_or(0, |x| x + 1));
            ctx.rng.shuffle(&mut fs); for f in fs.iter_mut() { ctx.rng.shuffle(f); }
            ctx.input(format!("{} {:?} named {:?}", name, fs, names), fs.iter().any(|f| f.len() > 1));
            let ch = chain_of(&closure(&fs));
            if ch.maps.iter().any(|m| m.m > 80) { ctx.see("too many cells"); ctx.inconclusive = true; return Ok(()); }
            let mut c = SimplicialCplx::<String>::new();
            for f in &fs { must("attach", || c.attach(simplex_of(f, &names)))?; }
            let bm: Vec<Matrix<i64>> = must("boundary map", || c.boundary_map())?.into_iter().map(|x| x.0).collect();
            ctx.see("simplicial complexes"); judge(ctx, &bm, &ch)
        }
    }
}
