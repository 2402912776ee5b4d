//! C20 sparse matrices vs a map model; C21 fixed-size matrices and vectors.
use crate::check;
use crate::core::*;
use crate::p_dense::{eqv, gen, map, mk, mm, show, tr, zip, Sc, M};
use alg::commutative::{Rational, Zero};
use alg::lin_alg::{Matrix, SparseMatrix};

fn compare<T: Sc>(ctx: &mut Ctx, s: &SparseMatrix<T>, a: &M, stored: &Vec<Vec<bool>>, what: &str) -> Res {
    ctx.see("sparse matrices compared");
    let (n, m) = (a.len(), a[0].len());
    check!(s.size() == (n, m), "sparse:size", "{}: size {:?} expected {:?}", what, s.size(), (n, m));
    for i in 0..n {
        let got: Vec<(usize, T)> = must("row_iter", || s.row_iter(i).take(m + 1).map(|(j, v)| (j, *v)).collect())?;
        let want: Vec<(usize, T)> = (0..m).filter(|&j| stored[i][j]).map(|j| (j, T::of(a[i][j]))).collect();
        check!(got == want, "sparse:row", "{}: row {} iterates {:?} expected {:?} in {}", what, i, got, want, show(a));
    }
    for j in 0..m {
        let got: Vec<(usize, T)> = must("col_iter", || s.col_iter(j).take(n + 1).map(|(i, v)| (i, *v)).collect())?;
        let want: Vec<(usize, T)> = (0..n).filter(|&i| stored[i][j]).map(|i| (i, T::of(a[i][j]))).collect();
        check!(got == want, "sparse:col", "{}: column {} iterates {:?} expected {:?} in {}", what, j, got, want, show(a));
    }
    let d = mk::<T>(a);
    check!(must("sparse eq", || *s == d)?, "sparse:eq", "{}: not equal to the same dense matrix {}", what, show(a));
    // a near miss is different
    for _ in 0..if n.max(m) > 16 { 16 } else { 1 } {
        let (i, j) = (ctx.rng.below(n), ctx.rng.below(m));
        let mut b = a.clone(); b[i][j] += 1;
        check!(!must("sparse eq", || *s == mk::<T>(&b))?, "sparse:eq", "{}: equal to a dense matrix differing at ({},{}) in {}", what, i, j, show(a));
    }
    let txt = must("sparse display", || format!("{}", s))?;
    let want: String = (0..n).flat_map(|i| (0..m).map(move |j| (i, j))).filter(|&(i, j)| stored[i][j]).map(|(i, j)| format!("({}, {}): {}\n", i, j, T::of(a[i][j]))).collect();
    check!(txt == want, "sparse:display", "{}: printed {:?} expected {:?}", what, txt, want);
    Ok(())
}
fn run<T: Sc>(ctx: &mut Ctx, name: &str) -> Res where T: std::ops::Mul<T, Output = T> {
    let top = if ctx.rng.chance(1, 1000) { 60 } else if ctx.thorough { 16 } else { 9 };
    let (mut n, mut m, mut k) = (ctx.rng.size(1, top), ctx.rng.size(1, top), ctx.rng.size(1, top));
    if ctx.rng.chance(1, 400) { let long = *ctx.rng.pick(&[127usize, 128, 129, 255, 256, 257, 300]); (n, m, k) = (n.min(3), m.min(3), k.min(3)); match ctx.rng.below(3) { 0 => n = long, 1 => m = long, _ => k = long } ctx.see("long shapes"); }
    let mkone = |ctx: &mut Ctx, n: usize, m: usize| -> (M, Vec<Vec<bool>>) {
        let dens = ctx.rng.below(6); let thin = if n.max(m) > 16 && ctx.rng.bool() { 60 } else { 6 }; let most = if ctx.rng.chance(1, 12) { 5000 } else { 9 };
        let mut st = vec![vec![false; m]; n]; let mut a = vec![vec![0i64; m]; n];
        for i in 0..n { for j in 0..m { if ctx.rng.chance(dens, thin) { st[i][j] = true; a[i][j] = ctx.rng.range(-most, most); } } }
        if ctx.rng.chance(1, 4) { let i = ctx.rng.below(n); for j in 0..m { st[i][j] = false; a[i][j] = 0; } }
        if ctx.rng.chance(1, 4) { let j = ctx.rng.below(m); for i in 0..n { st[i][j] = false; a[i][j] = 0; } }
        (a, st)
    };
    let ((a, sa), (b, sb)) = (mkone(ctx, n, m), mkone(ctx, m, k));
    ctx.input(format!("{} A={} B={}", name, show(&a), show(&b)), a.iter().flatten().any(|&x| x != 0));
    let s1 = must("sparse from", || SparseMatrix::from(((n, m), |(i, j): (usize, usize)| if sa[i][j] { Some(T::of(a[i][j])) } else { None })))?;
    // the second factor is sometimes built as the transpose of its transpose
    let (bt, sbt) = (tr(&b), (0..k).map(|j| (0..m).map(|i| sb[i][j]).collect()).collect::<Vec<Vec<bool>>>());
    let flip = ctx.rng.bool();
    let s2 = must("sparse from", || if flip { SparseMatrix::from(((k, m), |(i, j): (usize, usize)| if sbt[i][j] { Some(T::of(bt[i][j])) } else { None })).transpose() } else { SparseMatrix::from(((m, k), |(i, j): (usize, usize)| if sb[i][j] { Some(T::of(b[i][j])) } else { None })) })?;
    compare(ctx, &s1, &a, &sa, "A")?;
    compare(ctx, &s2, &b, &sb, if flip { "B built transposed" } else { "B" })?;
    let at = tr(&a); let sat: Vec<Vec<bool>> = (0..m).map(|j| (0..n).map(|i| sa[i][j]).collect()).collect();
    let t = must("sparse transpose", || s1.clone().transpose())?;
    compare(ctx, &t, &at, &sat, "transpose of A")?;
    compare(ctx, &t.clone().transpose(), &a, &sa, "double transpose of A")?;
    let p = mm(&a, &b);
    let (da, db) = (mk::<T>(&a), mk::<T>(&b));
    let r: Matrix<T> = must("sparse*sparse", || s1.clone() * s2.clone())?; eqv(ctx, &r, &p, k, "sparse:product", "sparse*sparse")?;
    let r: Matrix<T> = must("sparse*dense", || s1.clone() * db.clone())?; eqv(ctx, &r, &p, k, "sparse:product", "sparse*dense")?;
    let r: Matrix<T> = must("dense*sparse", || da.clone() * s2.clone())?; eqv(ctx, &r, &p, k, "sparse:product", "dense*sparse")?;
    let g: Matrix<T> = must("gram", || s1.clone().transpose() * s1.clone())?; eqv(ctx, &g, &mm(&at, &a), m, "sparse:product", "A^T*A sparse")?;
    let g: Matrix<T> = must("gram", || s1.clone() * s1.clone().transpose())?; eqv(ctx, &g, &mm(&a, &at), n, "sparse:product", "A*A^T sparse")?;
    ctx.see_n("products compared", 5);
    if k != m { let mis = SparseMatrix::from(((k, m), |_| Some(T::of(1)))); 
        check!(guard(|| s1.clone() * mis.clone()).is_err() && guard(|| da.clone() * mis.clone()).is_err() && guard(|| mis.clone().transpose() * s1.clone().transpose()).is_err() || n == 0, "sparse:mismatch", "product of incompatible sizes accepted ({}x{} * {}x{})", n, m, k, m); }
    compare(ctx, &s1, &a, &sa, "A after the products")?;
    // equality of sparse matrices: the same entries, however they were built; zeros may be stored or not
    let keep = ctx.rng.bool();
    let same = SparseMatrix::from(((n, m), |(i, j): (usize, usize)| if sa[i][j] && (keep || a[i][j] != 0) { Some(T::of(a[i][j])) } else { None }));
    let viat = SparseMatrix::from(((m, n), |(i, j): (usize, usize)| if sat[i][j] { Some(T::of(at[i][j])) } else { None })).transpose();
    check!(must("sparse == sparse", || s1 == same && same == s1 && s1 == viat && viat == s1 && viat.clone().transpose() == t)?, "sparse:eq", "sparse matrices with the same entries are not equal: {}", show(&a));
    for _ in 0..if n.max(m) > 16 { 16 } else { 1 } {
    let (ci, cj) = (ctx.rng.below(n), ctx.rng.below(m));
    let v = a[ci][cj]; let other = match ctx.rng.below(4) { 0 if v != 0 => -v, 1 if v != 0 => 0, 2 => v - 1, _ => v + 1 };
    let miss = SparseMatrix::from(((n, m), |(i, j): (usize, usize)| if (i, j) == (ci, cj) { Some(T::of(other)) } else if sa[i][j] { Some(T::of(a[i][j])) } else { None }));
    check!(!must("sparse == sparse", || s1 == miss || miss == s1 || viat == miss || miss.clone().transpose() == t)?, "sparse:eq", "sparse matrices differing at ({},{}) are equal: {}", ci, cj, show(&a));
    }
    let wide = SparseMatrix::from(((n, m + 1), |(i, j): (usize, usize)| if j < m && sa[i][j] { Some(T::of(a[i][j])) } else { None }));
    check!(!must("sparse == sparse", || s1 == wide || wide == s1)?, "sparse:eq", "sparse matrices of different sizes are equal: {}", show(&a));
    ctx.see_n("comparisons of two sparse matrices", 4);
    if n != m { check!(s1 != mk::<T>(&at), "sparse:eq", "equal to a dense matrix of another shape"); }
    Ok(())
}
/// one line of very many entries, handled in an ordinary thread: no operation may need stack in proportion to it
fn long_line(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.size(60_000, 200_000); let (gap, off) = (*ctx.rng.pick(&[1usize, 1, 2, 7]), ctx.rng.below(5)); let keep = ctx.rng.bool(); let q = ctx.rng.range(1, 50);
    ctx.input(format!("{} rows and one column, every {}th entry from {} on stored", n, gap, off), true);
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || guard(move || -> Result<(), String> {
        let val = |i: usize| (i as i64 * q) % 1000 + 1;
        let m = SparseMatrix::from(((n, 1), |(i, _): (usize, usize)| if i % gap == off % gap && i >= off { Some(val(i)) } else { None }));
        let want = || (off..n).filter(|i| i % gap == off % gap).map(|i| (i, val(i)));
        let other = if keep { Some(m.clone()) } else { None };
        if !m.col_iter(0).map(|(i, v)| (i, *v)).eq(want()) { return Err("the column does not iterate its entries".into()); }
        let t = m.clone().transpose();
        if t.size() != (1, n) || !t.row_iter(0).map(|(i, v)| (i, *v)).eq(want()) { return Err("the transposed row does not iterate its entries".into()); }
        let norm: i64 = want().map(|(_, v)| v * v).sum();
        let p: Matrix<i64> = t * m; // both are gone after this
        if p[(0, 0)] != norm { return Err(format!("the product of the line with itself is {}, expected {}", p[(0, 0)], norm)); }
        if let Some(o) = other { if !o.col_iter(0).map(|(i, v)| (i, *v)).eq(want()) { return Err("a clone lost entries when the original was dropped".into()); } }
        Ok(())
    })).unwrap().join().unwrap();
    match r { Ok(Ok(())) => { ctx.see("lines of more than 60000 entries"); Ok(()) } Ok(Err(e)) => fail("sparse:long", e), Err(e) => fail("sparse:long", format!("panicked: {}", e)) }
}
pub fn c20(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 200_000) { return long_line(ctx); }
    match ctx.idx % 3 { 0 => run::<i64>(ctx, "i64"), 1 => run::<Rational>(ctx, "Rational"), _ => if ctx.rng.chance(1, 5) { tiny(ctx) } else { run::<f64>(ctx, "f64") } }
}
/// real entries at other scales: nothing is lost or considered equal because it is small
fn tiny(ctx: &mut Ctx) -> Res {
    let (n, m, k) = (ctx.rng.size(1, 6), ctx.rng.size(1, 6), ctx.rng.size(1, 6));
    let (a, b) = (gen(&mut ctx.rng, n, m), gen(&mut ctx.rng, m, k));
    let (ea, eb) = (*ctx.rng.pick(&[-2i32, -25, -55, -300, 60]), *ctx.rng.pick(&[0i32, -1, -30, -60, -300, 40]));
    ctx.input(format!("f64: A={} times 2^{}, B={} times 2^{}", show(&a), ea, show(&b), eb), a.iter().flatten().any(|&x| x != 0));
    let f = |a: &M, e: i32| Matrix::from_array(a.iter().map(|r| r.iter().map(|&v| v as f64 * 2f64.powi(e)).collect()).collect::<Vec<Vec<f64>>>());
    let g = |a: &M, e: i32| SparseMatrix::from(((a.len(), a[0].len()), |(i, j): (usize, usize)| if a[i][j] == 0 { None } else { Some(a[i][j] as f64 * 2f64.powi(e)) }));
    let (sa, sb, da, db) = (g(&a, ea), g(&b, eb), f(&a, ea), f(&b, eb)); let p = mm(&a, &b);
    let flip = must("sparse transpose", || g(&tr(&a), ea).transpose())?;
    for (w, r) in [("sparse*sparse", must("product", || sa.clone() * sb.clone())?), ("sparse*dense", must("product", || sa.clone() * db.clone())?), ("dense*sparse", must("product", || da.clone() * sb.clone())?), ("transposed*sparse", must("product", || flip.clone() * sb.clone())?)] {
        for i in 0..n { for j in 0..k { check!(r[(i, j)] == p[i][j] as f64 * 2f64.powi(ea + eb), "sparse:product", "{}: entry ({},{}) is {:e}, expected {:e}", w, i, j, r[(i, j)], p[i][j] as f64 * 2f64.powi(ea + eb)); } }
    }
    let (ci, cj) = (ctx.rng.below(n), ctx.rng.below(m)); let mut near = a.clone(); near[ci][cj] += if ctx.rng.bool() { 1 } else { -1 };
    check!(must("eq", || sa == da && sa == flip && flip == da)?, "sparse:eq", "a sparse matrix differs from itself: {} times 2^{}", show(&a), ea);
    check!(!must("eq", || sa == f(&near, ea) || sa == g(&near, ea) || flip == g(&near, ea) || g(&near, ea) == flip)?, "sparse:eq", "matrices that differ by 2^{} at ({},{}) are equal: {}", ea, ci, cj, show(&a));
    for i in 0..n { let got: Vec<(usize, f64)> = sa.row_iter(i).map(|(j, v)| (j, *v)).collect(); let want: Vec<(usize, f64)> = (0..m).filter(|&j| a[i][j] != 0).map(|j| (j, da[(i, j)])).collect(); check!(got == want, "sparse:row", "row {} iterates {:?} expected {:?}", i, got, want); }
    for j in 0..m { let got: Vec<(usize, f64)> = flip.col_iter(j).map(|(i, v)| (i, *v)).collect(); let want: Vec<(usize, f64)> = (0..n).filter(|&i| a[i][j] != 0).map(|i| (i, da[(i, j)])).collect(); check!(got == want, "sparse:col", "column {} iterates {:?} expected {:?}", j, got, want); }
    ctx.see("sparse matrices of reals at other scales compared");
    Ok(())
}
#[allow(unused)] fn unused() -> (M, M) { let _ = i64::zero(); let a = gen(&mut Rng::new(1), 1, 1); (map(&a, |x| x), zip(&a, &a, |x, _| x)) }

// ---------------------------------------------------------------- fixed-size
use alg::lin_alg::{ConstMatrix, ConstVector};
use alg::commutative::Field;
fn vecs<T: Sc + Field, const N: usize>(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng; let q = if r.chance(1, 10) { 20000 } else { 20 };
    let a: [i64; N] = std::array::from_fn(|_| r.range(-q, q)); let b: [i64; N] = std::array::from_fn(|_| r.range(-q, q));
    let s = loop { let s = r.range(-9, 9); if s != 0 { break s; } };
    ctx.input(format!("vectors {:?} {:?} s={}", a, b, s), a != [0; N]);
    let v = |x: [i64; N]| -> ConstVector<T, N> { ConstVector::from(std::array::from_fn::<T, N, _>(|i| T::of(x[i]))) };
    let (va, vb) = (v(a), v(b));
    let eq = |sig: &'static str, g: ConstVector<T, N>, w: [i64; N]| -> Res { for i in 0..N { check!(g[i] == T::of(w[i]), sig, "entry {} is {:?} expected {} (a={:?} b={:?} s={})", i, g[i], w[i], a, b, s); } check!(g == v(w), sig, "== after {}", sig); Ok(()) };
    eq("constvec:new", va, a)?;
    eq("constvec:add", must("add", || va + vb)?, std::array::from_fn(|i| a[i] + b[i]))?;
    eq("constvec:add", must("add", || { let mut x = va; x += vb; x })?, std::array::from_fn(|i| a[i] + b[i]))?;
    eq("constvec:sub", must("sub", || va - vb)?, std::array::from_fn(|i| a[i] - b[i]))?;
    eq("constvec:sub", must("sub", || { let mut x = va; x -= vb; x })?, std::array::from_fn(|i| a[i] - b[i]))?;
    eq("constvec:mul", must("mul", || va * T::of(s))?, std::array::from_fn(|i| a[i] * s))?;
    eq("constvec:div", must("div", || v(std::array::from_fn(|i| a[i] * s)) / T::of(s))?, a)?;
    eq("constvec:neg", must("neg", || -va)?, std::array::from_fn(|i| -a[i]))?;
    eq("constvec:zero", ConstVector::<T, N>::zero(), [0; N])?;
    let d = must("dot", || va.dot(vb))?; let w: i64 = (0..N).map(|i| a[i] * b[i]).sum();
    check!(d == T::of(w), "constvec:dot", "{:?}.{:?} = {:?} expected {}", a, b, d, w);
    check!((va == vb) == (a == b), "constvec:eq", "{:?} == {:?}", a, b);
    if N > 0 { for _ in 0..if N > 16 { 8 } else { 1 } { let i = ctx.rng.below(N); let mut y = a; y[i] += *ctx.rng.pick(&[-1, 1, 2]); check!(va != v(y) && v(y) != va && !(va == v(y)), "constvec:eq", "{:?} equals the vector with {} at {}", a, y[i], i); } }
    let mut x = va; if N > 0 { let i = ctx.rng.below(N); x[i] = T::of(77); let mut y = a; y[i] = 77; eq("constvec:index", x, y)?; }
    let f: ConstVector<f64, N> = ConstVector::from(std::array::from_fn::<f64, N, _>(|i| a[i] as f64));
    let n2 = f.two_norm(); let e = (a.iter().map(|x| x * x).sum::<i64>() as f64).sqrt();
    check!((n2 - e).abs() <= 1e-12 * (1.0 + e), "constvec:norm", "two_norm of {:?} = {} expected {}", a, n2, e);
    ctx.see("fixed-size vectors compared");
    Ok(())
}
fn mats<T: Sc + Field, const R: usize, const C: usize>(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng; let q = if r.chance(1, 10) { 20000 } else { 20 };
    let a: [[i64; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| r.range(-q, q))); let b: [[i64; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| r.range(-q, q)));
    let s = loop { let s = r.range(-9, 9); if s != 0 { break s; } };
    ctx.input(format!("matrices {:?} {:?} s={}", a, b, s), a != [[0; C]; R]);
    let v = |x: [[i64; C]; R]| -> ConstMatrix<T, R, C> { ConstMatrix::from(std::array::from_fn::<[T; C], R, _>(|i| std::array::from_fn(|j| T::of(x[i][j])))) };
    let f = |g: &dyn Fn(i64, i64) -> i64| -> [[i64; C]; R] { std::array::from_fn(|i| std::array::from_fn(|j| g(a[i][j], b[i][j]))) };
    let (va, vb) = (v(a), v(b));
    let eq = |sig: &'static str, g: ConstMatrix<T, R, C>, w: [[i64; C]; R]| -> Res { for i in 0..R { for j in 0..C { check!(g[i][j] == T::of(w[i][j]), sig, "entry ({},{}) is {:?} expected {} (a={:?} b={:?} s={})", i, j, g[i][j], w[i][j], a, b, s); } } check!(g == v(w), sig, "== after {}", sig); Ok(()) };
    eq("constmat:new", va, a)?;
    eq("constmat:add", must("add", || { let mut x = va; x += vb; x })?, f(&|x, y| x + y))?;
    eq("constmat:sub", must("sub", || { let mut x = va; x -= vb; x })?, f(&|x, y| x - y))?;
    eq("constmat:mul", must("mul", || va * T::of(s))?, f(&|x, _| x * s))?;
    eq("constmat:div", must("div", || v(f(&|x, _| x * s)) / T::of(s))?, a)?;
    eq("constmat:neg", must("neg", || -va)?, f(&|x, _| -x))?;
    eq("constmat:zero", ConstMatrix::<T, R, C>::zero(), [[0; C]; R])?;
    let cols: [ConstVector<T, R>; C] = std::array::from_fn(|j| ConstVector::from(std::array::from_fn::<T, R, _>(|i| T::of(a[i][j]))));
    eq("constmat:from-columns", must("from columns", || ConstMatrix::<T, R, C>::from(cols))?, a)?;
    check!((va == vb) == (a == b), "constmat:eq", "{:?} == {:?}", a, b);
    for _ in 0..if R.max(C) > 16 { 8 } else { 1 } { let (i, j) = (ctx.rng.below(R), ctx.rng.below(C)); let mut y = a; y[i][j] += *ctx.rng.pick(&[-1, 1, 2]); check!(va != v(y) && v(y) != va && !(va == v(y)), "constmat:eq", "{:?} equals the matrix with {} at ({},{})", a, y[i][j], i, j); }
    let id = ConstMatrix::<T, R, R>::identity();
    for i in 0..R { for j in 0..R { check!(id[i][j] == T::of((i == j) as i64), "constmat:identity", "identity entry ({},{})", i, j); } }
    ctx.see("fixed-size matrices compared");
    Ok(())
}
/// fractions and reals at other scales, exact results
fn scaled_const<const R: usize, const C: usize>(ctx: &mut Ctx) -> Res {
    use crate::p_num::Fr;
    let r = &mut ctx.rng; let e = *r.pick(&[-3i32, -40, -60, -300, 50]); let x = 2f64.powi(e);
    let a: [[i64; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| r.range(-9, 9))); let mut b: [[i64; C]; R] = std::array::from_fn(|_| std::array::from_fn(|_| r.range(-9, 9))); if r.chance(1, 3) { b = a; let (i, j) = (r.below(R), r.below(C)); b[i][j] += r.range(-1, 1); }
    let s = Fr::new(loop { let s = r.range(-5, 5); if s != 0 { break s; } } as i128, r.range(1, 6) as i128); let den = r.range(2, 7) as i128;
    ctx.input(format!("A={:?} B={:?} times 2^{}, s={}, over {}", a, b, e, s.show(), den), a != [[0; C]; R]);
    let f = |a: &[[i64; C]; R], x: f64| ConstMatrix::<f64, R, C>::from(std::array::from_fn::<[f64; C], R, _>(|i| std::array::from_fn(|j| a[i][j] as f64 * x)));
    let (fa, fb) = (f(&a, x), f(&b, x)); let k = s.n as f64 * 0.25;
    let all = |sig: &'static str, g: ConstMatrix<f64, R, C>, w: &dyn Fn(usize, usize) -> f64| -> Res { for i in 0..R { for j in 0..C { check!(g[i][j] == w(i, j), sig, "entry ({},{}) is {:e}, expected {:e}", i, j, g[i][j], w(i, j)); } } Ok(()) };
    all("constmat:add", must("add", || { let mut t = fa; t += fb; t })?, &|i, j| (a[i][j] + b[i][j]) as f64 * x)?;
    all("constmat:sub", must("sub", || { let mut t = fa; t -= fb; t })?, &|i, j| (a[i][j] - b[i][j]) as f64 * x)?;
    all("constmat:mul", must("mul", || fa * k)?, &|i, j| a[i][j] as f64 * k * x)?;
    all("constmat:neg", must("neg", || -fa)?, &|i, j| -a[i][j] as f64 * x)?;
    all("constmat:div", must("div", || fa / 0.25)?, &|i, j| a[i][j] as f64 * 4.0 * x)?;
    check!((fa == fb) == (a == b), "constmat:eq", "{:?} == {:?} times 2^{} gave {}", a, b, e, fa == fb);
    let v = |i: usize, m: &[[i64; C]; R], x: f64| ConstVector::<f64, C>::from(std::array::from_fn::<f64, C, _>(|j| m[i][j] as f64 * x));
    let vall = |sig: &'static str, g: ConstVector<f64, C>, w: &dyn Fn(usize) -> f64| -> Res { for j in 0..C { check!(g[j] == w(j), sig, "entry {} is {:e}, expected {:e}", j, g[j], w(j)); } Ok(()) };
    for i in 0..R {
        let (va, vb) = (v(i, &a, x), v(i, &b, x));
        vall("constvec:add", must("add", || va + vb)?, &|j| (a[i][j] + b[i][j]) as f64 * x)?; vall("constvec:sub", must("sub", || va - vb)?, &|j| (a[i][j] - b[i][j]) as f64 * x)?; vall("constvec:mul", must("mul", || va * k)?, &|j| a[i][j] as f64 * k * x)?; vall("constvec:div", must("div", || va / 0.25)?, &|j| a[i][j] as f64 * 4.0 * x)?;
        check!((va == vb) == (a[i] == b[i]), "constvec:eq", "{:?} == {:?} times 2^{} gave {}", a[i], b[i], e, va == vb);
        let w: i64 = (0..C).map(|j| a[i][j] * b[i][j]).sum(); let d = must("dot", || va.dot(v(i, &b, 0.5)))?; check!(d == w as f64 * (x * 0.5), "constvec:dot", "dot product {:e} expected {:e}", d, w as f64 * (x * 0.5));
        if e > -200 { let n = must("norm", || va.two_norm())?; let w = (a[i].iter().map(|x| x * x).sum::<i64>() as f64).sqrt() * x; check!((n - w).abs() <= 1e-12 * w, "constvec:norm", "two_norm {:e} expected {:e}", n, w); }
    }
    // fractions
    let q = |m: &[[i64; C]; R], i: usize, j: usize| Fr::new(m[i][j] as i128, den + (i + j) as i128 % 2);
    let g = |m: &[[i64; C]; R]| ConstMatrix::<Rational, R, C>::from(std::array::from_fn::<[Rational; C], R, _>(|i| std::array::from_fn(|j| q(m, i, j).mk())));
    let (qa, qb) = (g(&a), g(&b));
    let qall = |sig: &'static str, g: ConstMatrix<Rational, R, C>, w: &dyn Fn(Fr, Fr) -> Fr| -> Res { for i in 0..R { for j in 0..C { let w = w(q(&a, i, j), q(&b, i, j)); check!(g[i][j].to_string() == w.show(), sig, "entry ({},{}) is {}, expected {}", i, j, g[i][j], w.show()); } } Ok(()) };
    qall("constmat:add", must("add", || { let mut t = qa; t += qb; t })?, &|x, y| x.add(y))?;
    qall("constmat:sub", must("sub", || { let mut t = qa; t -= qb; t })?, &|x, y| x.sub(y))?;
    qall("constmat:mul", must("mul", || qa * s.mk())?, &|x, _| x.mul(s))?;
    qall("constmat:div", must("div", || qa / s.mk())?, &|x, _| x.div(s))?;
    check!((qa == qb) == (a == b), "constmat:eq", "fractions {:?} == {:?} gave {}", a, b, qa == qb);
    ctx.see("fractions and reals at other scales compared");
    Ok(())
}
pub fn c21(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 8) { return match ctx.rng.below(13) { 9 => vecs::<f64, 100>(ctx), 10 => mats::<f64, 2, 33>(ctx), 11 => mats::<Rational, 25, 3>(ctx), 12 => mats::<f64, 33, 34>(ctx), 0 => vecs::<f64, 13>(ctx), 1 => vecs::<Rational, 17>(ctx), 2 => vecs::<f64, 40>(ctx), 3 => mats::<f64, 9, 2>(ctx), 4 => mats::<Rational, 2, 12>(ctx), 5 => mats::<f64, 17, 17>(ctx), 6 => scaled_const::<3, 4>(ctx), 7 => scaled_const::<1, 6>(ctx), _ => scaled_const::<5, 2>(ctx) }; }
    match ctx.idx % 12 {
        0 => vecs::<f64, 1>(ctx), 1 => vecs::<Rational, 2>(ctx), 2 => vecs::<f64, 3>(ctx), 3 => vecs::<Rational, 5>(ctx), 4 => vecs::<f64, 8>(ctx),
        5 => mats::<f64, 1, 1>(ctx), 6 => mats::<Rational, 2, 3>(ctx), 7 => mats::<f64, 3, 2>(ctx), 8 => mats::<Rational, 4, 4>(ctx), 9 => mats::<f64, 1, 5>(ctx), 10 => mats::<Rational, 5, 1>(ctx), _ => mats::<f64, 3, 6>(ctx),
    }
}
