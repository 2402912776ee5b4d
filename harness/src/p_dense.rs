//! C17 dense matrix algebra; C18 views and in-place operations through views. Model: Vec<Vec<i64>>.
use crate::check;
use crate::core::*;
use alg::commutative::{Rational, PID, One, Zero};
use alg::lin_alg::{Matrix, SubMatrix};
use std::fmt::{Debug, Display};

pub type M = Vec<Vec<i64>>;
pub trait Sc: PID + Copy + Debug + Display { fn of(x: i64) -> Self; }
impl Sc for i64 { fn of(x: i64) -> i64 { x } }
impl Sc for i32 { fn of(x: i64) -> i32 { x as i32 } }
impl Sc for i128 { fn of(x: i64) -> i128 { x as i128 } }
impl Sc for f64 { fn of(x: i64) -> f64 { x as f64 } }
impl Sc for Rational { fn of(x: i64) -> Rational { Rational::new(x, 1) } }

pub fn gen(r: &mut Rng, n: usize, m: usize) -> M { let e = *r.pick(&[1i64, 3, 9, 50]); let d = r.size(1, 3); (0..n).map(|_| (0..m).map(|_| if r.chance(d, 3) { r.range(-e, e) } else { 0 }).collect()).collect() }
pub fn dims(m: &M, c: usize) -> (usize, usize) { (m.len(), if m.is_empty() { c } else { m[0].len() }) }
pub fn tr(m: &M) -> M { if m.is_empty() { return vec![]; } (0..m[0].len()).map(|j| m.iter().map(|r| r[j]).collect()).collect() }
pub fn mm(a: &M, b: &M) -> M { a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|k| r[k] * b[k][j]).sum()).collect()).collect() }
pub fn zip(a: &M, b: &M, f: impl Fn(i64, i64) -> i64) -> M { a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(&p, &q)| f(p, q)).collect()).collect() }
pub fn map(a: &M, f: impl Fn(i64) -> i64) -> M { a.iter().map(|x| x.iter().map(|&p| f(p)).collect()).collect() }
pub fn mk<T: Sc>(a: &M) -> Matrix<T> { Matrix::from_array(a.iter().map(|r| r.iter().map(|&x| T::of(x)).collect()).collect()) }
pub fn show(a: &M) -> String { format!("[{}]", a.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; ")) }

/// compare a view with the model, entry by entry and through Debug
pub fn eqv<T: Sc>(ctx: &mut Ctx, v: &SubMatrix<T>, m: &M, cols: usize, sig: &str, what: &str) -> Res {
    ctx.see("views compared");
    let d = dims(m, cols);
    check!(v.size() == d, format!("{}:size", sig), "{}: size {:?} expected {:?}", what, v.size(), d);
    check!(v.size_as_range() == (0..d.0, 0..d.1), format!("{}:size", sig), "{}: size_as_range", what);
    for i in 0..d.0 { for j in 0..d.1 { 
        let x = must(sig, || v[(i, j)])?;
        check!(x == T::of(m[i][j]), format!("{}:entry", sig), "{}: entry ({},{}) is {:?}, expected {} in {}", what, i, j, x, m[i][j], show(m)); } }
    ctx.see_n("entries compared", (d.0 * d.1) as u64);
    Ok(())
}
fn dbg<T: Sc>(v: &SubMatrix<T>, m: &M) -> Res {
    if m.is_empty() || m[0].is_empty() { return Ok(()); }
    let s = must("matrix debug", || format!("{:?}", v))?.replace("-0.0", "0.0");
    let w = format!("\n{}", m.iter().map(|r| format!("| {} |\n", r.iter().map(|&x| format!("{:?}", T::of(x))).collect::<Vec<_>>().join("\t"))).collect::<String>());
    check!(s == w, "dense:debug", "Debug printed {:?} expected {:?}", s, w);
    let s = must("matrix display", || format!("{}", v))?.replace("-0.0", "0.0");
    let w = format!("\n{}", m.iter().map(|r| format!("| {} |\n", r.iter().map(|&x| format!("{:.3}", T::of(x))).collect::<Vec<_>>().join("\t"))).collect::<String>());
    check!(s == w, "dense:display", "Display printed {:?} expected {:?}", s, w);
    Ok(())
}

fn algebra<T: Sc>(ctx: &mut Ctx, name: &str) -> Res {
    let top = if ctx.rng.chance(1, 3000) { 45 } else if ctx.thorough { 12 } else { 7 };
    let (mut n, mut m, mut k) = (ctx.rng.size(1, top), ctx.rng.size(1, top), ctx.rng.size(1, top));
    if ctx.rng.chance(1, 1500) { let long = *ctx.rng.pick(&[127usize, 128, 129, 255, 256, 257, 300]); (n, m, k) = (n.min(3), m.min(3), k.min(3)); match ctx.rng.below(3) { 0 => n = long, 1 => m = long, _ => k = long } ctx.see("long shapes"); }
    let (a, b, c, d) = { let r = &mut ctx.rng; (gen(r, n, m), gen(r, n, m), gen(r, m, k), gen(r, k, m)) };
    let (a, b, c, d) = if name != "i32" && ctx.rng.chance(1, 12) { let r = &mut ctx.rng; let mut f = |x: M| -> M { x.iter().map(|w| w.iter().map(|v| if r.chance(1, 3) { v * 200 } else { *v }).collect()).collect() }; (f(a), f(b), f(c), f(d)) } else { (a, b, c, d) };
    let s = ctx.rng.range(-7, 7);
    ctx.input(format!("{}: A={} B={} C={} D={} s={}", name, show(&a), show(&b), show(&c), show(&d), s), n * m > 1);
    let (ma, mb, mc, md) = (mk::<T>(&a), mk::<T>(&b), mk::<T>(&c), mk::<T>(&d));
    eqv(ctx, &ma, &a, m, "dense:new", "from_array")?;
    dbg(&ma, &a)?;
    if ctx.idx % 8 == 0 {
        use alg::matrix;
        let q: Vec<i64> = (0..6).map(|_| ctx.rng.range(-9, 9)).collect(); let t = |i: usize| T::of(q[i]);
        eqv(ctx, &must("matrix!", || matrix! { T; [[t(0), t(1), t(2)], [t(3), t(4), t(5)]] })?, &vec![q[..3].to_vec(), q[3..].to_vec()], 3, "dense:macro", "matrix!")?;
    }
    let e = zip(&a, &b, |x, y| x + y); let f = zip(&a, &b, |x, y| x - y);
    macro_rules! same { ($sig:expr, $want:expr, $cols:expr, $($e:expr),*) => { $( { let got: Matrix<T> = must($sig, || $e)?; eqv(ctx, &got, $want, $cols, $sig, stringify!($e))?; } )* } }
    same!("dense:add", &e, m, &*ma + &*mb, ma.clone() + &*mb, &*ma + mb.clone(), ma.clone() + mb.clone(), { let mut x = ma.clone(); x += &*mb; x }, { let mut x = ma.clone(); x += mb.clone(); x });
    same!("dense:sub", &f, m, &*ma - &*mb, ma.clone() - &*mb, &*ma - mb.clone(), ma.clone() - mb.clone(), { let mut x = ma.clone(); x -= &*mb; x }, { let mut x = ma.clone(); x -= mb.clone(); x });
    let p = mm(&a, &c);
    same!("dense:mul", &p, k, &*ma * &*mc, ma.clone() * &*mc, &*ma * mc.clone(), ma.clone() * mc.clone());
    let q = mm(&a, &tr(&d)); let qt = tr(&q);
    same!("dense:mul-transposed", &q, k, &*ma * md.transpose_view(), ma.clone() * md.clone().transpose(), &*ma * &*md.clone().transpose());
    same!("dense:mul-transposed", &qt, n, &*md * ma.transpose_view(), { let t = ma.clone().transpose(); &*md * &*t });
    let sc = map(&a, |x| x * s);
    same!("dense:scalar", &sc, m, &*ma * T::of(s), ma.clone() * T::of(s), { let mut x = ma.clone(); x *= T::of(s); x }, { let mut x = ma.clone(); *x *= T::of(s); x });
    let at = tr(&a);
    same!("dense:transpose", &at, n, ma.clone().transpose(), ma.transpose_view().as_matrix());
    same!("dense:transpose", &a, m, ma.clone().transpose().transpose(), ma.transpose_view().transpose().as_matrix(), ma.clone().transpose().clone().transpose());
    // a transposed matrix behaves like any other: sums, products, writes
    let tsum = zip(&at, &tr(&b), |x, y| x + y);
    same!("dense:transposed-sum", &tsum, n, ma.clone().transpose() + mb.clone().transpose(), ma.transpose_view() + mb.transpose_view(), { let mut x = ma.clone().transpose(); x += mb.transpose_view(); x });
    // equality
    check!((&*ma == &*mb) == (a == b) && (ma == mb) == (a == b), "dense:eq", "{} == {} gave {}", show(&a), show(&b), ma == mb);
    check!(ma == ma.clone() && *ma == *ma.clone() && ma.clone().transpose().transpose() == ma, "dense:eq", "a copy differs");
    check!((&*ma == ma.transpose_view()) == (a == at), "dense:eq", "{} compared with its transpose", show(&a));
    let cmpb: bool = must("SubMatrix == Matrix", || *ma == mb)?;
    check!(cmpb == (a == b), "dense:eq", "view == matrix");
    if n != m || m != k { let x = &*ma == &*mc; check!(x == (a == c), "dense:eq", "different shapes compared equal"); }
    // dot
    let row = ctx.rng.below(n); let col = ctx.rng.below(k);
    let dt = must("dot", || ma[(row, ..)].dot(&mc[(.., col)]))?;
    check!(dt == T::of(p[row][col]), "dense:dot", "row {} of A dot column {} of C = {:?} expected {}", row, col, dt, p[row][col]);
    // units, laws
    same!("dense:identity", &a, m, Matrix::<T>::identity(n) * &*ma, &*ma * Matrix::<T>::identity(m), ma.clone() + Matrix::<T>::zero(n, m));
    let pd = mm(&p, &d);
    same!("dense:assoc", &pd, m, (&*ma * &*mc) * &*md, &*ma * (&*mc * &*md));
    // operands that share storage: a square window times itself, a window times another, a matrix times a view of it
    let w = n.min(m); let sq: M = a[..w].iter().map(|r| r[..w].to_vec()).collect(); let sq2 = mm(&sq, &sq);
    let lead: M = a.iter().map(|r| r[..w].to_vec()).collect(); let top: M = a[..w].to_vec(); let lt = mm(&lead, &top); let gram = mm(&a, &at);
    same!("dense:shared", &sq2, w, &ma[(..w, ..w)] * &ma[(..w, ..w)], { let v = &ma[(..w, ..w)]; v * v });
    same!("dense:shared", &lt, m, &ma[(.., ..w)] * &ma[(..w, ..)]);
    same!("dense:shared", &gram, n, &*ma * ma.transpose_view());
    let dbl = map(&a, |x| 2 * x); same!("dense:shared", &dbl, m, &*ma + &*ma, { let mut x = ma.clone(); x += &*ma; x });
    // windows of two matrices that agree inside or differ there
    let j0 = ctx.rng.below(m); let mut far = a.clone(); for r in far.iter_mut() { for (j, x) in r.iter_mut().enumerate() { if j != j0 { *x += 1; } } }
    let mfar = mk::<T>(&far); let i0 = ctx.rng.below(n); let mut near = a.clone(); near[i0][j0] += 1; let mnear = mk::<T>(&near);
    let (x, y, z) = (&ma[(.., j0..j0 + 1)], &mfar[(.., j0..j0 + 1)], &mnear[(.., j0..j0 + 1)]);
    check!(x == y && x.transpose() == y.transpose() && x != z && x.transpose() != z.transpose(), "dense:eq", "columns {} of {}, {} and {} compared", j0, show(&a), show(&far), show(&near));
    // mismatched operations are refused
    if n != m { check!(guard(|| &*ma + ma.transpose_view()).is_err() && guard(|| ma.clone() - ma.clone().transpose()).is_err(), "dense:mismatch", "sum of {}x{} and {}x{} accepted", n, m, m, n); }
    if m != n || true { let bad = mk::<T>(&gen(&mut ctx.rng, m + 1, 2)); check!(guard(|| &*ma * &*bad).is_err(), "dense:mismatch", "product of sizes {}x{} and {}x2 accepted", n, m, m + 1); }
    if ctx.rng.chance(1, 12) { // in every form, and the refusing operand stays as it was
        let (bn, bm) = *ctx.rng.pick(&[(n + 1, m), (n, m + 1), (n + 1, m + 1), (n + 2, m), (m + 1, n + 1)]); let bad = mk::<T>(&gen(&mut ctx.rng, bn, bm));
        if (bn, bm) != (n, m) {
            let mut x = ma.clone(); let mut y = bad.clone();
            let acc: Vec<&str> = [("&+&", guard(|| { let _ = &*ma + &*bad; }).is_ok()), ("&-&", guard(|| { let _ = &*ma - &*bad; }).is_ok()), ("a+b", guard(|| { let _ = ma.clone() + bad.clone(); }).is_ok()), ("b+a", guard(|| { let _ = bad.clone() + ma.clone(); }).is_ok()),
                ("a-b", guard(|| { let _ = ma.clone() - bad.clone(); }).is_ok()), ("b-a", guard(|| { let _ = bad.clone() - ma.clone(); }).is_ok()), ("a+&b", guard(|| { let _ = ma.clone() + &*bad; }).is_ok()), ("&a-b", guard(|| { let _ = &*ma - bad.clone(); }).is_ok()),
                ("a+=&b", guard(|| { x += &*bad; }).is_ok()), ("a-=&b", guard(|| { x -= &*bad; }).is_ok()), ("b+=&a", guard(|| { y += &*ma; }).is_ok()), ("b-=&a", guard(|| { y -= &*ma; }).is_ok())].iter().filter(|x| x.1).map(|x| x.0).collect();
            check!(acc.is_empty(), "dense:mismatch", "{:?} of {}x{} and {}x{} accepted", acc, n, m, bn, bm);
            eqv(ctx, &x, &a, m, "dense:operand", "a after refused sums")?;
        }
        if bn != m { check!(guard(|| { let _ = ma.clone() * bad.clone(); }).is_err() && guard(|| { let _ = ma.clone() * &*bad; }).is_err() && guard(|| { let _ = &*ma * bad.clone(); }).is_err() && guard(|| { let _ = &*ma * &*bad; }).is_err(), "dense:mismatch", "product of {}x{} and {}x{} accepted", n, m, bn, bm);
            check!(guard(|| { let _ = ma[(0, ..)].dot(&bad[(.., 0)]); }).is_err(), "dense:mismatch", "dot product of {} and {} entries accepted", m, bn); }
        if n > 1 || m > 1 { check!(guard(|| { let _ = if n > 1 { ma[(.., 0)].dot(&ma[(.., 0)]) } else { ma[(0, ..)].dot(&ma[(0, ..)]) }; }).is_err(), "dense:mismatch", "dot product of two columns or two rows accepted"); }
    }
    if n > 1 && m > 1 { // ragged input is refused
        let mut rg: Vec<Vec<T>> = a.iter().map(|r| r.iter().map(|&x| T::of(x)).collect()).collect();
        let i = ctx.rng.below(n); if ctx.rng.bool() { rg[i].pop(); } else { rg[i].push(T::of(1)); }
        check!(guard(|| Matrix::from_array(rg)).is_err(), "dense:ragged", "rows of different length accepted by the constructor ({}x{}, row {} differs)", n, m, i);
    }
    // operands unchanged
    eqv(ctx, &ma, &a, m, "dense:operand", "left operand after the operations")?;
    eqv(ctx, &mb, &b, m, "dense:operand", "right operand after the operations")?;
    Ok(())
}
trait TV<T: PID> { fn transpose_view(&self) -> &SubMatrix<T>; }
impl<T: PID> TV<T> for Matrix<T> { fn transpose_view(&self) -> &SubMatrix<T> { SubMatrix::transpose(&**self) } }

pub fn c17(ctx: &mut Ctx) -> Res {
    match ctx.idx % 5 {
        0 => algebra::<i64>(ctx, "i64"),
        1 => { if ctx.rng.chance(1, 4) { return scaled(ctx); } algebra::<f64>(ctx, "f64")?; field::<f64>(ctx) }
        2 => { if ctx.rng.chance(1, 4) { return fractions(ctx); } algebra::<Rational>(ctx, "Rational")?; field::<Rational>(ctx) }
        3 => algebra::<i128>(ctx, "i128"),
        _ => { let r = algebra::<i32>(ctx, "i32"); r?; lscal(ctx) }
    }
}
/// real entries that are no integers: powers of two times small integers, whose sums and products are exact
fn scaled(ctx: &mut Ctx) -> Res {
    let (n, m, k) = (ctx.rng.size(1, 5), ctx.rng.size(1, 5), ctx.rng.size(1, 5));
    let (a, b, c) = { let r = &mut ctx.rng; (gen(r, n, m), gen(r, n, m), gen(r, m, k)) };
    let ea = *ctx.rng.pick(&[-1i32, -3, -20, -40, -60, -200, -400, 20, 60, 300]); let ec = *ctx.rng.pick(&[0i32, -2, -30, -60, -300, 40]);
    let (x, y) = (2f64.powi(ea), 2f64.powi(ec)); let s = ctx.rng.range(-6, 6);
    ctx.input(format!("f64: A={} B={} times 2^{}, C={} times 2^{}, s={}", show(&a), show(&b), ea, show(&c), ec, s), n * m > 1);
    let f = |a: &M, x: f64| Matrix::from_array(a.iter().map(|r| r.iter().map(|&v| v as f64 * x).collect()).collect::<Vec<Vec<f64>>>());
    let (ma, mb, mc) = (f(&a, x), f(&b, x), f(&c, y));
    let eq = |sig: &'static str, g: Matrix<f64>, w: &M, x: f64| -> Res { let d = (w.len(), w[0].len()); check!((*g).size() == d, sig, "size {:?} expected {:?}", (*g).size(), d); for i in 0..d.0 { for j in 0..d.1 { check!(g[(i, j)] == w[i][j] as f64 * x, sig, "entry ({},{}) is {:e}, expected {:e}", i, j, g[(i, j)], w[i][j] as f64 * x); } } Ok(()) };
    eq("dense:add", must("add", || &*ma + &*mb)?, &zip(&a, &b, |p, q| p + q), x)?;
    eq("dense:add", must("add", || { let mut t = ma.clone(); t += &*mb; t })?, &zip(&a, &b, |p, q| p + q), x)?;
    eq("dense:sub", must("sub", || &*ma - &*mb)?, &zip(&a, &b, |p, q| p - q), x)?;
    eq("dense:sub", must("sub", || { let mut t = ma.clone(); t -= &*mb; t })?, &zip(&a, &b, |p, q| p - q), x)?;
    eq("dense:mul", must("mul", || &*ma * &*mc)?, &mm(&a, &c), x * y)?;
    eq("dense:mul-transposed", must("mul", || mc.transpose_view() * ma.transpose_view())?, &tr(&mm(&a, &c)), x * y)?;
    eq("dense:scalar", must("scale", || &*ma * (s as f64 * y))?, &map(&a, |v| v * s), x * y)?;
    eq("dense:scalar", must("scale", || (s as f64 * y) * &*ma)?, &map(&a, |v| v * s), x * y)?;
    if s != 0 { eq("dense:div", must("div", || f(&map(&a, |v| v * s), x) / (s as f64 * y))?, &a, x / y)?; }
    eq("dense:transpose", must("transpose", || ma.clone().transpose())?, &tr(&a), x)?;
    // equality is exact, however small the difference
    check!((ma == mb) == (a == b) && (*ma == *mb) == (a == b) && ma == ma.clone(), "dense:eq", "{} == {} (times 2^{}) gave {}", show(&a), show(&b), ea, ma == mb);
    let mut near = a.clone(); let (i, j) = (ctx.rng.below(n), ctx.rng.below(m)); near[i][j] += if ctx.rng.bool() { 1 } else { -1 };
    let mn = f(&near, x); check!(ma != mn && *mn != *ma && ma.transpose_view() != mn.transpose_view(), "dense:eq", "matrices that differ by 2^{} at ({},{}) are equal: {}", ea, i, j, show(&a));
    let l = i; let d = must("dot", || ma[(l, ..)].dot(&mc[(.., 0)]))?; check!(d == mm(&a, &c)[l][0] as f64 * (x * y), "dense:dot", "dot product {:e}", d);
    ctx.see("matrices of reals at other scales compared");
    Ok(())
}
/// rational entries with denominators, against exact fractions
fn fractions(ctx: &mut Ctx) -> Res {
    use crate::p_num::Fr;
    type Q = Vec<Vec<Fr>>;
    let (n, m, k) = (ctx.rng.size(1, 4), ctx.rng.size(1, 4), ctx.rng.size(1, 4));
    let q = |r: &mut Rng, n: usize, m: usize| -> Q { (0..n).map(|_| (0..m).map(|_| Fr::new(r.range(-6, 6) as i128, *r.pick(&[1i128, 1, 2, 3, 4, 5, 6]))).collect()).collect() };
    let (a, b, c, s) = { let r = &mut ctx.rng; let a = q(r, n, m); let mut b = q(r, n, m); if r.chance(1, 4) { b = a.clone(); } (a, b, q(r, m, k), Fr::new(r.range(-5, 5) as i128, r.range(1, 7) as i128)) };
    let sh = |a: &Q| a.iter().map(|r| r.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; ");
    ctx.input(format!("Rational: A={} B={} C={} s={}", sh(&a), sh(&b), sh(&c), s.show()), n * m > 1);
    let f = |a: &Q| Matrix::from_array(a.iter().map(|r| r.iter().map(|v| v.mk()).collect()).collect::<Vec<Vec<Rational>>>());
    let (ma, mb, mc) = (f(&a), f(&b), f(&c));
    let z = |g: &dyn Fn(Fr, Fr) -> Fr| -> Q { a.iter().zip(&b).map(|(x, y)| x.iter().zip(y).map(|(&p, &q)| g(p, q)).collect()).collect() };
    let tq = |a: &Q| -> Q { (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect() };
    let p: Q = a.iter().map(|r| (0..k).map(|j| (0..m).fold(Fr::new(0, 1), |t, l| t.add(r[l].mul(c[l][j])))).collect()).collect();
    let eq = |sig: &'static str, g: Matrix<Rational>, w: &Q| -> Res { let d = (w.len(), w[0].len()); check!((*g).size() == d, sig, "size {:?} expected {:?}", (*g).size(), d); for i in 0..d.0 { for j in 0..d.1 { check!(g[(i, j)].to_string() == w[i][j].show(), sig, "entry ({},{}) is {}, expected {}", i, j, g[(i, j)], w[i][j].show()); } } check!(g == f(w), "dense:eq", "equal matrices of fractions are different: {}", sh(w)); Ok(()) };
    eq("dense:add", must("add", || &*ma + &*mb)?, &z(&|x, y| x.add(y)))?;
    eq("dense:add", must("add", || { let mut t = ma.clone(); t += &*mb; t })?, &z(&|x, y| x.add(y)))?;
    eq("dense:sub", must("sub", || &*ma - &*mb)?, &z(&|x, y| x.sub(y)))?;
    eq("dense:sub", must("sub", || { let mut t = ma.clone(); t -= mb.clone(); t })?, &z(&|x, y| x.sub(y)))?;
    eq("dense:mul", must("mul", || &*ma * &*mc)?, &p)?;
    eq("dense:mul-transposed", must("mul", || mc.transpose_view() * ma.transpose_view())?, &tq(&p))?;
    let sc = |g: &dyn Fn(Fr) -> Fr| -> Q { a.iter().map(|r| r.iter().map(|&x| g(x)).collect()).collect() };
    eq("dense:scalar", must("scale", || &*ma * s.mk())?, &sc(&|x| x.mul(s)))?;
    eq("dense:scalar", must("scale", || s.mk() * &*ma)?, &sc(&|x| x.mul(s)))?;
    if s.n != 0 { eq("dense:div", must("div", || ma.clone() / s.mk())?, &sc(&|x| x.div(s)))?; eq("dense:div", must("div", || { let mut t = ma.clone(); t /= s.mk(); t })?, &sc(&|x| x.div(s)))?; }
    eq("dense:transpose", must("transpose", || ma.clone().transpose())?, &tq(&a))?;
    check!((ma == mb) == (a == b), "dense:eq", "{} == {} gave {}", sh(&a), sh(&b), ma == mb);
    let (i, j) = (ctx.rng.below(n), ctx.rng.below(m)); let mut near = a.clone(); near[i][j] = if ctx.rng.bool() { near[i][j].add(Fr::new(1, 60)) } else { Fr::new(near[i][j].n, near[i][j].d + 1) };
    if near != a { check!(ma != f(&near), "dense:eq", "{} equals {}", sh(&a), sh(&near)); }
    ctx.see("matrices of fractions compared");
    Ok(())
}
fn field<T: Sc + alg::commutative::Field>(ctx: &mut Ctx) -> Res {
    let (n, m) = (ctx.rng.size(1, 5), ctx.rng.size(1, 5));
    let a = gen(&mut ctx.rng, n, m); let s = loop { let s = ctx.rng.range(-6, 6); if s != 0 { break s; } };
    let big = map(&a, |x| x * s);
    let mb = mk::<T>(&big);
    for (w, x) in [("&A/s", must("dense:div", || &*mb / T::of(s))?), ("A/s", must("dense:div", || mb.clone() / T::of(s))?), ("A/=s", must("dense:div", || { let mut x = mb.clone(); x /= T::of(s); x })?), ("view/=s", must("dense:div", || { let mut x = mb.clone(); x[(.., ..)] /= T::of(s); x })?)] { eqv(ctx, &x, &a, m, "dense:div", w)?; }
    Ok(())
}
fn lscal(ctx: &mut Ctx) -> Res {
    let (n, m) = (ctx.rng.size(1, 5), ctx.rng.size(1, 5));
    let a = gen(&mut ctx.rng, n, m); let s = ctx.rng.range(-6, 6); let want = map(&a, |x| x * s);
    let x = must("dense:scalar", || s * &*mk::<i64>(&a))?; eqv(ctx, &x, &want, m, "dense:scalar", "s * &A")?;
    let x = must("dense:scalar", || (s as f64) * &*mk::<f64>(&a))?; eqv(ctx, &x, &want, m, "dense:scalar", "s * &A")?;
    let x = must("dense:scalar", || Rational::new(s, 1) * &*mk::<Rational>(&a))?; eqv(ctx, &x, &want, m, "dense:scalar", "s * &A")?;
    // norms of real matrices
    let f = mk::<f64>(&a);
    let one = (0..m).map(|j| (0..n).map(|i| a[i][j].abs()).sum::<i64>()).max().unwrap();
    let inf = (0..n).map(|i| (0..m).map(|j| a[i][j].abs()).sum::<i64>()).max().unwrap();
    let fro = (a.iter().flatten().map(|x| x * x).sum::<i64>() as f64).sqrt();
    check!(f.one_norm() == one as f64 && (&*f).one_norm() == one as f64, "dense:norm", "one norm {} expected {} for {}", f.one_norm(), one, show(&a));
    check!(f.inf_norm() == inf as f64, "dense:norm", "inf norm {} expected {} for {}", f.inf_norm(), inf, show(&a));
    check!((f.frobenius_norm() - fro).abs() <= 1e-12 * (1.0 + fro), "dense:norm", "Frobenius norm {} expected {} for {}", f.frobenius_norm(), fro, show(&a));
    let c = ctx.rng.below(m); let two = (a.iter().map(|r| r[c] * r[c]).sum::<i64>() as f64).sqrt();
    let g = must("two_norm", || f[(.., c)].two_norm())?;
    check!((g - two).abs() <= 1e-12 * (1.0 + two), "dense:norm", "two norm {} expected {}", g, two);
    Ok(())
}

// ---------------------------------------------------------------- views
#[derive(Clone, Copy, Debug)]
pub enum R1 { Range(usize, usize), From(usize), Full, Incl(usize, usize), To(usize), ToIncl(usize), At(usize) }
impl R1 {
    pub fn bounds(self, n: usize) -> (usize, usize) { match self { R1::Range(a, b) => (a, b), R1::From(a) => (a, n), R1::Full => (0, n), R1::Incl(a, b) => (a, b + 1), R1::To(b) => (0, b), R1::ToIncl(b) => (0, b + 1), R1::At(a) => (a, a + 1) } }
    pub fn gen(r: &mut Rng, n: usize, empty: bool) -> R1 {
        // non-empty unless `empty`
        if n == 0 { return match r.below(4) { 0 => R1::Range(0, 0), 1 => R1::From(0), 2 => R1::Full, _ => R1::To(0) }; }
        let a = r.below(n); let b = r.size(a, n - 1);
        match r.below(7) { 0 => R1::Range(a, if empty && r.chance(1, 3) { a } else { b + 1 }), 1 => R1::From(if empty && r.chance(1, 4) { n } else { a }), 2 => R1::Full, 3 => R1::Incl(a, b), 4 => R1::To(if empty && r.chance(1, 4) { 0 } else { b + 1 }), 5 => R1::ToIncl(b), _ => R1::At(a) }
    }
}
macro_rules! disp2 { ($m:expr, $get:ident, $r:expr, $c:expr) => { match $c {
    R1::Range(a, b) => $get!($m, $r, a..b), R1::From(a) => $get!($m, $r, a..), R1::Full => $get!($m, $r, ..), R1::Incl(a, b) => $get!($m, $r, a..=b), R1::To(b) => $get!($m, $r, ..b), R1::ToIncl(b) => $get!($m, $r, ..=b), R1::At(a) => $get!($m, $r, a) } } }
macro_rules! ix { ($m:expr, $r:expr, $c:expr) => { &$m[($r, $c)] } }
macro_rules! ixm { ($m:expr, $r:expr, $c:expr) => { &mut $m[($r, $c)] } }
macro_rules! disp_at { ($m:expr, $get:ident, $r:expr, $c:expr) => { match $c {
    R1::Range(a, b) => $get!($m, $r, a..b), R1::From(a) => $get!($m, $r, a..), R1::Full => $get!($m, $r, ..), R1::Incl(a, b) => $get!($m, $r, a..=b), R1::To(b) => $get!($m, $r, ..b), R1::ToIncl(b) => $get!($m, $r, ..=b), R1::At(a) => $get!($m, $r, a..a + 1) } } }
pub fn view<T: PID>(m: &SubMatrix<T>, r: R1, c: R1) -> &SubMatrix<T> {
    match r { R1::Range(a, b) => disp2!(m, ix, a..b, c), R1::From(a) => disp2!(m, ix, a.., c), R1::Full => disp2!(m, ix, .., c), R1::Incl(a, b) => disp2!(m, ix, a..=b, c), R1::To(b) => disp2!(m, ix, ..b, c), R1::ToIncl(b) => disp2!(m, ix, ..=b, c), R1::At(a) => disp_at!(m, ix, a, c) }
}
pub fn view_mut<T: PID>(m: &mut SubMatrix<T>, r: R1, c: R1) -> &mut SubMatrix<T> {
    match r { R1::Range(a, b) => disp2!(m, ixm, a..b, c), R1::From(a) => disp2!(m, ixm, a.., c), R1::Full => disp2!(m, ixm, .., c), R1::Incl(a, b) => disp2!(m, ixm, a..=b, c), R1::To(b) => disp2!(m, ixm, ..b, c), R1::ToIncl(b) => disp2!(m, ixm, ..=b, c), R1::At(a) => disp_at!(m, ixm, a, c) }
}
type Idx = Vec<Vec<(usize, usize)>>;
fn sub(ix: &Idx, r: (usize, usize), c: (usize, usize)) -> Idx { ix[r.0..r.1].iter().map(|x| x[c.0..c.1].to_vec()).collect() }
fn pull(ix: &Idx, a: &M) -> M { ix.iter().map(|r| r.iter().map(|&(i, j)| a[i][j]).collect()).collect() }

fn follow<'a, T: PID>(m: &'a SubMatrix<T>, p: &[Option<(R1, R1)>]) -> &'a SubMatrix<T> { let mut v = m; for s in p { v = match s { None => v.transpose(), Some((r, c)) => view(v, *r, *c) }; } v }
fn views<T: Sc>(ctx: &mut Ctx, name: &str) -> Res {
    let top = if ctx.rng.chance(1, 2000) { 80 } else if ctx.thorough { 14 } else { 9 };
    let (mut n, mut m) = (ctx.rng.size(1, top), ctx.rng.size(1, top));
    if ctx.rng.chance(1, 400) { let long = *ctx.rng.pick(&[127usize, 128, 129, 255, 256, 257, 300, 600]); if ctx.rng.bool() { n = long; m = m.min(4) } else { m = long; n = n.min(4) } ctx.see("long shapes"); }
    let mut a = gen(&mut ctx.rng, n, m);
    for (i, r) in a.iter_mut().enumerate() { for (j, x) in r.iter_mut().enumerate() { *x = *x * 1000 + (i * 100 + j) as i64; } }
    let mut mat = mk::<T>(&a);
    let mut log = format!("{} {}x{}", name, n, m);
    let mut flip = false;
    if ctx.rng.chance(1, 3) { mat = must("transpose", || mat.transpose())?; a = tr(&a); std::mem::swap(&mut n, &mut m); log += " transposed"; flip = true; }
    for _ in 0..ctx.rng.size(1, 6) {
        // a chain of nested immutable views, some transposed
        let mut idx: Idx = (0..n).map(|i| (0..m).map(|j| (i, j)).collect()).collect();
        let mut cols = m;
        let mut v: &SubMatrix<T> = &mat;
        let mut path: Vec<Option<(R1, R1)>> = vec![];
        let mut l = String::new();
        for _ in 0..ctx.rng.size(1, 4) {
            if ctx.rng.chance(1, 3) { v = must("view transpose", || v.transpose())?; path.push(None); let (r, c) = (idx.len(), cols); let old = idx.clone(); idx = (0..c).map(|j| (0..r).map(|i| old[i][j]).collect()).collect(); cols = r; l += ".T"; if idx.is_empty() { break; } continue; }
            let allow_empty = ctx.rng.chance(1, 5);
            let (r, c) = (R1::gen(&mut ctx.rng, idx.len(), allow_empty), R1::gen(&mut ctx.rng, cols, allow_empty));
            l += &format!("[({:?},{:?})]", r, c);
            v = must("view", || view(v, r, c))?; path.push(Some((r, c)));
            let (rb, cb) = (r.bounds(idx.len()), c.bounds(cols));
            idx = sub(&idx, rb, cb); cols = cb.1 - cb.0;
            if idx.is_empty() || cols == 0 { ctx.see("empty views"); }
            if idx.is_empty() { break; }
        }
        let want = pull(&idx, &a);
        eqv(ctx, v, &want, cols, "view", &format!("{} view {}", log, l))?;
        dbg(v, &want)?;
        if !want.is_empty() && cols > 0 {
            let own = must("as_matrix", || v.as_matrix())?; eqv(ctx, &own, &want, cols, "view:copy", &format!("{} view {} copied", log, l))?;
            check!(*own == *v, "view:eq", "copy of view {} differs from it", l);
            let s = ctx.rng.range(-3, 3);
            let x = must("view scale", || v * T::of(s))?; eqv(ctx, &x, &map(&want, |x| x * s), cols, "view:scale", &l)?;
            let g = must("view gram", || v * v.transpose())?; eqv(ctx, &g, &mm(&want, &tr(&want)), want.len(), "view:mul", &l)?;
            // the same window of another matrix that agrees with this one inside the window, or differs there in one entry
            let (mut b, mut plain) = (a.clone(), a.clone());
            let inside: std::collections::BTreeSet<(usize, usize)> = idx.iter().flatten().copied().collect();
            for i in 0..n { for j in 0..m { if !inside.contains(&(i, j)) && ctx.rng.chance(2, 3) { b[i][j] += 7; } } }
            let (bi, bj) = { let r = ctx.rng.pick(&idx).clone(); *ctx.rng.pick(&r) }; plain[bi][bj] += 1;
            let wrap = |x: &M| if flip { mk::<T>(&tr(x)).transpose() } else { mk::<T>(x) };
            let (mb, mp) = (wrap(&b), wrap(&plain));
            let (vb, vp) = (follow(&mb, &path), follow(&mp, &path));
            check!(v == vb && vb == v && *vb == *v, "view:eq", "{} view {} differs from the same window of {}", log, l, show(&b));
            check!(v != vp && vp != v && !(vp == vb), "view:eq", "{} view {} equals the same window of {}", log, l, show(&plain));
            let g = must("view sum", || v + vp)?; eqv(ctx, &g, &zip(&want, &pull(&idx, &plain), |x, y| x + y), cols, "view:add", &l)?;
            // products and sums of different windows of one matrix
            let c = cols;
            let k = ctx.rng.size(1, n.min(m)); let (r0, c0) = (ctx.rng.below(n - k + 1), ctx.rng.below(m - k + 1));
            let (x, y) = (&mat[(r0..r0 + k, ..)], &mat[(.., c0..c0 + k)]);
            if n == m { let g = must("window product", || x * y)?; let (wx, wy) = (a[r0..r0 + k].to_vec(), a.iter().map(|r| r[c0..c0 + k].to_vec()).collect::<M>()); eqv(ctx, &g, &mm(&wx, &wy), k, "view:mul", &format!("{} rows {}..{} times columns {}..{}", log, r0, r0 + k, c0, c0 + k))?; ctx.see("products of windows of one matrix"); }
            { if c <= n { let w = &mat[(n - c.., ..)]; let g = must("window product", || v * w)?; eqv(ctx, &g, &mm(&want, &a[n - c..].to_vec()), m, "view:mul", &format!("{} view {} times the last rows", log, l))?; } }
            let g = must("view sum", || v + v)?; eqv(ctx, &g, &map(&want, |x| 2 * x), cols, "view:add", &l)?;
        }
        // accesses outside the view are refused even when the parent has such an entry
        let (vr, vc) = (idx.len(), cols);
        check!(guard(|| v[(vr, 0)]).is_err() && guard(|| v[(0, vc)]).is_err() && guard(|| v[(vr + 3, vc + 2)]).is_err() && guard(|| v[(usize::MAX, 0)]).is_err(), "view:oob", "an entry outside the {}x{} view {} was accepted", vr, vc, l);
        check!(guard(|| v[(0..vr + 1, ..)].size()).is_err() && guard(|| v[(.., 0..vc + 1)].size()).is_err() && guard(|| v[(0..=vr, ..)].size()).is_err() && guard(|| v[(vr, ..)].size()).is_err() && guard(|| v[(.., vc)].size()).is_err() && guard(|| v[(vr + 1.., ..)].size()).is_err(), "view:oob", "a range outside the {}x{} view {} was accepted", vr, vc, l);
        ctx.see("refused accesses");

        // in-place change through a chain of mutable views
        let mut idx: Idx = (0..n).map(|i| (0..m).map(|j| (i, j)).collect()).collect();
        let mut cols = m;
        let before = a.clone();
        let mut l = String::new();
        {
            let mut v: &mut SubMatrix<T> = &mut mat;
            for _ in 0..ctx.rng.size(0, 3) {
                let (r, c) = (R1::gen(&mut ctx.rng, idx.len(), false), R1::gen(&mut ctx.rng, cols, false));
                l += &format!("[({:?},{:?})]", r, c);
                v = must("view mut", move || view_mut(v, r, c))?;
                let (rb, cb) = (r.bounds(idx.len()), c.bounds(cols));
                idx = sub(&idx, rb, cb); cols = cb.1 - cb.0;
            }
            let (vr, vc) = (idx.len(), cols);
            let mut w = pull(&idx, &a);
            let r = &mut ctx.rng;
            let (r1, r2, c1, c2, s) = (r.below(vr), r.below(vr), r.below(vc), r.below(vc), r.range(-2, 2));
            let op = r.below(9);
            match op {
                0 => { l += &format!(" swap_rows {} {}", r1, r2); must("swap_rows", || v.swap_rows(r1, r2))?; w.swap(r1, r2); }
                1 => { l += &format!(" swap_cols {} {}", c1, c2); must("swap_cols", || v.swap_cols(c1, c2))?; for x in w.iter_mut() { x.swap(c1, c2); } }
                2 => { l += &format!(" row_operation {} {} {}", r1, r2, s); must("row_operation", || v.row_operation(r1, r2, T::of(s)))?; let x = w[r2].clone(); for j in 0..vc { w[r1][j] += s * x[j]; } }
                3 => { l += &format!(" col_operation {} {} {}", c1, c2, s); must("col_operation", || v.col_operation(c1, c2, T::of(s)))?; for x in w.iter_mut() { let y = x[c2]; x[c1] += s * y; } }
                4 => { let b = gen(r, vr, vc); l += &format!(" write {}", show(&b)); let mb = mk::<T>(&b); must("write", || v.write(&mb))?; w = b; }
                5 => { let b = gen(r, vc, vr); l += &format!(" write transpose of {}", show(&b)); let mb = mk::<T>(&b); must("write_and_move", || v.write_and_move(mb.transpose()))?; w = tr(&b); }
                6 => { l += &format!(" *= {}", s); must("mul_assign", || *v *= T::of(s))?; w = map(&w, |x| x * s); }
                7 => { let x = r.range(-99, 99); l += &format!(" ({},{})={}", r1, c1, x); must("index_mut", || v[(r1, c1)] = T::of(x))?; w[r1][c1] = x; }
                _ => { // a write of the wrong size and an out-of-range write are refused and change nothing
                    let b = mk::<T>(&gen(r, vr + 1, vc)); check!(guard(|| v.write(&b)).is_err(), "view:write-size", "write of {}x{} into {}x{} accepted", vr + 1, vc, vr, vc);
                    check!(guard(|| v[(vr, 0)] = T::of(1)).is_err() && guard(|| v[(0, vc)] = T::of(1)).is_err(), "view:oob", "write outside the view accepted");
                    check!(guard(|| v.swap_rows(0, vr)).is_err() && guard(|| v.swap_cols(0, vc)).is_err() && guard(|| v.row_operation(0, vr, T::of(2))).is_err() && guard(|| v.col_operation(vc, 0, T::of(2))).is_err(), "view:oob", "row/column operation outside the view accepted");
                    l += " refused writes";
                }
            }
            ctx.see("in-place operations");
            eqv(ctx, v, &w, vc, "view-write", &format!("{} view {}", log, l))?;
            for (i, r) in idx.iter().enumerate() { for (j, &(x, y)) in r.iter().enumerate() { a[x][y] = w[i][j]; } }
        }
        log += &l;
        // the parent changed exactly inside the view
        eqv(ctx, &mat, &a, m, "view-parent", &format!("{} (before: {})", log, show(&before)))?;
        if a.iter().flatten().any(|x| x.abs() > 1 << 20) { break; }
    }
    ctx.input(format!("{} => {}", log, show(&a)), n * m > 1);
    Ok(())
}
pub fn c18(ctx: &mut Ctx) -> Res {
    match ctx.idx % 4 { 0 => views::<i64>(ctx, "i64"), 1 => views::<f64>(ctx, "f64"), 2 => views::<Rational>(ctx, "Rational"), _ => views::<i128>(ctx, "i128") }
}
pub fn _unused() -> (i64, i64) { (i64::zero(), i64::one()) }
