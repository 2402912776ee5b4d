//! C15 formal sums; C16 descriptors of finitely generated modules.
use crate::check;
use crate::core::*;
use alg::commutative::{Rational, PID};
use alg::formal_sum_impl;
use alg::lin_alg::{Matrix, Module, Vector};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ob(pub u16);
impl std::fmt::Display for Ob { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
formal_sum_impl! { Ob }

pub type M = BTreeMap<u16, i64>;
fn norm(mut m: M) -> M { m.retain(|_, v| *v != 0); m }
fn madd(a: &M, b: &M, k: i64) -> M { let mut o = a.clone(); for (x, c) in b { *o.entry(*x).or_insert(0) += k * c; } norm(o) }
fn mscale(a: &M, k: i64) -> M { norm(a.iter().map(|(x, c)| (*x, c * k)).collect()) }

trait Sc: PID + std::fmt::Display + std::fmt::Debug { fn k(x: i64) -> Self; }
impl Sc for i64 { fn k(x: i64) -> i64 { x } }
impl Sc for i128 { fn k(x: i64) -> i128 { x as i128 } }
impl Sc for f64 { fn k(x: i64) -> f64 { x as f64 } }
impl Sc for Rational { fn k(x: i64) -> Rational { Rational::new(x, 1) } }
type V<C> = Vector<C, Ob>;

/// read a printed sum back
pub fn parse(s: &str) -> Option<M> {
    let mut m = M::new();
    if s == "0" { return Some(m); }
    for t in s.split(" + ") {
        let (neg, t) = match t.strip_prefix('-') { Some(r) if r.starts_with('<') => (true, r), _ => (false, t) };
        let (c, b) = match t.split_once('·') { Some((c, b)) => (c.trim_start_matches('(').trim_end_matches(')').parse().ok()?, b), None => (if neg { -1 } else { 1 }, t) };
        let b: u16 = b.strip_prefix('<')?.strip_suffix('>')?.parse().ok()?;
        if m.insert(b, c).is_some() { return None; }
    }
    Some(m)
}
fn same<C: Sc>(ctx: &mut Ctx, what: &str, v: &V<C>, m: &M) -> Res {
    ctx.see("sums compared");
    let g: Vec<(C, u16)> = v.iter().map(|(c, b)| (c.clone(), b.0)).collect();
    let e: Vec<(C, u16)> = m.iter().map(|(b, c)| (C::k(*c), *b)).collect();
    check!(g == e, format!("sum:{}", what), "{} gave {:?}, expected {:?}", what, g, m);
    check!(v.len() == e.len(), format!("sum:{}:len", what), "{}: len {} for {:?}", what, v.len(), e);
    let s = v.to_string();
    check!(parse(&s).as_ref() == Some(m), format!("sum:{}:print", what), "{}: printed {} for {:?}", what, s, m);
    if let Some(c) = m.values().next() { check!((c.abs() == 1) != s.split(" + ").next().unwrap().contains('·'), format!("sum:{}:print", what), "{}: leading term of {} for {:?}", what, s, m); }
    for (b, c) in m { check!(v[&Ob(*b)] == C::k(*c), format!("sum:{}:coefficient", what), "{}: coefficient of {} is {} in {:?}", what, b, v[&Ob(*b)], m); }
    let back: Vec<(C, u16)> = v.clone().into_iter().map(|(c, b)| (c, b.0)).collect();
    check!(back == e, format!("sum:{}:into_iter", what), "{}: into_iter {:?} expected {:?}", what, back, e);
    Ok(())
}
fn gen_m(rng: &mut Rng, span: usize) -> M { let n = if rng.chance(1, 400) { rng.below(300) } else { rng.below(7) }; let most = if rng.chance(1, 10) { *rng.pick(&[1000i64, 1 << 20, 1 << 24]) } else { 4 }; let mut m = M::new(); for _ in 0..n { m.insert(rng.below(span) as u16, rng.range(-most, most)); } norm(m) }
/// coefficients that are no integers: reals at other scales and fractions
fn fine(ctx: &mut Ctx) -> Res {
    use crate::p_num::Fr;
    let span = *ctx.rng.pick(&[2usize, 4, 8]); let n = ctx.rng.size(2, 6);
    let e = *ctx.rng.pick(&[-2i32, -30, -53, -70, -400, 40]); let x = 2f64.powi(e); let den = ctx.rng.range(2, 9);
    let ms: Vec<M> = (0..n).map(|_| gen_m(&mut ctx.rng, span).into_iter().map(|(b, c)| (b, c % 50)).filter(|x| x.1 != 0).collect()).collect();
    ctx.input(format!("summands {:?} times 2^{} and over {}", ms, e, den), true);
    let kf = |c: i64| c as f64 * x; let kq = |b: u16, c: i64| Fr::new(c as i128, den as i128 + (b % 3) as i128);
    let f = |m: &M| -> V<f64> { m.iter().map(|(b, c)| V::<f64>::from(Ob(*b)) * kf(*c)).sum() };
    let q = |m: &M| -> V<Rational> { m.iter().map(|(b, c)| V::<Rational>::from(Ob(*b)) * kq(*b, *c).mk()).sum() };
    let sf = |what: &str, v: V<f64>, m: &M, x: f64| -> Res { let g: Vec<(f64, u16)> = v.iter().map(|(c, b)| (*c, b.0)).collect(); let w: Vec<(f64, u16)> = m.iter().map(|(b, c)| (*c as f64 * x, *b)).collect(); check!(g == w && v.len() == w.len(), format!("sum:{}", what), "{} gave {:?}, expected {:?}", what, g, w); Ok(()) };
    let sq = |what: &str, v: V<Rational>, m: &M, s: Fr| -> Res { let g: Vec<(String, u16)> = v.iter().map(|(c, b)| (c.to_string(), b.0)).collect(); let w: Vec<(String, u16)> = m.iter().map(|(b, c)| (kq(*b, *c).mul(s).show(), *b)).filter(|x| x.0 != "0").collect(); check!(g == w && v.len() == w.len(), format!("sum:{}", what), "{} gave {:?}, expected {:?}", what, g, w); Ok(()) };
    let tot = ms.iter().fold(M::new(), |a, b| madd(&a, b, 1)); let one = Fr::new(1, 1);
    sf("sum", must("sum", || ms.iter().map(&f).sum())?, &tot, x)?; sq("sum", must("sum", || ms.iter().map(&q).sum())?, &tot, one)?;
    let (a, b) = (&ms[0], &ms[1]);
    sf("add", must("add", || f(a) + f(b))?, &madd(a, b, 1), x)?; sq("add", must("add", || q(a) + q(b))?, &madd(a, b, 1), one)?;
    sf("sub", must("sub", || f(a) - f(b))?, &madd(a, b, -1), x)?; sq("sub", must("sub", || q(a) - q(b))?, &madd(a, b, -1), one)?;
    sf("neg", must("neg", || -f(a))?, &mscale(a, -1), x)?; sq("neg", must("neg", || -q(a))?, &mscale(a, -1), one)?;
    let k = ctx.rng.range(-3, 3); let s = Fr::new(k as i128, 2 + (den % 4) as i128);
    sf("scale", must("scale", || f(a) * (k as f64 * 0.25))?, &mscale(a, k), x * 0.25)?; sq("scale", must("scale", || q(a) * s.mk())?, &if k == 0 { M::new() } else { a.clone() }, s)?;
    if k != 0 { sf("div", must("div", || f(a) / 0.125)?, a, x * 8.0)?; sq("div", must("div", || q(a) / s.mk())?, a, Fr::new(s.d, s.n))?; }
    check!((f(a) == f(b)) == (a == b) && (q(a) == q(b)) == (a == b), "sum:equal", "{:?} == {:?} gave {} and {}", a, b, f(a) == f(b), q(a) == q(b));
    if let Some((k, c)) = a.iter().next() { let mut near = a.clone(); near.insert(*k, if *c == 1 { 2 } else { c - 1 }); let near = norm(near); check!(f(a) != f(&near) && q(a) != q(&near), "sum:equal", "sums {:?} and {:?} are equal", a, near); }
    ctx.see("sums with fine coefficients compared");
    Ok(())
}
fn build<C: Sc>(rng: &mut Rng, m: &M) -> V<C> {
    let mut ts: Vec<(u16, i64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
    rng.shuffle(&mut ts);
    match rng.below(3) {
        0 => ts.into_iter().map(|(b, c)| V::<C>::from(Ob(b)) * C::k(c)).sum(),
        1 => ts.into_iter().fold(Vector::zero(), |a, (b, c)| a + V::<C>::from(Ob(b)) * C::k(c)),
        _ => { let mut v: V<C> = m.keys().map(|b| Ob(*b)).collect(); for (c, b) in v.iter_mut() { *c = C::k(m[&b.0]); } v }
    }
}
fn c15_t<C: Sc>(ctx: &mut Ctx) -> Res {
    let span = *ctx.rng.pick(&[2usize, 4, 8, 30, 1000]);
    let n = if ctx.rng.chance(1, 300) { ctx.rng.size(30, 90) } else { ctx.rng.size(0, 12) };
    let ms: Vec<M> = (0..n).map(|_| gen_m(&mut ctx.rng, span)).collect();
    ctx.input(format!("{} summands {:?}", C::symbol(), ms), n > 1);
    let vs: Vec<V<C>> = must("build", || ms.iter().map(|m| build(&mut ctx.rng, m)).collect::<Vec<_>>())?;
    for (v, m) in vs.iter().zip(&ms) { same(ctx, "build", v, m)?; }
    let tot = ms.iter().fold(M::new(), |a, b| madd(&a, b, 1));
    let s: V<C> = must("sum", || vs.iter().cloned().sum())?;
    same(ctx, "sum", &s, &tot)?;
    let mut p = ctx.rng.perm(n); p.rotate_left(if n > 0 { 1 } else { 0 });
    let s2: V<C> = must("sum", || p.iter().map(|&i| vs[i].clone()).sum())?;
    check!(s == s2, "sum:order", "summing in another order gave {} instead of {}", s2, s);
    let (a, b) = (gen_m(&mut ctx.rng, span), gen_m(&mut ctx.rng, span));
    let (va, vb): (V<C>, V<C>) = (build(&mut ctx.rng, &a), build(&mut ctx.rng, &b));
    same(ctx, "add", &must("add", || va.clone() + vb.clone())?, &madd(&a, &b, 1))?;
    same(ctx, "sub", &must("sub", || va.clone() - vb.clone())?, &madd(&a, &b, -1))?;
    same(ctx, "sub self", &must("sub", || va.clone() - va.clone())?, &M::new())?;
    same(ctx, "neg", &must("neg", || -va.clone())?, &mscale(&a, -1))?;
    let k = ctx.rng.range(-3, 3);
    same(ctx, "scale", &must("scale", || va.clone() * C::k(k))?, &mscale(&a, k))?;
    let x = ctx.rng.below(span) as u16;
    same(ctx, "add basis", &must("add basis", || va.clone() + Ob(x))?, &madd(&a, &M::from([(x, 1)]), 1))?;
    same(ctx, "sub basis", &must("sub basis", || va.clone() - Ob(x))?, &madd(&a, &M::from([(x, 1)]), -1))?;
    check!((va == vb) == (a == b), "sum:equal", "{} == {} gave {}", va, vb, va == vb);
    if !a.is_empty() {
        let i = ctx.rng.below(a.len());
        let mut v = va.clone(); let (c, b) = must("remove", || v.remove(i))?;
        let key = *a.keys().nth(i).unwrap();
        check!(b.0 == key && c == C::k(a[&key]), "sum:remove", "remove({}) of {} gave {}·{}", i, va, c, b);
        let mut m = a.clone(); m.remove(&key); same(ctx, "remove", &v, &m)?;
    }
    // lists with repetitions
    let most = if ctx.rng.chance(1, 300) { 100 } else { 6 };
    let l: Vec<u16> = (0..ctx.rng.below(most)).map(|_| ctx.rng.below(span.min(5)) as u16).collect();
    let e = l.iter().fold(M::new(), |m, b| madd(&m, &M::from([(*b, 1)]), 1));
    let obs = || l.iter().map(|b| Ob(*b)).collect::<Vec<_>>();
    same(ctx, "from list", &V::<C>::from(obs()), &e)?;
    same(ctx, "collect", &obs().into_iter().collect::<V<C>>(), &e)?;
    if l.len() == 3 { same(ctx, "from array", &V::<C>::from([Ob(l[0]), Ob(l[1]), Ob(l[2])]), &e)?; }
    Ok(())
}
pub fn c15(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 8) { return fine(ctx); }
    match ctx.rng.below(4) {
        0 => c15_t::<i128>(ctx)?,
        1 => { c15_t::<Rational>(ctx)?;
            let m = gen_m(&mut ctx.rng, 9); let k = *ctx.rng.pick(&[-4i64, -3, -1, 1, 2, 5]);
            let v: V<Rational> = build(&mut ctx.rng, &m);
            let q = must("div", || v / Rational::new(k, 1))?;
            let e: Vec<(Rational, Ob)> = m.iter().map(|(b, c)| (Rational::new(*c, k), Ob(*b))).collect();
            check!(q.into_iter().collect::<Vec<_>>() == e, "sum:div", "{:?} divided by {}", m, k); }
        2 => { c15_t::<f64>(ctx)?; let m = gen_m(&mut ctx.rng, 9); let v: V<f64> = build(&mut ctx.rng, &m); check!(m.is_empty() || guard(|| v / 0.0).is_err(), "sum:div-zero", "{:?} divided by zero is accepted", m); }
        _ => c15_t::<i64>(ctx)?,
    }
    // operators on the basis elements themselves, and matrices acting on a basis
    let (x, y, k) = (ctx.rng.below(4) as u16, ctx.rng.below(4) as u16, ctx.rng.range(-3, 3));
    let s = |t: &[(u16, i64)]| t.iter().fold(M::new(), |m, (b, c)| madd(&m, &M::from([(*b, *c)]), 1));
    let m = gen_m(&mut ctx.rng, 6); let v: V<i64> = build(&mut ctx.rng, &m);
    same(ctx, "x+y", &(Ob(x) + Ob(y)), &s(&[(x, 1), (y, 1)]))?;
    same(ctx, "x-y", &(Ob(x) - Ob(y)), &s(&[(x, 1), (y, -1)]))?;
    same(ctx, "k*x", &(k * Ob(x)), &s(&[(x, k)]))?;
    same(ctx, "-x", &(-Ob(x)), &s(&[(x, -1)]))?;
    same(ctx, "x+v", &(Ob(x) + v.clone()), &madd(&s(&[(x, 1)]), &m, 1))?;
    same(ctx, "x-v", &(Ob(x) - v.clone()), &madd(&s(&[(x, 1)]), &m, -1))?;
    let t = if ctx.rng.chance(1, 1000) { 40 } else { 5 }; let (r, c) = (ctx.rng.size(1, t), ctx.rng.size(1, t));
    let a: Vec<Vec<i64>> = (0..r).map(|_| (0..c).map(|_| ctx.rng.range(-3, 3)).collect()).collect();
    let basis: Vec<u16> = (0..c).map(|_| ctx.rng.below(8) as u16).collect();
    let out = must("matrix times basis", || Matrix::from_array(a.clone()) * basis.iter().map(|b| Ob(*b)).collect::<Vec<_>>())?;
    check!(out.len() == r, "sum:matrix", "{} rows, {} sums", r, out.len());
    for i in 0..r { let e = s(&basis.iter().zip(&a[i]).map(|(b, k)| (*b, *k)).collect::<Vec<_>>()); same(ctx, "matrix times basis", &out[i], &e)?; }
    Ok(())
}

// ---------------------------------------------------------------- modules
/// free rank + prime-power decomposition
pub fn primary(free: usize, ds: &[(i64, usize)]) -> (usize, BTreeMap<(i64, u32), usize>) {
    let mut o = BTreeMap::new();
    for (d, k) in ds { let mut n = d.abs(); let mut p = 2; while n > 1 { let mut e = 0; while n % p == 0 { n /= p; e += 1; } if e > 0 && *k > 0 { *o.entry((p, e)).or_insert(0) += *k; } p += 1; } }
    (free, o)
}
/// read "Z^2 + (Z_2)^3 + Z_8" back
pub fn parse_mod(s: &str) -> Option<(usize, Vec<(i64, usize)>)> {
    if s == "0" { return Some((0, vec![])); }
    let (mut f, mut ds) = (0, vec![]);
    for (i, t) in s.split(" + ").enumerate() {
        if t == "Z" && i == 0 { f = 1; }
        else if let (Some(r), 0) = (t.strip_prefix("Z^"), i) { f = r.parse().ok()?; if f < 2 { return None; } }
        else if let Some(r) = t.strip_prefix("Z_") { ds.push((r.parse().ok()?, 1)); }
        else { let r = t.strip_prefix("(Z_")?; let (d, m) = r.split_once(")^")?; ds.push((d.parse().ok()?, m.parse().ok()?)); }
    }
    if ds.iter().any(|d| d.0 <= 1 || d.1 == 0) || s.contains(")^1 ") || s.ends_with(")^1") { return None; }
    Some((f, ds))
}
fn gen_mod(rng: &mut Rng) -> (usize, Vec<(i64, usize)>) {
    let f = *rng.pick(&[0, 0, 1, 1, 2, 3, 7]);
    if rng.chance(1, 200) { let n = rng.size(8, 30); let q = match rng.below(4) { 0 => vec![1i64 << 40, 1 << 20, 4], 1 => vec![3486784401, 3, 9], _ => vec![64, 81, 1024, 210, 30030, 1001, 9973, 4096, 720720, 2, 3, 7] }; return (f + rng.below(200), (0..n).map(|_| (*rng.pick(&q), rng.size(1, 40))).collect()); }
    let n = rng.below(5);
    (f, (0..n).map(|_| { let d = *rng.pick(&[1i64, 1, 2, 2, 3, 4, 5, 6, 8, 9, 12, 30]); (if rng.chance(1, 4) { -d } else { d }, *rng.pick(&[1usize, 1, 1, 2, 3, 0])) }).collect())
}
/// another presentation of an isomorphic module
fn shuffle_mod(rng: &mut Rng, ds: &[(i64, usize)]) -> Vec<(i64, usize)> {
    let mut v: Vec<i64> = ds.iter().flat_map(|(d, k)| std::iter::repeat(d.abs()).take(*k)).collect();
    for _ in 0..rng.below(4) {
        if v.len() < 2 { break; }
        let (i, j) = (rng.below(v.len()), rng.below(v.len()));
        if i != j { let g = crate::p_num::gcd128(v[i] as i128, v[j] as i128) as i64; let Some(l) = (v[i] / g).checked_mul(v[j]) else { continue }; v[i] = g; v[j] = l; }
    }
    let mut v: Vec<i64> = v.into_iter().flat_map(|d| if d % 6 == 0 && d % 36 != 0 && rng.bool() { let mut t = 1; let mut r = d; while r % 2 == 0 { r /= 2; t *= 2; } vec![t, r] } else { vec![d] }).collect();
    if rng.bool() { v.push(1); }
    rng.shuffle(&mut v);
    let mut o: Vec<(i64, usize)> = vec![];
    for d in v { match o.last_mut() { Some(l) if l.0 == d => l.1 += 1, _ => o.push((d, 1)) } }
    o
}
pub fn c16(ctx: &mut Ctx) -> Res {
    let (f, ds) = gen_mod(&mut ctx.rng);
    let (g, es) = match ctx.rng.below(3) { 0 => gen_mod(&mut ctx.rng), 1 => (f, shuffle_mod(&mut ctx.rng, &ds)), _ => { let mut e = ds.clone(); if !e.is_empty() { let i = ctx.rng.below(e.len()); if ctx.rng.bool() { e[i].1 += 1; } else { e[i].0 *= 2; } } (f, e) } };
    ctx.input(format!("rank {} divisors {:?} against rank {} divisors {:?}", f, ds, g, es), !ds.is_empty() && !es.is_empty());
    let small = ds.iter().chain(&es).all(|d| d.0.abs() <= 60);
    match ctx.rng.below(12) {
        0 if small => mods::<i32>(ctx, f, ds, g, es), 1 if small => mods::<i16>(ctx, f, ds, g, es), 2 => mods::<i128>(ctx, f, ds, g, es), 3 => mods::<isize>(ctx, f, ds, g, es),
        4 => field_mods::<f64>(ctx, "R", f, &ds, g, &es, |x| x as f64 / 8.0), 5 => field_mods::<Rational>(ctx, "Q", f, &ds, g, &es, |x| Rational::new(x, 7)),
        _ => mods::<i64>(ctx, f, ds, g, es),
    }
}
fn mods<T: PID + std::fmt::Display + TryFrom<i64>>(ctx: &mut Ctx, f: usize, ds: Vec<(i64, usize)>, g: usize, es: Vec<(i64, usize)>) -> Res {
    let mk = |f: usize, d: &[(i64, usize)]| Module::<T>::new(f, d.iter().map(|x| (T::try_from(x.0).ok().unwrap(), x.1)).collect());
    for (f, d) in [(f, &ds), (g, &es)] {
        let p = primary(f, d);
        let m = must("module", || mk(f, d))?;
        check!(m.is_zero() == (f == 0 && p.1.is_empty()), "module:is_zero", "is_zero of rank {} {:?} gave {}", f, d, m.is_zero());
        let s = must("print", || m.to_string())?;
        match parse_mod(&s) { Some((f2, d2)) => check!(primary(f2, &d2) == p, "module:print", "rank {} {:?} printed as {}", f, d, s), None => return fail("module:print", format!("rank {} {:?} printed as {}", f, d, s)) }
        check!(must("iso", || mk(f, d).is_isomorphic_to(mk(f, d)))?, "module:iso", "rank {} {:?} is not isomorphic to itself", f, d);
        ctx.see("descriptors printed");
    }
    let e = primary(f, &ds) == primary(g, &es);
    let r = must("iso", || mk(f, &ds).is_isomorphic_to(mk(g, &es)))?;
    let r2 = must("iso", || mk(g, &es).is_isomorphic_to(mk(f, &ds)))?;
    check!(r == e && r2 == e, "module:iso", "isomorphic: {} / {}, expected {}", r, r2, e);
    ctx.see(if e { "isomorphic pairs" } else { "non-isomorphic pairs" });
    let t = Module::<T>::trivial();
    check!(t.is_zero() && t.to_string() == "0", "module:trivial", "trivial module prints {}", t);
    Ok(())
}
/// over a field every torsion coefficient is a unit, and a module is its free part
fn field_mods<T: PID + std::fmt::Display>(ctx: &mut Ctx, sym: &str, f: usize, ds: &[(i64, usize)], g: usize, es: &[(i64, usize)], of: fn(i64) -> T) -> Res {
    let mk = |f: usize, d: &[(i64, usize)]| Module::<T>::new(f, d.iter().map(|x| (of(x.0), x.1)).collect());
    for (f, d) in [(f, ds), (g, es)] {
        let want = match f { 0 => "0".to_string(), 1 => sym.to_string(), _ => format!("{}^{}", sym, f) };
        let m = must("module", || mk(f, d))?; let s = must("print", || m.to_string())?;
        check!(s == want && m.is_zero() == (f == 0), "module:field", "rank {} {:?} over {} printed as {}, is_zero {}", f, d, sym, s, m.is_zero());
    }
    let r = must("iso", || mk(f, ds).is_isomorphic_to(mk(g, es)) && mk(g, es).is_isomorphic_to(mk(f, ds)))?;
    check!(r == (f == g), "module:field", "over {} the modules of rank {} {:?} and rank {} {:?} isomorphic: {}", sym, f, ds, g, es, r);
    ctx.see("pairs of modules over fields");
    Ok(())
}
