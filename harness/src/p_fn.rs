//! C31 symbolic functions and derivatives, C32 functions of several variables.
use crate::check;
use crate::core::*;
use alg::lin_alg::{Matrix, SparseMatrix};
use analysis::{AtomicSmoothFn as S, AtomicSmoothFnBuilder, Coordinate, Function, MultiVarFn};

#[derive(Clone, Debug)]
enum T { Zero, One, X(usize), Add(Box<T>, Box<T>), Sub(Box<T>, Box<T>), Mul(Box<T>, Box<T>), Div(Box<T>, Box<T>), Neg(Box<T>), Scale(Box<T>, f64), DivF(Box<T>, f64), Powi(Box<T>, i32), Powf(Box<T>, f64), Sin(Box<T>), Cos(Box<T>), Sum(Vec<T>), Prod(Vec<T>) }
use T::*;
fn gen(rng: &mut Rng, d: usize, depth: usize) -> T {
    if depth == 0 { return match rng.below(12) { 0 => One, 1 => Zero, _ => X(rng.below(d)) }; }
    let g = |rng: &mut Rng| { let k = rng.below(depth); Box::new(gen(rng, d, k)) };
    let scal = [2.0, -1.0, 0.5, 3.0, 0.0, 1.0, -2.5];
    match rng.below(16) {
        0 | 1 => Add(Box::new(gen(rng, d, depth - 1)), g(rng)),
        2 => Sub(Box::new(gen(rng, d, depth - 1)), g(rng)),
        3 => { let a = Box::new(gen(rng, d, depth - 1)); if rng.chance(1, 3) { Sub(a.clone(), a) } else { Sub(g(rng), a) } }
        4 | 5 | 6 => Mul(Box::new(gen(rng, d, depth - 1)), g(rng)),
        7 => Div(g(rng), Box::new(gen(rng, d, depth - 1))),
        8 => Neg(Box::new(gen(rng, d, depth - 1))),
        9 => { let k = if rng.chance(1, 10) { *rng.pick(&[1e-9, -1e-13, 1e-20, 3e-40, 1e-5, 1000.0, -40000.0]) } else { *rng.pick(&scal) }; Scale(Box::new(gen(rng, d, depth - 1)), k) }
        10 => { let mut s = *rng.pick(&scal); if s == 0.0 { s = 4.0; } if rng.chance(1, 15) { s = *rng.pick(&[1e9, -1e14, 3e30, 1e-3]); } DivF(Box::new(gen(rng, d, depth - 1)), s) }
        11 => Powi(Box::new(gen(rng, d, depth - 1)), *rng.pick(&[0, 1, 2, 2, 3, 3, 4, -1, -2])),
        12 => Powf(Box::new(gen(rng, d, depth - 1)), *rng.pick(&[0.5, 1.0, 2.0, 1.5, -0.5, -1.0, 0.0, 3.0])),
        13 => Sin(Box::new(gen(rng, d, depth - 1))),
        14 => Cos(Box::new(gen(rng, d, depth - 1))),
        _ if rng.chance(1, 40) => long(rng, d),
        _ if rng.chance(1, 20) => { let sum = rng.bool(); let n = if sum { rng.size(5, 40) } else { rng.size(5, 14) }; let v = (0..n).map(|_| { let k = rng.below(depth.min(2)); gen(rng, d, k) }).collect(); if sum { Sum(v) } else { Prod(v) } }
        _ => { let n = rng.below(4); let mut v: Vec<T> = (0..n).map(|_| { let k = rng.below(depth); gen(rng, d, k) }).collect(); if n > 1 && rng.bool() { v[n - 1] = v[0].clone(); } if rng.bool() { Sum(v) } else { Prod(v) } }
    }
}
/// many summands or factors that do not combine
fn long(rng: &mut Rng, d: usize) -> T {
    let sum = rng.bool(); let n = if sum { rng.size(8, 40) } else { rng.size(5, 26) };
    let v = (0..n).map(|i| { let x = Box::new(X(rng.below(d))); let c = (i + 1) as f64 / 8.0;
        match rng.below(if sum { 4 } else { 2 }) { 0 => Sin(Box::new(Scale(x, c))), 1 => Cos(Box::new(Scale(x, c))), 2 => Scale(Box::new(Cos(Box::new(Scale(x, c)))), c), _ => Prod(vec![*x, Sin(Box::new(Scale(Box::new(X(rng.below(d))), c)))]) } }).collect();
    if sum { Sum(v) } else { Prod(v) }
}
/// the derivative by coordinate k, term by term
fn diff(t: &T, k: usize) -> T {
    let d = |a: &T| Box::new(diff(a, k));
    match t {
        Zero | One => Zero, X(i) => if *i == k { One } else { Zero },
        Add(a, b) => Add(d(a), d(b)), Sub(a, b) => Sub(d(a), d(b)), Neg(a) => Neg(d(a)), Scale(a, c) => Scale(d(a), *c), DivF(a, c) => DivF(d(a), *c),
        Mul(a, b) => Add(Box::new(Mul(d(a), b.clone())), Box::new(Mul(a.clone(), d(b)))),
        Div(a, b) => Sub(Box::new(Div(d(a), b.clone())), Box::new(Mul(a.clone(), Box::new(Mul(d(b), Box::new(Powi(b.clone(), -2))))))),
        Powi(_, 0) => Zero, Powi(a, n) => Scale(Box::new(Mul(Box::new(Powi(a.clone(), n - 1)), d(a))), *n as f64),
        Powf(_, p) if *p == 0.0 => Zero, Powf(a, p) => Scale(Box::new(Mul(Box::new(Powf(a.clone(), p - 1.0)), d(a))), *p),
        Sin(a) => Mul(Box::new(Cos(a.clone())), d(a)), Cos(a) => Neg(Box::new(Mul(Box::new(Sin(a.clone())), d(a)))),
        Sum(v) => Sum(v.iter().map(|a| diff(a, k)).collect()),
        Prod(v) => Sum((0..v.len()).map(|i| Prod(v.iter().enumerate().map(|(j, a)| if i == j { diff(a, k) } else { a.clone() }).collect())).collect()),
    }
}
/// the library's expression, through operators on functions, on coordinates and their assigning forms
fn build(t: &T, x: &[Coordinate], rng: &mut Rng) -> S {
    macro_rules! bin { ($a:expr, $b:expr, $op:tt, $as:tt) => { match (&**$a, &**$b, rng.below(3)) {
        (X(i), X(j), _) => x[*i] $op x[*j],
        (X(i), b, 0) => { let b = build(b, x, rng); x[*i] $op b }
        (a, X(j), 0) => { let a = build(a, x, rng); a $op x[*j] }
        (a, b, 1) => { let mut a = build(a, x, rng); let b = build(b, x, rng); a $as b; a }
        (a, b, _) => { let a = build(a, x, rng); let b = build(b, x, rng); a $op b }
    } } }
    match t {
        Zero => S::Zero, One => S::One,
        X(i) => if rng.bool() { S::Projection(*i) } else { x[*i] * 1.0 },
        Add(a, b) => bin!(a, b, +, +=), Sub(a, b) => bin!(a, b, -, -=), Mul(a, b) => bin!(a, b, *, *=), Div(a, b) => bin!(a, b, /, /=),
        Neg(a) => -build(a, x, rng),
        Scale(a, k) => if let (X(i), true) = (&**a, rng.bool()) { x[*i] * *k } else { build(a, x, rng) * *k },
        DivF(a, k) => if let (X(i), true) = (&**a, rng.bool()) { x[*i] / *k } else { build(a, x, rng) / *k },
        Powi(a, k) => if let (X(i), true) = (&**a, rng.bool()) { x[*i].powi(*k) } else { build(a, x, rng).powi(*k) },
        Powf(a, k) => if let (X(i), true) = (&**a, rng.bool()) { x[*i].powf(*k) } else { build(a, x, rng).powf(*k) },
        Sin(a) => if let (X(i), true) = (&**a, rng.bool()) { x[*i].sin() } else { build(a, x, rng).sin() },
        Cos(a) => if let (X(i), true) = (&**a, rng.bool()) { x[*i].cos() } else { build(a, x, rng).cos() },
        Sum(v) => v.iter().map(|a| build(a, x, rng)).sum(),
        Prod(v) => v.iter().map(|a| build(a, x, rng)).product(),
    }
}
/// value, two first derivatives and the mixed one, each with an error bound and the sum of the absolute values of
/// the terms it is the sum of when products are multiplied out (which is where rounding errors come from)
#[derive(Clone, Copy, Debug)]
struct H { v: [f64; 4], e: [f64; 4], m: [f64; 4] }
const EPS: f64 = 1e-14;
fn hc(x: f64) -> H { H { v: [x, 0., 0., 0.], e: [EPS * x.abs(), 0., 0., 0.], m: [x.abs(), 0., 0., 0.] } }
fn hadd(a: H, b: H, s: f64) -> H { let mut r = a; for i in 0..4 { r.v[i] += s * b.v[i]; r.m[i] += b.m[i]; r.e[i] += b.e[i] + EPS * (a.m[i] + b.m[i]); } r }
/// sum of products of components
fn hmul(a: H, b: H) -> H {
    let m = |ps: &[(usize, usize)]| { let (mut v, mut e, mut m) = (0., 0., 0.); for &(i, j) in ps { v += a.v[i] * b.v[j]; m += a.m[i] * b.m[j]; e += a.e[i] * b.v[j].abs() + a.v[i].abs() * b.e[j] + a.e[i] * b.e[j] + EPS * a.m[i] * b.m[j]; } (v, e, m) };
    let p = [m(&[(0, 0)]), m(&[(0, 1), (1, 0)]), m(&[(0, 2), (2, 0)]), m(&[(0, 3), (3, 0), (1, 2), (2, 1)])];
    H { v: p.map(|x| x.0), e: p.map(|x| x.1), m: p.map(|x| x.2) }
}
/// f with derivatives f1, f2 and bounds of |f1|, |f2|, |f3| nearby
fn happ(a: H, f: [f64; 4]) -> H {
    let [f0, f1, f2, f3] = f; let e0 = a.e[0];
    let g1 = (f1, f1.abs() * EPS + f2.abs() * e0); let g2 = (f2, f2.abs() * EPS + f3.abs() * e0);
    let t = |g: (f64, f64), v: f64, e: f64| (g.0 * v, g.1 * v.abs() + g.0.abs() * e + g.1 * e + EPS * (g.0 * v).abs());
    let (d1, d2) = (t(g1, a.v[1], a.e[1]), t(g1, a.v[2], a.e[2]));
    let q = (a.v[1] * a.v[2], a.e[1] * a.v[2].abs() + a.e[2] * a.v[1].abs() + a.e[1] * a.e[2]);
    let (x, y) = (t(g1, a.v[3], a.e[3]), t(g2, q.0, q.1));
    let m = [f0.abs(), f1.abs() * a.m[1], f1.abs() * a.m[2], f1.abs() * a.m[3] + f2.abs() * a.m[1] * a.m[2]];
    H { v: [f0, d1.0, d2.0, x.0 + y.0], e: [f0.abs() * EPS + f1.abs() * e0, d1.1 + EPS * m[1], d2.1 + EPS * m[2], x.1 + y.1 + EPS * m[3]], m }
}
fn hpow(a: H, p: f64) -> H { let x = a.v[0]; let f = |k: f64, c: f64| if c == 0.0 { 0.0 } else { c * x.powf(k) }; happ(a, [x.powf(p), f(p - 1., p), f(p - 2., p * (p - 1.)), f(p - 3., p * (p - 1.) * (p - 2.))]) }
/// None where the expression is not defined or too close to where it is not
fn eval(t: &T, x: &[f64], i: usize, j: usize) -> Option<H> {
    let r = match t {
        Zero => hc(0.), One => hc(1.),
        X(k) => H { v: [x[*k], (*k == i) as u8 as f64, (*k == j) as u8 as f64, 0.], e: [0.; 4], m: [x[*k].abs(), (*k == i) as u8 as f64, (*k == j) as u8 as f64, 0.] },
        Add(a, b) => hadd(eval(a, x, i, j)?, eval(b, x, i, j)?, 1.), Sub(a, b) => hadd(eval(a, x, i, j)?, eval(b, x, i, j)?, -1.),
        Mul(a, b) => hmul(eval(a, x, i, j)?, eval(b, x, i, j)?),
        Div(a, b) => { let d = eval(b, x, i, j)?; if d.v[0].abs() < 0.05 { return None; } hmul(eval(a, x, i, j)?, inv(d)) }
        Neg(a) => hadd(hc(0.), eval(a, x, i, j)?, -1.), Scale(a, k) => hmul(eval(a, x, i, j)?, hc(*k)), DivF(a, k) => hmul(eval(a, x, i, j)?, hc(1. / *k)),
        Powi(a, k) => { let d = eval(a, x, i, j)?; if *k < 0 && d.v[0].abs() < 0.05 { return None; } let mut r = hc(1.); for _ in 0..k.abs() { r = hmul(r, d); } if *k < 0 { inv(r) } else { r } }
        Powf(a, p) => { let d = eval(a, x, i, j)?; 
            // whole exponents make sense of negative numbers too
            if p.fract() == 0.0 && d.v[0] < 0.0 { if *p < 0.0 && d.v[0] > -0.05 { return None; } let mut r = hc(1.); for _ in 0..p.abs() as usize { r = hmul(r, d); } if *p < 0.0 { inv(r) } else { r } }
            else if d.v[0] < 0.05 { return None; } else { hpow(d, *p) } }
        Sin(a) => { let d = eval(a, x, i, j)?; let (s, c) = d.v[0].sin_cos(); happ2(d, [s, c, -s, -c]) }
        Cos(a) => { let d = eval(a, x, i, j)?; let (s, c) = d.v[0].sin_cos(); happ2(d, [c, -s, -c, s]) }
        Sum(v) => { let mut r = hc(0.); for a in v { r = hadd(r, eval(a, x, i, j)?, 1.); } r }
        Prod(v) => { let mut r = hc(1.); for a in v { r = hmul(r, eval(a, x, i, j)?); } r }
    };
    if r.v.iter().chain(&r.e).all(|x| x.is_finite() && x.abs() < 1e8) && r.e[0] < 1e-6 { Some(r) } else { None }
}
fn inv(d: H) -> H { let x = d.v[0]; happ(d, [1. / x, -1. / (x * x), 2. / (x * x * x), -6. / (x * x * x * x)]) }
fn happ2(a: H, f: [f64; 4]) -> H { let mut r = happ(a, f); let e0 = a.e[0]; r.m[0] = 1.0; let (m1, m2, m3) = (a.m[1], a.m[2], a.m[3] + a.m[1] * a.m[2]); r.m[1] = m1; r.m[2] = m2; r.m[3] = m3; r.e[0] = EPS + e0; let (p, q) = (a.v[1].abs() + a.e[1], a.v[2].abs() + a.e[2]); r.e[1] += (e0 + EPS) * p; r.e[2] += (e0 + EPS) * q; r.e[3] += (e0 + EPS) * (p * q + a.v[3].abs() + a.e[3]); r }
fn close(g: f64, v: f64, e: f64) -> bool { (g - v).abs() <= 100.0 * e + 1e-11 * v.abs() + 1e-290 }
/// value of a printed function: sums of terms "(c)·p", products by juxtaposition, powers to the left
struct Rd<'a> { s: &'a [u8], i: usize, x: &'a [f64] }
impl<'a> Rd<'a> {
    fn eat(&mut self, t: &str) -> bool { if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn num(&mut self) -> Option<f64> { let a = self.i; self.eat("-"); while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') { self.i += 1; } let r = std::str::from_utf8(&self.s[a..self.i]).ok()?.parse().ok(); if r.is_none() { self.i = a; } r }
    fn coeff(&mut self) -> Option<f64> { let a = self.i; let p = self.eat("("); let n = self.num(); let ok = n.is_some() && (!p || self.eat(")")) && self.eat("·"); if ok { n } else { self.i = a; None } }
    fn expr(&mut self) -> Option<f64> { let mut v = self.term()?; while self.eat(" + ") { v += self.term()?; } Some(v) }
    fn term(&mut self) -> Option<f64> { if let Some(c) = self.coeff() { return Some(c * self.prod()?); } if self.eat("-") { return Some(-self.prod()?); } self.prod() }
    fn prod(&mut self) -> Option<f64> {
        let mut v = self.factor()?;
        loop { let a = self.i; if !self.eat(" ") { return Some(v); } if self.i < self.s.len() && self.s[self.i] == b'+' { self.i = a; return Some(v); } v *= self.factor()?; }
    }
    fn factor(&mut self) -> Option<f64> {
        self.eat(" ");
        let mut v = if self.eat("(") { let v = self.expr()?; if !self.eat(")") { return None; } v } else if self.eat("x[") { let k = self.num()?; if !self.eat("]") { return None; } *self.x.get(k as usize)? }
            else if self.eat("sin(") { let v = self.expr()?; if !self.eat(")") { return None; } v.sin() } else if self.eat("cos(") { let v = self.expr()?; if !self.eat(")") { return None; } v.cos() }
            else if self.eat("0") { 0.0 } else if self.eat("1") { 1.0 } else { return None };
        while self.eat("^") { v = v.powf(self.num()?); }
        Some(v)
    }
}
fn read(s: &str, x: &[f64]) -> Option<f64> { let mut r = Rd { s: s.as_bytes(), i: 0, x }; let v = r.expr()?; if r.i == s.len() { Some(v) } else { None } }
fn pt(x: &[f64]) -> Matrix<f64> { let mut m = Matrix::zero(x.len(), 1); for (i, v) in x.iter().enumerate() { m[(i, 0)] = *v; } m }
fn point(rng: &mut Rng, d: usize) -> Vec<f64> { let sc = if rng.chance(1, 8) { *rng.pick(&[1e-3, 1e-9, 1e-14, 20.0, 500.0]) } else { 1.0 }; (0..d).map(|_| if rng.chance(1, 6) { *rng.pick(&[0.0, 1.0, -1.0, 2.0]) } else { rng.f(-2.0, 2.5) * sc }).collect() }
fn fresh(t: &T, d: usize, rng: &mut Rng) -> Result<S, Violation> {
    let mut r2 = Rng::new(rng.u64());
    must("building the expression", || { let r = std::cell::RefCell::new(&mut r2); AtomicSmoothFnBuilder::new(d).set(|f, x| { assert_eq!(x.len(), d, "coordinates handed to the builder"); *f = build(t, &x, &mut r.borrow_mut()) }) })
}
pub fn c31(ctx: &mut Ctx) -> Res {
    let d = if ctx.rng.chance(1, 20) { ctx.rng.size(4, 14) } else if ctx.rng.chance(1, 300) { ctx.rng.size(15, 70) } else { ctx.rng.size(1, 3) }; let depth = ctx.rng.size(1, if ctx.thorough { 6 } else { 5 });
    let t = gen(&mut ctx.rng, d, depth);
    ctx.input(format!("{:?}", t), depth > 1);
    let f = match fresh(&t, d, &mut ctx.rng) {
        Ok(f) => f,
        Err(v) => {
            // dividing by zero is refused, when the expression is defined nowhere
            for _ in 0..40 { let x = point(&mut ctx.rng, d); if eval(&t, &x, 0, 0).is_some() { return Err(v); } }
            ctx.see("divisions by zero refused"); return Ok(());
        }
    };
    let (i, j) = (ctx.rng.below(d), ctx.rng.below(d));
    let fi = must("partial_derivative", || f.clone().partial_derivative(i))?;
    let fj = must("partial_derivative", || f.clone().partial_derivative(j))?;
    let fij = must("partial_derivative", || fi.clone().partial_derivative(j))?;
    let fd = must("partial_derivative", || f.clone().partial_derivative(d))?;
    for _ in 0..4 {
        let x = point(&mut ctx.rng, d); let m = pt(&x);
        let Some(r) = eval(&t, &x, i, j) else {
            ctx.see("points outside the domain");
            if let Div(a, b) = &t { if let (Some(p), Some(q)) = (eval(a, &x, i, j), eval(b, &x, i, j)) { if p.v[0].abs() > 0.1 && q.v[0] == 0.0 && q.e[0] == 0.0 { let v = must("eval", || f.eval(&m))?; check!(!v.is_finite(), "function:pole", "the quotient of {} by zero at {:?} is {}", p.v[0], x, v); ctx.see("divisions by zero evaluated"); } } }
            continue
        };
        for (k, (what, g)) in [("value", &f), ("derivative", &fi), ("derivative", &fj), ("second derivative", &fij)].into_iter().enumerate() {
            let v = must("eval", || g.eval(&m))?;
            check!(close(v, r.v[k], r.e[k]), format!("function:{}", what), "{} at {:?} (variables {}, {}) is {}, expected {} (+-{:e}); expression {}, in the library {}", what, x, i, j, v, r.v[k], r.e[k], ctx.input, g);
            if r.v[k] != 0.0 { ctx.see(&format!("{}s compared", what)); }
            if r.v[k].abs() < 1e6 && r.e[k] < 1e-6 {
                let s = must("print", || g.to_string())?;
                match read(&s, &x) { Some(v) => check!(close(v, r.v[k], r.e[k]), "function:print", "{} printed as {:?}, which at {:?} is {}, expected {}; {:?}", what, s, x, v, r.v[k], g), None => return fail("function:print", format!("{} printed as {:?}; {:?}", what, s, g)) }
                ctx.see("printed functions evaluated");
            }
        }
        let v = fd.eval(&m); check!(v == 0.0 || r.e[0] > 1e-9, "function:other", "derivative by a variable that does not occur is {}", v);
    }
    // third derivatives
    if depth <= 4 && ctx.rng.chance(1, 6) {
        let k = ctx.rng.below(d); let tk = diff(&t, k);
        let g = must("partial_derivative", || fij.clone().partial_derivative(k))?; let x = point(&mut ctx.rng, d);
        if let (Some(r), Some(_)) = (eval(&tk, &x, i, j), eval(&t, &x, i, j)) { let v = must("eval", || g.eval(&pt(&x)))?; check!(close(v, r.v[3], r.e[3]), "function:third derivative", "third derivative at {:?} (variables {}, {}, {}) is {}, expected {} (+-{:e}); expression {}, in the library {}", x, i, j, k, v, r.v[3], r.e[3], ctx.input, g); if r.v[3] != 0.0 { ctx.see("third derivatives compared"); } }
    }
    // units of the ring of functions
    use alg::commutative::{One, PID};
    let (u, w) = must("simplify", || f.clone().simplify())?;
    let x = point(&mut ctx.rng, d); let m = pt(&x);
    check!(S::one().eval(&m) == 1.0 && S::one() == S::One, "function:one", "one is {}", S::one());
    if let Some(r) = eval(&t, &x, i, j) { let v = must("eval", || (u.clone() * w.clone()).eval(&m))?; check!(close(v, r.v[0], r.e[0]), "function:simplify", "{} times {} is {} at {:?}, expected {}", u, w, v, x, r.v[0]); }
    // division of functions leaves no remainder
    let t2 = gen(&mut ctx.rng, d, 2);
    if let (Some(p), Some(q)) = (eval(&t, &x, i, j), eval(&t2, &x, i, j)) { if q.v[0].abs() > 0.05 { if let Ok(g) = fresh(&t2, d, &mut ctx.rng) {
        let (a, b) = must("euclid_div", || f.clone().euclid_div(g.clone()))?; let h = hmul(p, inv(q)); let (a, b) = must("eval", || (a.eval(&m), b.eval(&m)))?;
        check!(b == 0.0 && close(a, h.v[0], h.e[0]), "function:euclid", "{} divided by {} is {} with remainder {} at {:?}, expected {}", f, g, a, b, x, h.v[0]); ctx.see("divisions with remainder compared");
    } } }
    // cloning, equality
    check!(f == f.clone(), "function:eq", "an expression differs from its clone");
    Ok(())
}
pub fn c32(ctx: &mut Ctx) -> Res {
    let (d, n) = if ctx.rng.chance(1, 30) { (ctx.rng.size(1, 14), ctx.rng.size(1, 14)) } else if ctx.rng.chance(1, 2000) { let a = ctx.rng.size(15, 40); let b = ctx.rng.size(1, 40); if ctx.rng.bool() { (a, b) } else { (b, a) } } else { (ctx.rng.size(1, 4), ctx.rng.size(1, 4)) };
    let dense = d * n > 16 && ctx.rng.bool();
    let ts: Vec<T> = (0..n).map(|_| loop { let k = ctx.rng.size(0, 4); let mut t = gen(&mut ctx.rng, d, k);
        // components that depend on all variables
        if dense { let mut v: Vec<T> = (0..d).map(|i| { let c = ctx.rng.f(-2.0, 2.0); let p = ctx.rng.range(1, 3) as i32; T::Scale(Box::new(T::Powi(Box::new(T::X(i)), p)), c) }).collect(); if ctx.rng.bool() { v.push(t); } ctx.rng.shuffle(&mut v); t = T::Sum(v); } if (0..8).any(|_| { let x = point(&mut ctx.rng, d); eval(&t, &x, 0, 0).is_some() }) { break t; } }).collect();
    ctx.input(format!("{} variables: {:?}", d, ts), d > 1 && n > 1);
    let mut r2 = Rng::new(ctx.rng.u64());
    let f = must("building the function", || MultiVarFn::new((n, d)).set(|i, f, x| { assert_eq!(x.len(), d, "coordinates handed to the builder"); *f = build(&ts[i], &x, &mut r2) }))?;
    let s = must("print", || f.to_string())?; let ws: String = (0..n).map(|i| format!("f[{}] = {},\n", i, f[i])).collect();
    check!(s == ws, "multi:print", "printed {:?}, expected {:?}", s, ws);
    let jac = must("jacobian", || f.clone().jacobian())?;
    check!(jac.size() == (n, d), "jacobian:size", "Jacobian of size {:?}", jac.size());
    let rows = ts.iter().map(|t| fresh(t, d, &mut ctx.rng)).collect::<Result<Vec<S>, _>>()?;
    let jm: Vec<Matrix<S>> = must("jacobian", || rows.iter().map(|g| g.clone().jacobian(d)).collect::<Vec<_>>())?;
    // the functions as entries of matrices
    let mut a = Matrix::<S>::zero(n, n); for i in 0..n { for j in 0..n { if ctx.rng.bool() { a[(i, j)] = rows[(i + j) % n].clone(); } } }
    let mut b = Matrix::<S>::zero(n, 1); for i in 0..n { b[(i, 0)] = rows[i].clone(); }
    let ab = must("product of matrices of functions", || a.clone() * b.clone())?;
    let sp = |m: &Matrix<S>| SparseMatrix::from((m.size(), |ix: (usize, usize)| if m[ix] == S::Zero { None } else { Some(m[ix].clone()) }));
    let sab = must("product of sparse matrices of functions", || sp(&a) * sp(&b))?;
    for _ in 0..3 {
        let x = point(&mut ctx.rng, d); let m = pt(&x);
        let mut all = vec![vec![]; n]; let mut ok = true;
        for i in 0..n { for j in 0..d { match eval(&ts[i], &x, j, j) { Some(h) => all[i].push(h), None => ok = false } } }
        if !ok { ctx.see("points outside the domain"); continue; }
        let v = must("eval", || f.eval(&m))?;
        check!((*v).size() == (n, 1), "multi:size", "value of size {:?}", (*v).size());
        for i in 0..n { let h = all[i][0]; check!(close(v[(i, 0)], h.v[0], h.e[0]), "multi:value", "component {} at {:?} is {}, expected {}", i, x, v[(i, 0)], h.v[0]); let w = f[i].eval(&m); check!(w == v[(i, 0)], "multi:index", "component {} by index has value {}, {}", i, w, v[(i, 0)]); ctx.see("components compared"); }
        let jv = must("eval of the Jacobian", || jac.eval(&m))?;
        check!(jv.size() == (n, d), "jacobian:size", "evaluated Jacobian of size {:?}", jv.size());
        for i in 0..n {
            let mut row = vec![0.0; d]; for (j, y) in jv.row_iter(i) { row[j] = *y; }
            let rm = must("eval of a gradient", || jm[i].eval(&m))?;
            check!((*rm).size() == (1, d), "gradient:size", "gradient of size {:?}", (*rm).size());
            for j in 0..d {
                let h = all[i][j];
                check!(close(row[j], h.v[1], h.e[1]), "jacobian:entry", "entry ({}, {}) of the Jacobian at {:?} is {}, expected {}", i, j, x, row[j], h.v[1]);
                check!(close(rm[(0, j)], h.v[1], h.e[1]), "gradient:entry", "partial derivative of component {} by {} at {:?} is {}, expected {}", i, j, x, rm[(0, j)], h.v[1]);
                if h.v[1] != 0.0 { ctx.see("non-zero partial derivatives compared"); }
            }
        }
        let av = must("eval of a matrix", || a.eval(&m))?; let abv = must("eval of a matrix", || ab.eval(&m))?; let sabv = must("eval of a sparse matrix", || sab.eval(&m))?;
        for i in 0..n {
            let mut s = 0.0; let mut e = 0.0;
            for k in 0..n { let z = if a[(i, k)] == S::Zero { hc(0.) } else { all[(i + k) % n][0] }; check!(close(av[(i, k)], z.v[0], z.e[0]), "matrix:value", "entry ({}, {}) of a matrix of functions is {}, expected {}", i, k, av[(i, k)], z.v[0]); let h = all[k][0]; s += z.v[0] * h.v[0]; e += z.e[0] * h.v[0].abs() + z.v[0].abs() * h.e[0] + 100.0 * z.e[0] * h.e[0] + 1e-14 * z.m[0] * h.m[0]; }
            check!(close(abv[(i, 0)], s, e + 1e-13 * s.abs()), "matrix:product", "entry {} of a product of matrices of functions is {}, expected {}", i, abv[(i, 0)], s);
            let g = sabv[(i, 0)]; check!(close(g, s, e + 1e-13 * s.abs()), "matrix:sparse-product", "entry {} of a product of sparse matrices of functions is {}, expected {}", i, g, s);
        }
        ctx.see("Jacobians compared");
    }
    Ok(())
}
