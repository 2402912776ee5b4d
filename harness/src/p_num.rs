//! C12 Rational = exact field of fractions; C13 integer Euclidean-domain operations.
use crate::check;
use crate::core::*;
use alg::commutative::{bezout_identity, One, Rational, Zero, PID};

pub fn gcd128(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd128(b, a % b) } }
/// exact reference fraction (den > 0, reduced)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fr { pub n: i128, pub d: i128 }
impl Fr {
    pub fn new(n: i128, d: i128) -> Fr { let g = gcd128(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Fr { n: s * n / g, d: s * d / g } }
    pub fn add(self, o: Fr) -> Fr { Fr::new(self.n * o.d + o.n * self.d, self.d * o.d) }
    pub fn sub(self, o: Fr) -> Fr { Fr::new(self.n * o.d - o.n * self.d, self.d * o.d) }
    pub fn mul(self, o: Fr) -> Fr { Fr::new(self.n * o.n, self.d * o.d) }
    pub fn div(self, o: Fr) -> Fr { Fr::new(self.n * o.d, self.d * o.n) }
    pub fn neg(self) -> Fr { Fr { n: -self.n, d: self.d } }
    pub fn cmp(self, o: Fr) -> std::cmp::Ordering { (self.n * o.d).cmp(&(o.n * self.d)) }
    /// the fraction with smaller denominator that is closest below or above
    pub fn neighbour(self, up: bool) -> Fr { // a * y - x * d = +-1
        let (mut r0, mut r1, mut s0, mut s1) = (self.n, self.d, 1i128, 0i128); while r1 != 0 { let q = r0.div_euclid(r1); (r0, r1) = (r1, r0 - q * r1); (s0, s1) = (s1, s0 - q * s1); }
        let u = if up { 1 } else { -1 };
        let y = (-u * s0 * r0.signum()).rem_euclid(self.d); let y = if y == 0 { 1 } else { y };
        Fr::new((self.n * y + u) / self.d, y)
    }
    pub fn show(self) -> String { if self.d == 1 { format!("{}", self.n) } else { format!("{}/{}", self.n, self.d) } }
    /// terms of the cross-multiplied forms stay well inside 64 bits
    pub fn small(self) -> bool { self.n.abs() < 1 << 30 && self.d < 1 << 30 }
    pub fn mk(self) -> Rational { Rational::new(self.n as i64, self.d as i64) }
}
fn hash(r: &Rational) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); r.hash(&mut h); h.finish() }

fn same(ctx: &mut Ctx, r: Rational, f: Fr, log: &str) -> Res {
    ctx.see("values compared");
    let s = must("rational display", || (format!("{}", r), format!("{:?}", r)))?;
    check!(s.0 == f.show() && s.1 == f.show(), "rational:value", "{} gave {} (debug {}), exact value {}", log, s.0, s.1, f.show());
    check!(r.get_numerator() as i128 == f.n.abs() && r.get_denominator() as i128 == f.d, "rational:parts", "{}: numerator {} denominator {}, exact {}", log, r.get_numerator(), r.get_denominator(), f.show());
    let c = Rational::new(f.n as i64, f.d as i64);
    check!(r == c, "rational:canonical", "{} gave {} which is not equal to the same value {} built directly", log, r, c);
    check!(hash(&r) == hash(&c), "rational:hash", "{}: equal values hash differently", log);
    let o = must("rational cmp", || r.cmp(&c))?;
    check!(o == std::cmp::Ordering::Equal, "rational:cmp-self", "{}: {} compared with itself gives {:?}", log, r, o);
    let x: f64 = r.into();
    let e = f.n as f64 / f.d as f64;
    check!((x - e).abs() <= e.abs() * 1e-15, "rational:f64", "{} -> {} expected {}", f.show(), x, e);
    Ok(())
}
fn gen(ctx: &mut Ctx) -> Fr {
    let r = &mut ctx.rng;
    match r.below(6) {
        0 => Fr::new(0, r.range(1, 5) as i128),
        1 => Fr::new(r.range(-3, 3) as i128, r.range(1, 4) as i128),
        2 | 3 => Fr::new(r.range(-60, 60) as i128, r.range(1, 60) as i128),
        4 => Fr::new(r.range(-(1 << 29), 1 << 29) as i128, 1 << r.below(29)),
        5 if r.chance(1, 6) => { let w = |r: &mut Rng| (r.u64() >> (2 + r.below(34))) as i128; let (n, d) = (w(r), w(r).max(1)); let n = if r.chance(1, 3) { n + d } else { n }; Fr::new(if r.bool() { n } else { -n }, d) }
        _ => { let m = (r.u64() >> (35 + r.below(25))).max(1) as i128; let n = (r.u64() >> (35 + r.below(25))) as i128; Fr::new(if r.bool() { n } else { -n }, m) }
    }
}

pub fn c12(ctx: &mut Ctx) -> Res {
    let f = gen(ctx);
    let f = if f.n.abs() < 1 << 56 && f.d < 1 << 56 { f } else { Fr::new(f.n >> 6, (f.d >> 6).max(1)) };
    let k = ctx.rng.range(1, 50) as i128; let k = if ctx.rng.bool() { k } else { -k };
    let mut log = format!("new({},{})", f.n * k, f.d * k);
    ctx.input(log.clone(), false);
    let mut r = must("rational new", || Rational::new((f.n * k) as i64, (f.d * k) as i64))?;
    let mut f = f;
    same(ctx, r, f, &log)?;
    if ctx.idx % 16 == 0 {
        use alg::rational;
        let (n, d) = ((f.n * k) as i64, (f.d * k) as i64);
        same(ctx, rational!(n), Fr::new(n as i128, 1), "rational!(n)")?;
        same(ctx, rational!(n; d), f, "rational!(n; d)")?;
        same(ctx, rational!(7; -14), Fr::new(-1, 2), "rational!(7; -14)")?;
        let b = [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -1, 0, 1, 2];
        let n = *ctx.rng.pick(&b); let mut d = *ctx.rng.pick(&b); if d == 0 { d = 3; }
        let x = must("rational new", || Rational::new(n, d))?;
        let e = Fr::new(n as i128, d as i128);
        check!(format!("{}", x) == e.show(), "rational:extreme", "new({},{}) = {} expected {}", n, d, x, e.show());
        check!(guard(|| Rational::new(n, 0)).is_err(), "rational:zero-den", "zero denominator accepted");
        ctx.see("extreme constructions");
    }
    let steps = 2 + ctx.rng.below(12);
    for _ in 0..steps {
        let g = { let x = gen(ctx); let c = ctx.rng.below(8); let y = if c == 2 { f.neighbour(ctx.rng.bool()) } else { x }; let y = if c == 3 && ctx.rng.bool() { Fr::new(1, 1 + y.d) } else { y }; if c == 0 { f.neg() } else if c == 1 { f } else { y } };
        let op = ctx.rng.below(12);
        let q = g.mk();
        let (nf, name): (Option<Fr>, &str) = match op {
            0 | 1 => (Some(f.add(g)), "+"), 2 | 3 => (Some(f.sub(g)), "-"), 4 | 5 => (Some(f.mul(g)), "*"),
            6 | 7 => (if g.n == 0 { None } else { Some(f.div(g)) }, "/"), 8 => (Some(f.neg()), "neg"), 9 => (Some(Fr { n: f.n.abs(), d: f.d }), "abs"), _ => (Some(f), "cmp"),
        };
        log += &format!(" {} {}", name, g.show());
        ctx.input(log.clone(), f.n != 0 && f.d != 1);
        let Some(nf) = nf else {
            check!(guard(|| r / q).is_err(), "rational:div0", "{}: division by zero gave a value", log);
            ctx.see("divisions by zero refused"); continue
        };
        let assign = ctx.rng.bool();
        let fits = |x: Fr| x.n.abs() < 1 << 63 && x.d < 1 << 63;
        let nr = guard(|| match name {
            "+" => if assign { let mut x = r; x += q; x } else { r + q }, "-" => if assign { let mut x = r; x -= q; x } else { r - q },
            "*" => if assign { let mut x = r; x *= q; x } else { r * q }, "/" => if assign { let mut x = r; x /= q; x } else { r / q },
            "neg" => -r, "abs" => r.abs(), _ => r });
        // numbers whose cross products may not fit may be refused, but not given a wrong value
        let large = !(f.small() && g.small());
        let nr = match nr { Ok(x) => x, Err(e) if large && e.contains("overflow") => { ctx.see("large operands refused"); continue } Err(e) => return fail("panic:rational op", format!("{} panicked: {}", log, e)) };
        if large { ctx.see("large operands computed"); }
        if !fits(nf) { let s = must("rational display", || nr.to_string())?; check!(s == nf.show(), "rational:value", "{} gave {}, exact value {}", log, s, nf.show()); break; }
        same(ctx, nr, nf, &log)?;
        let c = match guard(|| (r.cmp(&q), r.partial_cmp(&q), r < q, r <= q, r == q, r.max(q), q.cmp(&r))) { Ok(x) => x, Err(e) if large && e.contains("overflow") => { ctx.see("large comparisons refused"); break } Err(e) => return fail("panic:rational cmp", format!("{} compared with {} panicked: {}", f.show(), g.show(), e)) };
        let e = f.cmp(g);
        use std::cmp::Ordering::*;
        check!(c.0 == e && c.1 == Some(e) && c.2 == (e == Less) && c.3 == (e != Greater) && c.4 == (e == Equal) && c.6 == e.reverse(), "rational:order", "comparing {} with {}: cmp {:?}, <{} <={} =={}, reverse {:?}; exact {:?}", f.show(), g.show(), c.0, c.2, c.3, c.4, c.6, e);
        ctx.see("comparisons");
        r = nr; f = nf;
    }
    // iterator forms and laws on a small multiset
    let long = ctx.rng.chance(1, 60); let most = if long { 80 } else { 6 }; // few denominators and signs only, where there are many factors
    let v: Vec<Fr> = (0..ctx.rng.below(most)).map(|i| if long { if i < 10 { Fr::new(ctx.rng.range(1, 3) as i128, ctx.rng.range(1, 3) as i128) } else { Fr::new(*ctx.rng.pick(&[1i128, -1, 2, -2, 3]), 1).mul(if i % 2 == 0 { Fr::new(1, 2) } else { Fr::new(1, 1) }) } } else { Fr::new(ctx.rng.range(-9, 9) as i128, ctx.rng.range(1, 9) as i128) }).collect();
    let mut v = v; { let mut p = Fr::new(1, 1); let mut k = 0; v.retain(|x| { let q = p.mul(*x); let ok = x.n == 0 || (q.n.abs() < 1 << 30 && q.d < 1 << 30); if ok && x.n != 0 { p = q; } if ok { k += 1; } ok }); if k > 20 { ctx.see("long sums and products"); } }
    let s = v.iter().fold(Fr::new(0, 1), |a, &b| a.add(b)); let p = v.iter().fold(Fr::new(1, 1), |a, &b| a.mul(b));
    let d = format!("{:?}", v.iter().map(|x| x.show()).collect::<Vec<_>>());
    let gs: Rational = must("rational sum", || v.iter().map(|x| x.mk()).sum())?;
    let gp: Rational = must("rational product", || v.iter().map(|x| x.mk()).product())?;
    same(ctx, gs, s, &format!("sum of {}", d))?;
    same(ctx, gp, p, &format!("product of {}", d))?;
    check!(Rational::zero() == Rational::new(0, -5) && Rational::one() == Rational::new(-4, -4) && Rational::from(-7) == Rational::new(7, -1), "rational:units", "zero/one/from");
    let f = if f.small() { f } else { Fr::new(f.n >> 34, 6) };
    let (q0, r0) = f.mk().euclid_div(Rational::new(3, 7));
    check!(q0 * Rational::new(3, 7) + r0 == f.mk() && r0 == Rational::zero(), "rational:euclid", "euclid_div over the field");
    if f.n != 0 { let (u, m) = f.mk().simplify(); check!(u * m == f.mk(), "rational:simplify", "{} simplified to {}*{}", f.show(), u, m); }
    Ok(())
}

macro_rules! int_case { ($name:ident, $t:ty) => {
    fn $name(ctx: &mut Ctx) -> Res {
        let lim: i64 = if std::mem::size_of::<$t>() == 1 { 40 } else if std::mem::size_of::<$t>() == 2 { 150 } else { 40000 };
        let pick = |ctx: &mut Ctx| -> $t { let r = &mut ctx.rng; let m = match r.below(4) { 0 => 3, 1 => 12, _ => lim }; let x = r.range(-m, m); (if r.chance(1, 3) && x.abs() < 300.min(lim / 10) { x * r.range(1, 6) } else { x }) as $t };
        let full = ctx.rng.chance(1, 6); // the whole range of the type: what does not fit may be refused
        let (a, b) = if full { let mut w = || -> $t { let r = &mut ctx.rng; let x = (((r.u64() as u128) << 64 | r.u64() as u128) as i128) >> (128 - <$t>::BITS); let x = x >> r.below(<$t>::BITS as usize); let top = (1i128 << (<$t>::BITS - 2)) - 1 + (1i128 << (<$t>::BITS - 2)); (match r.below(8) { 0 => top - r.below(3) as i128, 1 => -top - 1 + r.below(3) as i128, _ => x }) as $t }; (w(), w()) } else { (pick(ctx), pick(ctx)) };
        ctx.input(format!("{}: a={} b={}", stringify!($t), a, b), a != 0 && b != 0 && a != b);
        let (a8, b8) = (a as i128, b as i128);
        macro_rules! val { ($what:expr, $e:expr) => { match guard(|| $e) { Ok(x) => Some(x), Err(e) if full && e.contains("overflow") => { ctx.see("refused on overflow"); None } Err(e) => return fail(concat!("panic:", $what), format!("{} of {} and {} panicked: {}", $what, a, b, e)) } } }
        if b != 0 {
            if let Some((q, r)) = val!("euclid_div", a.euclid_div(b)) {
            check!((q as i128, r as i128) == (a8.wrapping_div_euclid(b8), a8.wrapping_rem_euclid(b8)), "int:euclid", "{} = {}*{}+{} is false", a, q, b, r);
            check!(r as i128 >= 0 && (r as i128).unsigned_abs() < b8.unsigned_abs(), "int:remainder", "remainder {} of {} by {}", r, a, b); }
            if let Some(d) = val!("divides", b.divides(a)) { check!(d == (a8.wrapping_rem(b8) == 0), "int:divides", "{} divides {} = {}", b, a, d); }
            ctx.see("divisions");
        }
        if let Some((u, m)) = val!("simplify", a.simplify()) { check!(u.checked_mul(m) == Some(a) && (u == 1 || u == -1) && m >= 0, "int:simplify", "{} simplified to {}*{}", a, u, m); }
        if let Some((g, x, y)) = val!("bezout_identity", bezout_identity(a, b)) {
        check!((g as i128) >= 0 && g as i128 as u128 == gcdu(a8.unsigned_abs(), b8.unsigned_abs()), "int:gcd", "gcd({},{}) = {}", a, b, g);
        check!((x as i128).wrapping_mul(a8).wrapping_add((y as i128).wrapping_mul(b8)) == g as i128, "int:bezout", "{}*{}+{}*{} != {}", x, a, y, b, g); }
        ctx.see("bezout identities");
        if a8.unsigned_abs() > 40000 { return Ok(()); }
        let n = a8.abs();
        let (mut cnt, mut z, mut p) = (0usize, n, 2i128);
        while z > 1 { if z % p == 0 { z /= p; cnt += 1; } else { p += 1; } }
        if let Some(ip) = val!("is_prime", a.is_prime()) { check!(ip == (cnt == 1), "int:is_prime", "is_prime({}) = {} but it has {} prime factors", a, ip, cnt); }
        if n != 0 {
            if let Some(np) = val!("n_prime_factors", a.n_prime_factors()) { check!(np == cnt, "int:n_prime_factors", "n_prime_factors({}) = {} expected {}", a, np, cnt); }
        }
        ctx.see("factorisations");
        Ok(())
    }
} }
int_case!(ci8, i8); int_case!(ci16, i16); int_case!(ci32, i32); int_case!(ci64, i64); int_case!(ci128, i128); int_case!(cisize, isize);

fn gcdu(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcdu(b, a % b) } }
fn prime(n: u64) -> bool { n > 1 && (2..).take_while(|p| p * p <= n).all(|p| n % p != 0) }
pub fn c13(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 1500) { // primality of large numbers: primes, squares and products of two primes
        let q = |ctx: &mut Ctx, m: u64| { let mut x = 2 + ctx.rng.u64() % m; while !prime(x) { x += 1; } x };
        let n = match ctx.rng.below(4) { 0 => q(ctx, 1 << 34), 1 => { let p = q(ctx, 1 << 17); p * p } 2 => { let p = q(ctx, 1 << 17); let mut r = p + 1; while !prime(r) { r += 1; } p * r } _ => ctx.rng.u64() >> 30 };
        let n = (if ctx.rng.bool() { n as i64 } else { -(n as i64) }, prime(n));
        ctx.input(format!("i64 primality: {}", n.0), true);
        let (x, y) = (must("is_prime", || n.0.is_prime())?, must("is_prime", || (n.0 as i128).is_prime())?);
        check!(x == n.1 && y == n.1, "int:is_prime", "is_prime({}) = {} / {}, expected {}", n.0, x, y, n.1);
        ctx.see("primality of large numbers");
        // numbers of prime factors, with repetition
        let mut m = 1i64; let mut cnt = 0; let top = *ctx.rng.pick(&[100u64, 2000, 3_000_000]);
        loop { let p = q(ctx, *ctx.rng.clone().pick(&[6u64, 50, 2000, 1 << 21])) as i64; if m * p > top as i64 { break; } m *= p; cnt += 1; if ctx.rng.chance(1, 3) && m * p <= top as i64 { m *= p; cnt += 1; } }
        if cnt > 0 { let neg = ctx.rng.bool(); let z = if neg { -m } else { m }; let (x, y, w) = (must("n_prime_factors", || z.n_prime_factors())?, must("n_prime_factors", || (z as i32).n_prime_factors())?, must("is_prime", || z.is_prime())?); check!(x == cnt && y == cnt && w == (cnt == 1), "int:n_prime_factors", "n_prime_factors({}) = {} / {}, expected {}", z, x, y, cnt); }
        return Ok(());
    }
    if ctx.idx % 7 == 6 { // large 64-bit operands
        let sh = ctx.rng.below(62); let a = (ctx.rng.u64() as i64) >> sh; let sh = ctx.rng.below(62); let b = (ctx.rng.u64() as i64) >> sh;
        let (a, b) = (a / 2, b / 2);
        ctx.input(format!("i64 large: a={} b={}", a, b), a != 0 && b != 0);
        let (g, x, y) = must("bezout", || bezout_identity(a, b))?;
        check!(g as i128 == gcd128(a as i128, b as i128), "int:gcd", "gcd({},{}) = {}", a, b, g);
        check!(x as i128 * a as i128 + y as i128 * b as i128 == g as i128, "int:bezout", "{}*{}+{}*{} != {}", x, a, y, b, g);
        if b != 0 { let (q, r) = must("euclid_div", || a.euclid_div(b))?; check!(q as i128 * b as i128 + r as i128 == a as i128 && r >= 0 && (r as i128) < (b as i128).abs(), "int:euclid", "{} by {}: {} rem {}", a, b, q, r); }
        ctx.see("large operands");
        return Ok(());
    }
    match ctx.idx % 7 { 0 => ci8(ctx), 1 => ci16(ctx), 2 => ci32(ctx), 3 => ci64(ctx), 4 => ci128(ctx), _ => cisize(ctx) }
}
