//! C14 permutations in the three representations against explicit image tables.
use crate::check;
use crate::core::*;
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::Group;
use alg::permutation;

pub fn comp(p: &[usize], q: &[usize]) -> Vec<usize> { q.iter().map(|&i| p[i]).collect() }
pub fn inv(p: &[usize]) -> Vec<usize> { let mut o = vec![0; p.len()]; for (i, &x) in p.iter().enumerate() { o[x] = i; } o }
pub fn cycles(p: &[usize]) -> Vec<Vec<usize>> {
    let mut seen = vec![false; p.len()]; let mut out = vec![];
    for i in 0..p.len() { if !seen[i] && p[i] != i { let mut c = vec![]; let mut x = i; while !seen[x] { seen[x] = true; c.push(x); x = p[x]; } out.push(c); } }
    out
}
pub fn show(p: &[usize]) -> String {
    let c = cycles(p);
    if c.is_empty() { return "(1)".into(); }
    c.iter().map(|c| format!("({})", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))).collect()
}
fn pw(p: &[usize], k: i64) -> Vec<usize> { let b = if k < 0 { inv(p) } else { p.to_vec() }; let mut o: Vec<usize> = (0..p.len()).collect(); for _ in 0..k.abs() { o = comp(&b, &o); } o }
fn lcm(a: usize, b: usize) -> usize { fn g(a: usize, b: usize) -> usize { if b == 0 { a } else { g(b, a % b) } } a / g(a, b) * b }
fn ord(p: &[usize]) -> usize { cycles(p).iter().fold(1, |a, c| lcm(a, c.len())) }
fn blockswap(n: usize, a: std::ops::Range<usize>, b: std::ops::Range<usize>) -> Vec<usize> {
    if a.is_empty() || b.is_empty() { return (0..n).collect(); }
    let (a, b) = if a.end <= b.start { (a, b) } else { (b, a) };
    let mut order: Vec<usize> = (0..a.start).collect();
    order.extend(b.clone()); order.extend(a.end..b.start); order.extend(a); order.extend(b.end..n);
    inv(&order) // element at i moves to position p[i]
}
fn gen(rng: &mut Rng, n: usize) -> Vec<usize> {
    match rng.below(5) {
        0 => { let mut v: Vec<usize> = (0..n).collect(); if n >= 2 { for _ in 0..rng.size(0, 2) { let (i, j) = (rng.below(n), rng.below(n)); v.swap(i, j); } } v }
        1 => { let k = rng.below(n + 1); (0..n).map(|i| if i < k { if k == 0 { i } else { (i + 1) % k } } else { i }).collect() }
        2 => { let k = rng.below(n + 1); let mut v: Vec<usize> = (0..n).collect(); let (a, _) = v.split_at_mut(k); rng.shuffle(a); v }
        _ => rng.perm(n),
    }
}
fn mk(rng: &mut Rng, p: &[usize]) -> Permutation {
    let mut cs: Vec<Vec<usize>> = cycles(p).into_iter().map(|mut c| { let k = rng.below(c.len()); c.rotate_left(k); c }).collect();
    for i in 0..p.len() { if p[i] == i && rng.chance(1, 6) { cs.push(vec![i]); } }
    if rng.chance(1, 8) { cs.push(vec![]); }
    rng.shuffle(&mut cs);
    if cs.len() == 1 && rng.bool() { return Permutation::from_cycle(Cycle::from(cs.pop().unwrap())); }
    Permutation::from_disjoint_cycles(cs.into_iter().map(Cycle::from).collect())
}
fn same(ctx: &mut Ctx, what: &str, q: &Permutation, p: &[usize]) -> Res {
    ctx.see("cycle-notation results compared");
    for i in 0..p.len() + 3 {
        let e = if i < p.len() { p[i] } else { i };
        let g = must(what, || q.map(i))?;
        check!(g == e, format!("perm:{}", what), "{}: {} is sent to {} instead of {} (printed {}, expected {})", what, i, g, e, q, show(p));
    }
    let c = Permutation::from_disjoint_cycles(cycles(p).into_iter().map(Cycle::from).collect());
    check!(*q == c, format!("perm:{}:equal", what), "{}: {} does not compare equal to the same permutation {}", what, q, c);
    check!(q.to_string() == show(p), format!("perm:{}:print", what), "{}: printed {} expected {}", what, q, show(p));
    let mut u: Vec<usize> = q.unfixed_indeces_iter().collect(); u.sort();
    let e: Vec<usize> = (0..p.len()).filter(|&i| p[i] != i).collect();
    check!(u == e, format!("perm:{}:support", what), "{}: moved indices {:?} expected {:?}", what, u, e);
    Ok(())
}

fn consts<const N: usize>(ctx: &mut Ctx) -> Res {
    let tab = |p: &[usize]| -> [usize; N] { let mut a = [0; N]; a.copy_from_slice(p); a };
    let (p, q, r) = (gen(&mut ctx.rng, N), gen(&mut ctx.rng, N), gen(&mut ctx.rng, N));
    let (a, b, c) = (ConstPermutation::from(tab(&p)), ConstPermutation::from(tab(&q)), ConstPermutation::from(tab(&r)));
    let (va, vb, vc) = (VecPermutation::from(tab(&p)), VecPermutation::from(b), VecPermutation::from(tab(&r)));
    let eq = |what: &str, x: ConstPermutation<N>, y: &VecPermutation, e: &[usize]| -> Res {
        check!(x == ConstPermutation::from(tab(e)), format!("array:{}", what), "{} of {:?} {:?} {:?}: {:?} expected {:?}", what, p, q, r, x, e);
        for i in 0..N + 2 { let w = if i < N { e[i] } else { i }; let g = must("eval", || y.eval(i))?; check!(g == w, format!("vec:{}", what), "{} of {:?} {:?} {:?}: {} -> {} expected {}", what, p, q, r, i, g, w); }
        check!(*y == VecPermutation::from(tab(e)), format!("vec:{}:equal", what), "{} of {:?} {:?} {:?} does not compare equal to {:?}", what, p, q, r, e);
        Ok(())
    };
    ctx.see_n("array results compared", 6);
    eq("mul", a * b, &must("vec mul", || va.clone() * vb.clone())?, &comp(&p, &q))?;
    let (mut a2, mut va2) = (a, va.clone()); a2 *= c; must("vec mul_assign", || va2 *= vc.clone())?;
    eq("mul_assign", a2, &va2, &comp(&p, &r))?;
    eq("product", [a, b, c].into_iter().product(), &must("vec product", || [va.clone(), vb.clone(), vc.clone()].into_iter().product())?, &comp(&r, &comp(&q, &p)))?;
    eq("inverse", must("inverse", || a.inverse())?, &must("vec inverse", || va.clone().inverse())?, &inv(&p))?;
    eq("inverse_of_gen", a.inverse_of_gen(), &va.clone().inverse_of_gen(), &inv(&p))?;
    let id: Vec<usize> = (0..N).collect();
    eq("p*p^-1", a * a.inverse(), &(va.clone() * va.clone().inverse()), &id)?;
    eq("identity", ConstPermutation::identity(), &VecPermutation::identity(), &id)?;
    check!(a.order() == ord(&p), "array:order", "order of {:?} is {} expected {}", p, a.order(), ord(&p));
    let o = va.clone().order();
    check!(o == ord(&p), "vec:order", "order of {:?} (vector) is {} expected {}", p, o, ord(&p));
    check!((va == vc) == (p == r), "vec:equal", "{:?} == {:?} gave {}", p, r, va == vc);
    check!((a == c) == (p == r), "array:equal", "{:?} == {:?} gave {}", p, r, a == c);
    // different lengths
    let s = gen(&mut ctx.rng, 4);
    let vs = VecPermutation::from([s[0], s[1], s[2], s[3]]);
    let n = N.max(4);
    let ext = |p: &[usize]| -> Vec<usize> { (0..n).map(|i| if i < p.len() { p[i] } else { i }).collect() };
    for (x, e) in [(va.clone() * vs.clone(), comp(&ext(&p), &ext(&s))), (vs.clone() * va.clone(), comp(&ext(&s), &ext(&p)))] {
        for i in 0..n + 2 { let w = if i < n { e[i] } else { i }; check!(x.eval(i) == w, "vec:mixed-length", "product of {:?} and {:?}: {} -> {} expected {}", p, s, i, x.eval(i), w); }
        check!(x.clone().order() == ord(&e), "vec:order", "order of {:?} is {}", e, x.order());
    }
    let mut m = va.clone(); m *= vs.clone();
    for i in 0..n { check!(m.eval(i) == comp(&ext(&p), &ext(&s))[i], "vec:mixed-length", "{:?} *= {:?}: at {} {}", p, s, i, m.eval(i)); }
    check!((va == vs) == (ext(&p) == ext(&s)), "vec:equal", "{:?} == {:?} gave {}", p, s, va == vs);
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> Res {
    let top = if ctx.rng.chance(1, 2000) { 150 } else if ctx.idx % 50 == 0 { 40 } else { 11 }; let n = ctx.rng.size(1, top);
    let (p, q, r) = (gen(&mut ctx.rng, n), gen(&mut ctx.rng, n), gen(&mut ctx.rng, n));
    ctx.input(format!("p={} q={} r={} n={}", show(&p), show(&q), show(&r), n), !cycles(&p).is_empty() && !cycles(&q).is_empty());
    let (a, b, c) = must("construct", || (mk(&mut ctx.rng, &p), mk(&mut ctx.rng, &q), mk(&mut ctx.rng, &r)))?;
    same(ctx, "construct", &a, &p)?; same(ctx, "construct", &b, &q)?;
    check!((a == b) == (p == q), "perm:equal", "{} == {} gave {}", a, b, a == b);
    same(ctx, "mul", &must("mul", || a.clone() * b.clone())?, &comp(&p, &q))?;
    same(ctx, "assoc", &must("mul", || a.clone() * (b.clone() * c.clone()))?, &comp(&comp(&p, &q), &r))?;
    same(ctx, "product", &must("product", || [a.clone(), b.clone(), c.clone()].into_iter().product())?, &comp(&r, &comp(&q, &p)))?;
    same(ctx, "empty product", &must("product", || Vec::<Permutation>::new().into_iter().product())?, &(0..n).collect::<Vec<_>>())?;
    same(ctx, "inverse", &must("inverse", || a.clone().inverse())?, &inv(&p))?;
    let most = if ctx.rng.chance(1, 100) { 600 } else { 7 }; let k = ctx.rng.range(-most, most);
    same(ctx, "power", &must("power", || a.clone() ^ k)?, &pw(&p, k))?;
    // the same permutations on other indices, also far away ones
    if ctx.rng.chance(1, 8) {
        let off = *ctx.rng.pick(&[1usize, 37, 64, 1 << 20, 1 << 40, usize::MAX - 200]);
        let far = |p: &[usize]| Permutation::from_disjoint_cycles(cycles(p).into_iter().map(|c| Cycle::from(c.into_iter().map(|x| x + off).collect())).collect());
        let (fa, fb) = must("construct", || (far(&p), far(&q)))?;
        for (w, x, e) in [("mul", must("mul", || fa.clone() * fb.clone())?, comp(&p, &q)), ("inverse", must("inverse", || fa.clone().inverse())?, inv(&p)), ("power", must("power", || fb.clone() ^ k)?, pw(&q, k))] {
            check!((0..n).all(|i| x.map(i + off) == e[i] + off) && x.map(0) == if off == 0 { e[0] } else { 0 } && x.map(off - 1) == off - 1 && x.map(off + n) == off + n, "perm:far", "{} of {} and {} (k={}) gave {}", w, fa, fb, k, x);
            check!(x == far(&e), "perm:far", "{} of {} and {} gave {}", w, fa, fb, x);
        }
        ctx.see("results on far indices");
    }
    // decomposition into transpositions
    let g = must("in_terms_of_gens", || b.clone().in_terms_of_gens())?;
    for t in &g { let s = t.unfixed_indeces_iter().count(); check!(s == 2 || (s == 0 && cycles(&q).is_empty()), "perm:gens", "{} is decomposed with {} which is no transposition", b, t); }
    same(ctx, "gens product", &g.iter().cloned().product(), &q)?;
    same(ctx, "gens inverse", &g.into_iter().rev().map(|x| x.inverse_of_gen()).product(), &inv(&q))?;
    // action on a list: what is at i moves to p(i)
    let extra = ctx.rng.below(3);
    let v: Vec<usize> = (0..n + extra).map(|i| 100 + i * i).collect();
    let exp = |p: &[usize]| { let mut o = v.clone(); for i in 0..p.len() { o[p[i]] = v[i]; } o };
    let w = must("<<", || v.clone() << a.clone())?;
    check!(w == exp(&p), "perm:action", "{:?} << {} gave {:?} expected {:?}", v, a, w, exp(&p));
    let mut w2 = v.clone(); must("<<=", || { w2 <<= a.clone(); w2 <<= b.clone(); })?;
    check!(w2 == exp(&comp(&q, &p)), "perm:action", "acting by {} and then {} gave {:?}", a, b, w2);
    ctx.see_n("actions compared", 2);
    // block swaps and cyclic shifts
    let mut cut = [ctx.rng.below(n + 1), ctx.rng.below(n + 1), ctx.rng.below(n + 1), ctx.rng.below(n + 1)]; cut.sort();
    let (r1, r2) = (cut[0]..cut[1], cut[2]..cut[3]);
    let e = blockswap(n, r1.clone(), r2.clone());
    let (x1, x2) = if ctx.rng.bool() { (r1, r2) } else { (r2, r1) };
    let s = must("swap", || Permutation::swap(x1.clone(), x2.clone()))?;
    check!((0..n + 2).all(|i| s.map(i) == if i < n { e[i] } else { i }), "perm:swap", "swap({:?},{:?}) = {} expected {}", x1, x2, s, show(&e));
    same(ctx, "swap", &s, &e)?;
    if cut[0] < cut[1] && cut[1] < cut[2] { // blocks that share elements
        let (a, b) = (cut[0]..cut[2], cut[1]..cut[3].max(cut[2] + 1)); let f = ctx.rng.bool();
        check!(guard(|| if f { Permutation::swap(a.clone(), b.clone()) } else { Permutation::swap(b.clone(), a.clone()) }).is_err(), "perm:swap", "the overlapping blocks {:?} and {:?} are exchanged", a, b);
    }
    if cut[0] < cut[1] {
        let r = cut[0]..cut[1];
        let e: Vec<usize> = (0..n).map(|i| if r.contains(&i) { if i + 1 == r.end { r.start } else { i + 1 } } else { i }).collect();
        same(ctx, "cyclic", &Permutation::cyclic_from(r), &e)?;
    }
    same(ctx, "macro", &{ let x = n; permutation!((x, x + 1)(x + 2)) }, &{ let mut v: Vec<usize> = (0..n + 2).collect(); v.swap(n, n + 1); v })?;
    // refusals
    if n >= 2 {
        let mut c = vec![0, 1]; c.push(ctx.rng.below(2));
        check!(guard(|| Cycle::from(c.clone())).is_err(), "perm:accepts", "a cycle {:?} with a repeated entry is accepted", c);
        let m = ctx.rng.below(2);
        check!(guard(|| Permutation::from_disjoint_cycles(vec![Cycle::from(vec![0, 1]), Cycle::from(vec![m, 7, 9])])).is_err(), "perm:accepts", "overlapping cycles are accepted");
        ctx.see_n("refusals observed", 2);
    }
    if ctx.rng.chance(1, 40) { return match ctx.rng.below(3) { 0 => consts::<20>(ctx), 1 => consts::<33>(ctx), _ => consts::<70>(ctx) }; }
    match ctx.rng.below(6) { 0 => consts::<1>(ctx), 1 => consts::<2>(ctx), 2 => consts::<3>(ctx), 3 => consts::<5>(ctx), 4 => consts::<8>(ctx), _ => consts::<12>(ctx) }
}
