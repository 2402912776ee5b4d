//! C01 homology groups, C02 cycles and boundaries, C03 boundary maps, C04 structure of simplicial complexes.
use crate::check;
use crate::core::*;
use crate::p_snf::*;
use crate::p_sums::{parse, parse_mod, primary, Ob};
use crate::refmat::*;
use alg::commutative::Rational;
use alg::lin_alg::{Matrix, Vector};
use std::collections::{BTreeMap, BTreeSet};
use topo_spaces::simplicial::{Simplex, SimplicialCplx};
use topo_spaces::{Complex, HomologyWithFieldCoefficients, IntegralHomology, H};

// ---------------------------------------------------------------- chain complexes and reference homology
/// maps[k]: C_k -> C_{k-1}; maps[0] has any number of rows
#[derive(Clone)]
pub struct Chain { pub maps: Vec<RM> }
pub type Hom = Vec<(usize, Vec<i128>)>;
impl Chain {
    pub fn dims(&self) -> Vec<usize> { self.maps.iter().map(|m| m.m).collect() }
    pub fn homology(&self) -> Option<Hom> {
        let n = self.maps.len();
        let f: Option<Vec<Vec<i128>>> = self.maps.iter().map(|m| { let f = invariant_factors(m)?; if f.len() != rank_q(m) { panic!("oracle disagrees with itself on {}", m.show()) } Some(f) }).collect();
        let f = f?;
        Some((0..n).map(|k| { let (lo, hi) = (f[k].len(), f.get(k + 1).map_or(vec![], |x| x.clone())); (self.maps[k].m - lo - hi.len(), hi.into_iter().filter(|&d| d > 1).collect()) }).collect())
    }
    pub fn show(&self) -> String { self.maps.iter().map(|m| m.show()).collect::<Vec<_>>().join(" <- ") }
}
struct User(Chain);
impl Complex for User {
    type Cell = Ob;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Ob>)> { self.0.maps.iter().enumerate().map(|(k, m)| (to_mat::<i64>(m), (0..m.m).map(|i| Ob((k * 1000 + i) as u16)).collect())).collect() }
}
/// any complex with its cells replaced by numbers, so that chains can be read back
pub struct Numbered<'a, C: Complex>(pub &'a C);
impl<'a, C: Complex> Complex for Numbered<'a, C> {
    type Cell = Ob;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Ob>)> { self.0.boundary_map().into_iter().enumerate().map(|(k, (m, _))| { let n = (*m).size().1; (m, (0..n).map(|i| Ob((k * 1000 + i) as u16)).collect()) }).collect() }
}
struct OverQ(Chain);
impl HomologyWithFieldCoefficients<Rational> for OverQ {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.0.maps.iter().map(|m| Matrix::from_array(m.a.iter().map(|r| r.iter().map(|&x| Rational::new(x as i64, 1)).collect()).collect())).collect() }
}
/// compare printed homology with the expected groups
pub fn printed(what: &str, s: &str, want: &Hom, bound: Option<usize>) -> Res {
    let mut w = want.clone();
    if let Some(b) = bound { w.truncate(b + 1); }
    while w.last().map_or(false, |(f, t)| *f == 0 && t.is_empty()) { w.pop(); }
    let lines: Vec<&str> = s.lines().collect();
    check!(lines.len() == w.len(), format!("{}:dims", what), "homology printed as {:?}, expected {:?} (bound {:?})", s, w, bound);
    for (i, l) in lines.iter().enumerate() {
        let g = l.strip_prefix(&format!("dim {}: ", i)).and_then(|x| x.strip_suffix(",")).and_then(parse_mod);
        let Some((f, t)) = g else { return fail(format!("{}:print", what), format!("homology line {:?}", l)) };
        let wt: Vec<(i64, usize)> = w[i].1.iter().map(|&d| (d as i64, 1)).collect();
        check!(primary(f, &t) == primary(w[i].0, &wt), format!("{}:group", what), "dimension {} printed as {:?}, expected rank {} torsion {:?} (bound {:?})", i, l, w[i].0, w[i].1, bound);
    }
    Ok(())
}
/// scrambled chain complex with prescribed homology
pub fn gen_chain(rng: &mut Rng, big: bool) -> Chain {
    let long = rng.chance(1, 25); let wide = !long && rng.chance(1, 150); let n = if long && rng.chance(1, 10) { rng.size(10, 28) } else if long { rng.size(5, 9) } else { rng.size(1, 4) }; let mx = if wide { rng.size(8, 24) } else if long { 2 } else if big { 5 } else if rng.chance(1, 20) { 6 } else { 3 };
    let r: Vec<usize> = (0..=n).map(|k| if k == n { 0 } else if k == 0 && !rng.chance(1, 4) { 0 } else { rng.below(mx + 1) }).collect();
    let free: Vec<usize> = (0..n).map(|k| { let f = if wide { rng.below(20) } else { rng.below(3) }; if r[k] + r[k + 1] + f == 0 { 1 } else { f } }).collect();
    let dim = |k: usize| r[k] + r[k + 1] + free[k];
    let divisors: &[i128] = if rng.chance(1, 12) { &[1, 1, 2, 7, 8, 9, 16, 30, 97, 210, 256, 1000, 65536, 1000003, -8, -30] } else { &[1, 1, 1, 2, 2, 3, 4, 6, 12, -1, -2, 5] };
    // standard form: columns of C_k are [A (r_k) | B (r_{k+1}) | free]; C_{-1} has r_0 + something
    let mut maps = vec![];
    for k in 0..n {
        let rows = if k == 0 { r[0] + 1 } else { dim(k - 1) };
        let mut m = RM::new(rows, dim(k));
        for i in 0..r[k] { let row = if k == 0 { i } else { r[k - 1] + i }; m.a[row][i] = *rng.pick(divisors); }
        maps.push(m);
    }
    // change of basis in every C_k: column operation on maps[k], inverse row operation on maps[k+1]
    let ops = if wide { rng.below(3) } else { 1 } * rng.below(if big { 14 } else { 10 });
    for k in 0..n {
        let d = dim(k);
        let p = rng.perm(d);
        let mut m = maps[k].clone(); for i in 0..m.n { for j in 0..d { m.a[i][j] = maps[k].a[i][p[j]]; } } maps[k] = m;
        if k + 1 < n { let mut m = maps[k + 1].clone(); for i in 0..d { m.a[i] = maps[k + 1].a[p[i]].clone(); } maps[k + 1] = m; }
        for _ in 0..ops {
            if d < 2 { break; }
            let i = rng.below(d); let j = (i + 1 + rng.below(d - 1)) % d; let q = *rng.pick(&[1i128, -1, 1, -1, 2]);
            // e_j := e_j + q e_i
            for row in maps[k].a.iter_mut() { let v = row[i]; row[j] += q * v; }
            if k + 1 < n { let v = maps[k + 1].a[j].clone(); for (x, y) in maps[k + 1].a[i].iter_mut().zip(v) { *x -= q * y; } }
        }
    }
    Chain { maps }
}

// ---------------------------------------------------------------- simplicial complexes
pub type Face = Vec<usize>;
pub fn closure(ms: &[Face]) -> Vec<BTreeSet<Face>> {
    let mut out: Vec<BTreeSet<Face>> = vec![];
    for m in ms { let n = m.len(); let mut s = m.clone(); s.sort();
        for mask in 1u32..(1 << n) { let f: Face = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| s[i]).collect(); let d = f.len() - 1; while out.len() <= d { out.push(BTreeSet::new()); } out[d].insert(f); } }
    out
}
pub fn chain_of(cl: &[BTreeSet<Face>]) -> Chain {
    let mut maps = vec![RM::new(1, cl[0].len())];
    for d in 1..cl.len() {
        let ix: BTreeMap<&Face, usize> = cl[d - 1].iter().enumerate().map(|(i, f)| (f, i)).collect();
        let mut m = RM::new(cl[d - 1].len(), cl[d].len());
        for (j, f) in cl[d].iter().enumerate() { for k in 0..f.len() { let mut g = f.clone(); g.remove(k); m.a[ix[&g]][j] = if k % 2 == 0 { 1 } else { -1 }; } }
        maps.push(m);
    }
    Chain { maps }
}
fn known(rng: &mut Rng) -> (Vec<Face>, &'static str, Option<Hom>) {
    let f = |v: &[&[usize]]| -> Vec<Face> { v.iter().map(|x| x.to_vec()).collect() };
    match rng.below(6) {
        0 => { let n = rng.size(1, 5); ((0..=n).map(|i| (0..=n).filter(|j| *j != i).collect()).collect(), "sphere", Some((0..n).map(|k| (if n == 1 { 2 } else { (k == 0 || k == n - 1) as usize }, vec![])).collect())) }
        1 => (f(&[&[0, 1, 3], &[1, 2, 4], &[2, 3, 5], &[3, 4, 6], &[4, 5, 0], &[5, 6, 1], &[6, 0, 2], &[0, 2, 3], &[1, 3, 4], &[2, 4, 5], &[3, 5, 6], &[4, 6, 0], &[5, 0, 1], &[6, 1, 2]]), "torus", Some(vec![(1, vec![]), (2, vec![]), (1, vec![])])),
        2 => (f(&[&[0, 1, 4], &[0, 1, 5], &[0, 2, 3], &[0, 2, 5], &[0, 3, 4], &[1, 2, 3], &[1, 2, 4], &[1, 3, 5], &[2, 4, 5], &[3, 4, 5]]), "projective plane", Some(vec![(1, vec![]), (0, vec![2]), (0, vec![])])),
        3 => { // Klein bottle: 3x3 grid, one side reversed
            let id = |i: usize, j: usize| -> usize { let (j, i) = if j == 3 { (0, (3 - i % 3) % 3) } else { (j, i % 3) }; i * 3 + j };
            let mut v = vec![]; for i in 0..3 { for j in 0..3 { v.push(vec![id(i, j), id(i + 1, j), id(i, j + 1)]); v.push(vec![id(i + 1, j), id(i, j + 1), id(i + 1, j + 1)]); } }
            (v, "grid surface", None)
        }
        4 => { let n = rng.size(3, 12); ((0..n).map(|i| vec![i, (i + 1) % n]).collect(), "circle", Some(vec![(1, vec![]), (1, vec![])])) }
        _ => (f(&[&[0, 1, 2], &[1, 2, 3], &[2, 3, 4], &[3, 4, 0], &[4, 0, 1]]), "Moebius band", Some(vec![(1, vec![]), (1, vec![]), (0, vec![])])),
    }
}
fn shift(v: Vec<Face>, k: usize) -> Vec<Face> { v.into_iter().map(|f| f.into_iter().map(|x| x + k).collect()).collect() }
fn nverts(v: &[Face]) -> usize { v.iter().flatten().max().map_or(0, |x| x + 1) }
fn suspend(v: Vec<Face>) -> Vec<Face> { let n = nverts(&v); v.iter().flat_map(|f| [n, n + 1].map(|a| { let mut g = f.clone(); g.push(a); g })).collect() }
fn cone(v: Vec<Face>) -> Vec<Face> { let n = nverts(&v); v.into_iter().map(|mut f| { f.push(n); f }).collect() }
fn bary(v: &[Face]) -> Vec<Face> {
    let cl = closure(v); let mut ix = BTreeMap::new(); for s in &cl { for f in s { let n = ix.len(); ix.insert(f.clone(), n); } }
    let mut out = vec![];
    for m in v { let mut p: Vec<usize> = m.clone(); p.sort(); perms(&mut p.clone(), 0, &mut |q| { out.push((1..=q.len()).map(|k| { let mut f = q[..k].to_vec(); f.sort(); ix[&f] }).collect()); }); }
    out
}
fn perms(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) { if k == p.len() { f(p); return; } for i in k..p.len() { p.swap(k, i); perms(p, k + 1, f); p.swap(k, i); } }
pub fn gen_faces(rng: &mut Rng, big: bool) -> (Vec<Face>, String, Option<Hom>) {
    if rng.chance(1, 3) {
        let (v, n, h) = known(rng);
        match rng.below(6) {
            0 if v.len() < 15 => { let h2 = h.map(|h| { let mut o: Hom = vec![(1, vec![]), (h[0].0 - 1, vec![])]; for k in 1..h.len() { if k + 1 < o.len() { o[k + 1] = h[k].clone() } else { o.push(h[k].clone()) } } o }); return (suspend(v), format!("suspended {}", n), h2); }
            1 => { let k = v.iter().map(|f| f.len()).max().unwrap(); return (cone(v), format!("cone over {}", n), Some((0..=k).map(|i| ((i == 0) as usize, vec![])).collect())); }
            2 if big && v[0].len() <= 3 => { return (bary(&v), format!("subdivided {}", n), h); }
            3 => { // wedge or disjoint union of two
                let (w, m, _) = known(rng); let k = nverts(&v); let wedge = rng.bool(); let mut o = v; o.extend(shift(w, if wedge { k - 1 } else { k })); return (o, format!("{} {} {}", n, if wedge { "wedge" } else { "and" }, m), None);
            }
            _ => return (v, n.into(), h),
        }
    }
    if rng.chance(1, 400) { // more vertices than fit in one word: graphs with few cycles, strips of triangles
        let n = rng.size(60, if big { 140 } else { 80 });
        let mut v: Vec<Face> = if rng.bool() { (0..n - 1).map(|i| vec![i, i + 1]).collect() } else { (0..n - 2).map(|i| vec![i, i + 1, i + 2]).collect() };
        if rng.bool() { v.push(vec![0, n - 1]); } if rng.chance(1, 3) { let i = rng.below(v.len()); v.remove(i); } if rng.chance(1, 3) { v.push(vec![n, n + 1]); }
        return (v, "strip".into(), None);
    }
    if rng.chance(1, 300) { let n = rng.size(6, 8); let mut v: Vec<Face> = vec![(0..n).collect()]; if rng.bool() { v = (0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect(); if rng.bool() { v.pop(); } } return (v, "large simplex".into(), None); }
    let (n, k, d) = if rng.chance(1, 40) { (rng.size(8, 30), rng.size(8, 30), rng.size(2, 4)) } else { (rng.size(1, 9), rng.size(1, 9), rng.size(1, 5)) };
    ((0..k).map(|_| { let s = rng.size(1, d.min(n)); rng.perm(n)[..s].to_vec() }).collect(), "random".into(), None)
}
fn label(i: usize) -> String { format!("v{}", i) }
pub fn simplex_of(f: &[usize], names: &[usize]) -> Simplex<String> { Simplex::from(f.iter().map(|&i| label(names[i])).collect()) }

pub fn c01(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(2, 5) {
        let big = ctx.thorough && ctx.rng.bool();
        let ch = gen_chain(&mut ctx.rng, big);
        ctx.input(format!("chain complex {}", ch.show()), ch.maps.iter().any(|m| !m.is_zero()));
        let Some(h) = ch.homology() else { ctx.inconclusive = true; return Ok(()); };
        let bound = if ctx.rng.bool() { None } else { Some(ctx.rng.below(ch.maps.len() + 2)) };
        let u = User(ch.clone());
        match guard(|| IntegralHomology::new(&u, bound).to_string()) {
            Ok(s) => { ctx.see("homology of user-defined complexes compared"); ctx.see_n("torsion coefficients expected", h.iter().map(|x| x.1.len() as u64).sum()); printed("chain", &s, &h, bound)?; }
            Err(e) if e.contains("overflow") && grows(&ch.maps) => { ctx.inconclusive = true; ctx.see("coefficient overflow (inconclusive)"); }
            Err(e) => return fail("chain:panic", e),
        }
        return Ok(());
    }
    let (mut fs, name, want) = gen_faces(&mut ctx.rng, ctx.thorough);
    let names = ctx.rng.perm(nverts(&fs));
    ctx.rng.shuffle(&mut fs); for f in fs.iter_mut() { ctx.rng.shuffle(f); }
    ctx.input(format!("{} {:?} named {:?}", name, fs, names), fs.iter().any(|f| f.len() > 1));
    let cl = closure(&fs); let ch = chain_of(&cl);
    let Some(h) = ch.homology() else { ctx.inconclusive = true; return Ok(()); };
    if let Some(w) = &want { let mut w = w.clone(); while w.len() < h.len() { w.push((0, vec![])); } assert_eq!(w, h, "reference homology of {}", name); ctx.see("spaces of known homology"); }
    let mut c = SimplicialCplx::<String>::new();
    for f in &fs { must("attach", || c.attach(simplex_of(f, &names)))?; }
    let bound = if ctx.rng.bool() { None } else { Some(ctx.rng.below(cl.len() + 2)) };
    match guard(|| match bound { None => H!(c), Some(b) => H!(c, max_dim = b) }.to_string()) {
        Ok(s) => { ctx.see("homology of simplicial complexes compared"); ctx.see_n("cells", cl.iter().map(|x| x.len() as u64).sum()); ctx.see_n("torsion coefficients expected", h.iter().map(|x| x.1.len() as u64).sum()); printed("simplicial", &s, &h, bound)?; }
        Err(e) if e.contains("overflow") && grows(&ch.maps) => { ctx.inconclusive = true; ctx.see("coefficient overflow (inconclusive)"); }
        Err(e) => return fail("simplicial:panic", e),
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
/// read "k-cycles: \n\t sum, \n"
fn read_chains(s: &str, kind: &str) -> Option<Vec<Vec<BTreeMap<u16, i64>>>> {
    let mut out: Vec<Vec<BTreeMap<u16, i64>>> = vec![];
    for l in s.lines() {
        if let Some(x) = l.strip_prefix('\t') { out.last_mut()?.push(parse(x.strip_suffix(", ")?)?); }
        else { let d = l.strip_suffix(&format!("-{}: ", kind))?; if d.parse::<usize>().ok()? != out.len() { return None; } out.push(vec![]); }
    }
    Some(out)
}
pub fn check_chains<C: Complex<Cell = Ob>>(ctx: &mut Ctx, cplx: &C, ch: &Chain) -> Res {
    let bound = if ctx.rng.bool() { None } else { Some(ctx.rng.below(ch.maps.len() + 1)) };
    let h = match guard(|| IntegralHomology::new(cplx, bound)) {
        Ok(h) => h,
        Err(e) if e.contains("overflow") && grows(&ch.maps) => { ctx.inconclusive = true; ctx.see("coefficient overflow (inconclusive)"); return Ok(()); }
        Err(e) => return fail("chains:panic", e),
    };
    let (cs, bs) = (must("describe", || h.get_description_of_cycles())?, must("describe", || h.get_description_of_boundaries())?);
    let (Some(cy), Some(bo)) = (read_chains(&cs, "cycles"), read_chains(&bs, "boundaries")) else { return fail("chains:format", format!("{:?} / {:?}", cs, bs)) };
    let nd = must("print", || h.to_string())?.lines().count();
    check!(cy.len() == nd && bo.len() == nd, "chains:dims", "{} dimensions of homology, {} of cycles, {} of boundaries", nd, cy.len(), bo.len());
    for k in 0..nd {
        let d = &ch.maps[k]; let n = d.m;
        let mat = |v: &Vec<BTreeMap<u16, i64>>| -> Option<RM> { let mut m = RM::new(v.len(), n); for (i, s) in v.iter().enumerate() { for (b, c) in s { let j = (*b as usize).checked_sub(k * 1000)?; if j >= n { return None; } m.a[i][j] = *c as i128; } } Some(m) };
        let (Some(z), Some(b)) = (mat(&cy[k]), mat(&bo[k])) else { return fail("chains:cells", format!("chains of dimension {} contain other cells: {:?} {:?}", k, cy[k], bo[k])) };
        check!(d.mul(&z.transpose()).is_zero(), "cycles:boundary", "a reported {}-cycle has a boundary: {:?}", k, cy[k]);
        let zf = n - rank_q(d);
        check!(z.n == zf, "cycles:number", "{} cycles in dimension {}, the kernel has rank {}", z.n, k, zf);
        match invariant_factors(&z) { None => ctx.inconclusive = true, Some(f) => { ctx.see("cycle bases judged"); check!(f.len() == zf && f.iter().all(|&x| x == 1), "cycles:basis", "the {}-cycles {:?} do not generate the kernel over the integers (invariant factors {:?})", k, cy[k], f) } }
        let im = if k + 1 < ch.maps.len() { ch.maps[k + 1].transpose() } else { RM::new(0, n) };
        let mut st = im.clone(); st.a.extend(b.a.iter().cloned()); st.n += b.n;
        match (invariant_factors(&im), invariant_factors(&b), invariant_factors(&st)) {
            (Some(i), Some(j), Some(s)) => { ctx.see("boundary bases judged"); if i.iter().any(|&x| x > 1) { ctx.see("boundary bases with torsion"); }
                check!(b.n == i.len(), "boundaries:number", "{} boundaries in dimension {}, the image has rank {}", b.n, k, i.len());
                check!(s == i, "boundaries:member", "a reported {}-boundary is not in the image: {:?}", k, bo[k]);
                check!(j == i, "boundaries:basis", "the {}-boundaries {:?} do not generate the image", k, bo[k]); }
            _ => ctx.inconclusive = true,
        }
    }
    Ok(())
}
fn sort_chain(m: Vec<(Matrix<i64>, Vec<Ob>)>) -> Chain { Chain { maps: m.iter().map(|(m, _)| from_mat(m)).collect() } }
pub fn c02(ctx: &mut Ctx) -> Res {
    if ctx.rng.bool() {
        let big = ctx.thorough && ctx.rng.bool();
        let ch = gen_chain(&mut ctx.rng, big);
        ctx.input(format!("chain complex {}", ch.show()), ch.maps.iter().any(|m| !m.is_zero()));
        return check_chains(ctx, &User(ch.clone()), &ch);
    }
    let (mut fs, name, _) = gen_faces(&mut ctx.rng, false);
    let names = ctx.rng.perm(nverts(&fs)); ctx.rng.shuffle(&mut fs);
    ctx.input(format!("{} {:?} named {:?}", name, fs, names), fs.iter().any(|f| f.len() > 1));
    let mut c = SimplicialCplx::<String>::new();
    for f in &fs { must("attach", || c.attach(simplex_of(f, &names)))?; }
    let nb = Numbered(&c); let ch = sort_chain(must("boundary map", || nb.boundary_map())?);
    check_chains(ctx, &nb, &ch)
}

// ---------------------------------------------------------------- C03, C04
/// attachment history over a universe of vertices; returns the maximal simplices attached
fn gen_history(ctx: &mut Ctx) -> (Vec<Face>, usize) {
    let big = ctx.thorough;
    let r = &mut ctx.rng;
    if r.chance(1, 6) { // chains of simplices hanging together by one vertex each, in order, backwards or shuffled, sometimes with a missing link
        let parts = if r.chance(1, 3) { 2 } else { 1 };
        let (mut v, mut n): (Vec<Face>, usize) = (vec![], 0);
        for _ in 0..parts {
            for _ in 0..r.size(4, if big { 40 } else { 26 }) { let s = if r.chance(1, 4) { r.size(3, 4) } else { 2 }; v.push((n..n + s).collect()); n += s - 1; }
            n += 1;
        }
        if r.chance(1, 5) { let i = r.below(v.len()); v.remove(i); }
        match r.below(4) { 0 => v.reverse(), 1 => r.shuffle(&mut v), _ => {} }
        ctx.see("long chains of simplices");
        return (v, n);
    }
    let n = match r.below(4) { 0 => r.size(1, 6), 1 => r.size(4, 10), 2 => r.size(55, 75), _ => r.size(60, if big { 210 } else { 140 }) };
    let k = r.size(1, 8);
    let mut v: Vec<Face> = vec![];
    for _ in 0..k {
        let s = match r.below(8) { 0 => 1, 1..=5 => r.size(1, 4.min(n)), _ => r.size(1, 7.min(n)) };
        let f: Face = match r.below(5) {
            0 if !v.is_empty() => { let g = r.pick(&v).clone(); let mut g = g; r.shuffle(&mut g); g.truncate(r.size(1, g.len())); g } // a face of an earlier one
            1 if !v.is_empty() => { let mut g = r.pick(&v).clone(); let x = r.below(n); if !g.contains(&x) && g.len() < 7 { g.push(x); } g } // a cofaces
            2 => { let a = r.below(n - s + 1); (a..a + s).collect() }
            3 if n > 64 => { let w = n - 64; let mut f: Face = (0..s.min(w)).map(|i| 64 + (i * 7) % w).collect(); f.sort(); f.dedup(); f } // only vertices beyond the first word
            _ => r.perm(n)[..s].to_vec(),
        };
        v.push(f);
    }
    // fill up the vertex numbers: vertices get numbers in order of appearance, so let a long simplex-free prefix occur
    if n > 10 && r.chance(3, 4) { let mut p: Vec<Face> = (0..n).map(|i| vec![i]).collect(); if r.bool() { r.shuffle(&mut p); } if r.bool() { p.extend(v); v = p; } else { let mid = r.below(v.len()); let tail = v.split_off(mid); v.extend(p); v.extend(tail); } }
    if r.chance(1, 3) { let i = r.below(v.len()); let mut f = v[i].clone(); r.shuffle(&mut f); v.push(f); }
    (v, n)
}
fn start(ctx: &mut Ctx, n: usize, names: &[usize], h: &mut Vec<Face>) -> Result<(SimplicialCplx<String>, &'static str), Violation> {
    Ok(match ctx.rng.below(4) {
        0 => (must("new_from_zero_skeleton", || SimplicialCplx::new_from_zero_skeleton((0..n).map(|i| label(names[i])).collect()))?, "zero skeleton"),
        1 => { let f = h.remove(0); let s = simplex_of(&f, names); h.insert(0, f); (must("new_from", || SimplicialCplx::new_from(s))?, "first simplex") }
        _ => (SimplicialCplx::new(), "empty"),
    })
}
fn back(s: &Simplex<String>, inv: &BTreeMap<String, usize>) -> Option<Face> { let mut f: Face = s.vertices_labels.iter().map(|l| inv.get(l).copied()).collect::<Option<_>>()?; f.sort(); if s.dim + 1 != f.len() { return None; } Some(f) }
fn connected(n: usize, cl: &[BTreeSet<Face>]) -> bool {
    let vs: Vec<usize> = cl[0].iter().map(|f| f[0]).collect(); let _ = n;
    let mut seen = BTreeSet::from([vs[0]]); let mut st = vec![vs[0]];
    while let Some(x) = st.pop() { if cl.len() > 1 { for e in &cl[1] { if e.contains(&x) { for &y in e { if seen.insert(y) { st.push(y); } } } } } }
    seen.len() == vs.len()
}
pub fn c03(ctx: &mut Ctx) -> Res {
    let (mut h, n) = gen_history(ctx);
    let names = ctx.rng.perm(n);
    let (mut c, st) = start(ctx, n, &names, &mut h)?;
    let nontriv = h.iter().any(|f| f.len() > 1);
    ctx.input(format!("{} vertices, start {}, attach {:?}", n, st, h), nontriv);
    for f in &h { must("attach", || c.attach(simplex_of(f, &names)))?; }
    let mut all = h.clone(); if st == "zero skeleton" { all.extend((0..n).map(|i| vec![i])); }
    let cl = closure(&all); let inv: BTreeMap<String, usize> = (0..n).map(|i| (label(names[i]), i)).collect();
    let bm = must("boundary map", || c.boundary_map())?;
    check!(bm.len() == cl.len(), "boundary:dims", "{} boundary maps, the complex has dimension {}", bm.len(), cl.len() - 1);
    let mut prev: Vec<Face> = vec![]; let mut prevm: Option<RM> = None;
    for (k, (m, basis)) in bm.iter().enumerate() {
        let b: Option<Vec<Face>> = basis.iter().map(|s| back(s, &inv)).collect();
        let Some(b) = b else { return fail("boundary:cells", format!("cells {:?}", basis)) };
        let set: BTreeSet<Face> = b.iter().cloned().collect();
        check!(set.len() == b.len() && set == cl[k], "boundary:basis", "{}-cells are {:?}, expected {:?}", k, b, cl[k]);
        let a = from_mat(m);
        check!(a.m == b.len(), "boundary:shape", "map {} has {} columns for {} cells", k, a.m, b.len());
        if k == 0 { check!(a.is_zero(), "boundary:zero", "the boundary of vertices is {}", a.show()); }
        else {
            check!(a.n == prev.len(), "boundary:shape", "map {} has {} rows for {} cells", k, a.n, prev.len());
            for (j, f) in b.iter().enumerate() {
                for (i, g) in prev.iter().enumerate() {
                    let face = g.iter().all(|x| f.contains(x));
                    check!(if face { a.a[i][j].abs() == 1 } else { a.a[i][j] == 0 }, "boundary:incidence", "coefficient of {:?} in the boundary of {:?} is {}", g, f, a.a[i][j]);
                    if face { ctx.see("incidences checked"); }
                }
                if k == 1 { check!((0..a.n).map(|i| a.a[i][j]).sum::<i128>() == 0, "boundary:edge", "the boundary of edge {:?} is not a difference", f); }
            }
            if let Some(p) = &prevm { check!(p.mul(&a).is_zero(), "boundary:square", "the boundary of the boundary of {}-cells is not zero", k); ctx.see("squares checked"); }
        }
        prev = b; prevm = Some(a);
    }
    if n > 64 { ctx.see("complexes beyond one word"); } if n > 128 { ctx.see("complexes beyond two words"); }
    Ok(())
}
pub fn c04(ctx: &mut Ctx) -> Res {
    let (mut h, n) = gen_history(ctx);
    let names = ctx.rng.perm(n);
    let (mut c, st) = start(ctx, n, &names, &mut h)?;
    let nontriv = h.iter().any(|f| f.len() > 1);
    ctx.input(format!("{} vertices, start {}, attach {:?}", n, st, h), nontriv);
    let mut all: Vec<Face> = if st == "zero skeleton" { (0..n).map(|i| vec![i]).collect() } else if st == "first simplex" { vec![h[0].clone()] } else { vec![] };
    let every = ctx.rng.size(1, 4);
    for (t, f) in h.iter().enumerate() {
        must("attach", || c.attach(simplex_of(f, &names)))?; all.push(f.clone());
        if f.len() == 1 && t + 1 < h.len() || (t % every != 0 && t + 1 < h.len()) { continue; }
        let cl = closure(&all);
        let d = must("dim", || c.dim())?;
        check!(d == cl.len() - 1, "complex:dim", "dim {} expected {} after {} simplices", d, cl.len() - 1, t + 1);
        check!(c.n_vertices() == cl[0].len(), "complex:vertices", "{} vertices, expected {}", c.n_vertices(), cl[0].len());
        let z: BTreeSet<&String> = c.get_labeled_zero_skeleton().iter().collect();
        check!(z.len() == cl[0].len() && c.get_labeled_zero_skeleton().len() == z.len() && cl[0].iter().all(|f| z.contains(&label(names[f[0]]))), "complex:labels", "vertex labels {:?}", z);
        let con = must("is_connected", || c.is_connected())?;
        check!(con == connected(n, &cl), "complex:connected", "is_connected = {} after {} simplices", con, t + 1);
        ctx.see(if con { "connected complexes" } else { "disconnected complexes" });
        // inclusion-exclusion over maximal simplices is exponential: only ask when few of them meet
        let mx: Vec<&Face> = { let mut fs: Vec<&Face> = cl.iter().flatten().collect(); fs.retain(|f| !cl.get(f.len()).map_or(false, |s| s.iter().any(|g| f.iter().all(|x| g.contains(x))))); fs };
        let deep = cl[0].iter().map(|v| mx.iter().filter(|f| f.contains(&v[0])).count()).max().unwrap_or(0);
        let cost: u64 = (1..=(deep + 1).min(mx.len()) as u64).map(|i| (0..i).fold(1u64, |a, k| (a * (mx.len() as u64 - k) / (k + 1)).min(1 << 30))).sum();
        if mx.len() <= 11 || (cost <= 6000 && t + 1 == h.len()) {
            if cl[0].iter().any(|f| f[0] > 64) { ctx.see("cell counts of complexes with more than 64 vertices"); }
            for k in 0..cl.len() + 2 {
                let g = must("n_cells_of_dim", || c.n_cells_of_dim(k))?; let w = cl.get(k).map_or(0, |s| s.len());
                check!(g == w, "complex:count", "{} cells of dimension {}, expected {} after {} simplices", g, k, w, t + 1); ctx.see("cell counts compared");
            }
        }
        if t + 1 == h.len() {
            let inv: BTreeMap<String, usize> = (0..n).map(|i| (label(names[i]), i)).collect();
            for (k, (_, basis)) in must("boundary map", || c.boundary_map())?.iter().enumerate() {
                let b: Option<Vec<Face>> = basis.iter().map(|s| back(s, &inv)).collect();
                let Some(b) = b else { return fail("complex:cells", format!("cells {:?}", basis)) };
                let set: BTreeSet<Face> = b.iter().cloned().collect();
                check!(set.len() == b.len() && set == cl[k], "complex:basis", "{}-cells are {:?}, expected {:?}", k, b, cl[k]);
            }
        }
    }
    if ctx.idx % 16 == 0 {
        use topo_spaces::{simplex, simplicial_cplx};
        let v: Vec<usize> = (0..6).map(|_| ctx.rng.below(7)).collect();
        let (a, b, x, y, z, w) = (v[0], v[0] + 1, v[1], v[1] + 2, v[2], v[3] + 20);
        let c = must("simplicial_cplx!", || simplicial_cplx! { {a, b}, {x, y, w}, {z}, {w, "q"} })?;
        let mut id: Vec<String> = vec![]; let mut f = |l: &[String]| -> Face { let mut f: Face = l.iter().map(|s| match id.iter().position(|t| t == s) { Some(i) => i, None => { id.push(s.clone()); id.len() - 1 } }).collect(); f.sort(); f };
        let s = |k: usize| k.to_string();
        let fs = [f(&[s(a), s(b)]), f(&[s(x), s(y), s(w)]), f(&[s(z)]), f(&[s(w), "q".into()])];
        let cl = closure(&fs);
        for k in 0..4 { check!(c.n_cells_of_dim(k) == cl.get(k).map_or(0, |s| s.len()), "complex:macro", "simplicial_cplx! of {:?}: {} cells of dimension {}", fs, c.n_cells_of_dim(k), k); }
        let t = simplex! { x, y, w };
        check!(t.dim == 2 && t.vertices_labels.iter().cloned().collect::<BTreeSet<_>>() == [s(x), s(y), s(w)].into_iter().collect::<BTreeSet<_>>(), "complex:macro", "simplex! gave {:?}", t);
    }
    // simplices that are in the complex already change nothing
    let cl = closure(&all); let before = must("boundary map", || c.boundary_map())?;
    for _ in 0..3 { let k = ctx.rng.below(cl.len()); let fs: Vec<&Face> = cl[k].iter().collect(); let mut f = (*ctx.rng.pick(&fs)).clone(); ctx.rng.shuffle(&mut f); must("attach", || c.attach(simplex_of(&f, &names)))?; }
    let after = must("boundary map", || c.boundary_map())?;
    check!(before.len() == after.len() && before.iter().zip(&after).all(|(x, y)| x.0 == y.0 && x.1 == y.1), "complex:idempotent", "attaching simplices of the complex again changed it");
    // a simplex that lists a vertex twice, or none, is refused
    if ctx.idx % 8 == 1 {
        let k = ctx.rng.below(cl.len()); let fs: Vec<&Face> = cl[k].iter().collect(); let mut f = (*ctx.rng.pick(&fs)).clone();
        let at = ctx.rng.below(f.len()); let d = f[at]; f.push(d); ctx.rng.shuffle(&mut f);
        check!(guard(|| c.attach(simplex_of(&f, &names))).is_err(), "complex:repeated", "a simplex {:?} with a repeated vertex was accepted", f);
        check!(guard(|| c.attach(simplex_of(&[], &names))).is_err(), "complex:empty", "the empty simplex was accepted");
        let now = must("boundary map", || c.boundary_map())?;
        check!(before.len() == now.len() && before.iter().zip(&now).all(|(x, y)| x.0 == y.0 && x.1 == y.1), "complex:refused", "a refused simplex {:?} changed the complex", f);
        ctx.see("refused simplices");
    }
    // a few large simplices that meet anywhere
    if ctx.rng.chance(1, 6) { few_large(ctx)?; }
    // one simplex with very many vertices
    if ctx.rng.chance(1, 8) {
        let m = ctx.rng.size(20, 62); let s = Simplex::from((0..m).map(label).collect::<Vec<_>>()); let b = must("new_from", || SimplicialCplx::new_from(s))?;
        check!(b.dim() == m - 1 && b.is_connected(), "complex:dim", "simplex with {} vertices", m);
        for k in [0usize, 1, 2, m - 2, m - 1, m] { let w = if k + 1 > m { 0 } else { let y = (k + 1).min(m - k - 1); (1..=y as u128).fold(1u128, |a, i| a * (m as u128 - y as u128 + i) / i) }; let g = must("n_cells_of_dim", || b.n_cells_of_dim(k))?; check!(g as u128 == w, "complex:count", "a simplex with {} vertices has {} cells of dimension {}, expected {}", m, g, k, w); }
        ctx.see("large simplices counted");
        // and one that lists a vertex twice, far from or next to each other
        let len = ctx.rng.size(3, 100); let mut f: Vec<usize> = (0..len).collect(); if ctx.rng.bool() { ctx.rng.shuffle(&mut f); }
        let d = f[ctx.rng.below(len)]; let at = if ctx.rng.bool() { len } else { ctx.rng.below(len) }; f.insert(at, d);
        let lone = ctx.rng.bool(); let mut c = SimplicialCplx::<usize>::new(); let base = if lone { vec![vec![0usize, 1, 2], vec![2, 3]] } else { vec![(0..len.min(60)).collect(), vec![200, 201]] };
        for b in &base { c.attach(Simplex::from(b.clone())); }
        check!(guard(|| c.attach(Simplex::from(f.clone()))).is_err(), "complex:repeated", "a simplex {:?} with a repeated vertex was accepted", f);
        let v: BTreeSet<usize> = base.iter().flatten().copied().collect();
        check!(c.n_vertices() == v.len() && c.get_labeled_zero_skeleton().len() == v.len() && c.dim() == base.iter().map(|b| b.len()).max().unwrap() - 1 && c.is_connected() == lone, "complex:refused", "a refused simplex {:?} changed the complex of {:?}", f, base);
        ctx.see("refused simplices");
    }
    Ok(())
}
fn few_large(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.size(20, 150); let m = ctx.rng.size(1, 5); let k = n.min(45);
    let common: Vec<usize> = { let s = ctx.rng.below(4); let mut p = ctx.rng.perm(n); if ctx.rng.bool() { p = (0..n).rev().collect(); } p[..s].to_vec() };
    let fs: Vec<BTreeSet<usize>> = (0..m).map(|_| { let s = if ctx.rng.bool() { ctx.rng.size(1, 6) } else { ctx.rng.size(1, k) }; let lo = if ctx.rng.bool() { 0 } else { ctx.rng.below(n - s + 1) }; let mut f: BTreeSet<usize> = if lo > 0 { (lo..lo + s).collect() } else { ctx.rng.perm(n)[..s].iter().copied().collect() }; if ctx.rng.chance(2, 3) { f.extend(common.iter().copied()); } f }).collect();
    // the vertices are made first, so that their numbers are known
    let mut c = SimplicialCplx::<usize>::new(); let iso = ctx.rng.bool();
    if iso { for i in 0..n { c.attach(Simplex::from(vec![i])); } }
    for f in &fs { let mut v: Vec<usize> = f.iter().copied().collect(); ctx.rng.shuffle(&mut v); must("attach", || c.attach(Simplex::from(v)))?; }
    let what = format!("{} vertices{}, simplices {:?}", n, if iso { " made first" } else { "" }, fs);
    let mut used: BTreeSet<usize> = fs.iter().flatten().copied().collect(); let touched = used.clone(); if iso { used = (0..n).collect(); }
    check!(c.n_vertices() == used.len(), "complex:vertices", "{} vertices: {}", c.n_vertices(), what);
    let d = fs.iter().map(|f| f.len() - 1).max().unwrap();
    check!(must("dim", || c.dim())? == d, "complex:dim", "dim {}, expected {}: {}", c.dim(), d, what);
    // connected components of the simplices
    let mut comp: Vec<BTreeSet<usize>> = vec![]; for f in &fs { let (mut j, rest): (Vec<_>, Vec<_>) = comp.into_iter().partition(|c| !c.is_disjoint(f)); let mut u = f.clone(); for x in j.drain(..) { u.extend(x); } comp = rest; comp.push(u); }
    let conn = comp.len() + (used.len() - touched.len()) == 1;
    check!(must("is_connected", || c.is_connected())? == conn, "complex:connected", "is_connected = {}: {}", !conn, what);
    let lone = used.len() - touched.len();
    let mx: Vec<&BTreeSet<usize>> = fs.iter().enumerate().filter(|(i, f)| !fs.iter().enumerate().any(|(j, g)| f.is_subset(g) && (*f != g || j < *i))).map(|x| x.1).collect();
    let tot = (mx.len() + lone) as u64; let deep = touched.iter().map(|v| mx.iter().filter(|f| f.contains(v)).count()).max().unwrap();
    if (1..=(deep as u64 + 1).min(tot)).map(|i| (0..i).fold(1u64, |a, k| (a * (tot - k) / (k + 1)).min(1 << 30))).sum::<u64>() > 30000 { return Ok(()); }
    let bin = |x: usize, y: usize| -> i128 { if x < y { 0 } else { (1..=y as i128).fold(1, |a, k| a * (x as i128 - y as i128 + k) / k) } };
    for k in [0, 1, 2, d / 2, d, d + 1] {
        let mut w: i128 = if k == 0 { lone as i128 } else { 0 };
        for mask in 1u32..1 << mx.len() { let mut it = (0..mx.len()).filter(|i| mask >> i & 1 == 1); let s = mx[it.next().unwrap()].clone(); let s = it.fold(s, |a, i| a.intersection(mx[i]).copied().collect()); w += bin(s.len(), k + 1) * if mask.count_ones() % 2 == 1 { 1 } else { -1 }; }
        if k == 1 { let mut e = BTreeSet::new(); for f in &mx { for a in f.iter() { for b in f.iter() { if a < b { e.insert((a, b)); } } } } assert_eq!(e.len() as i128, w); }
        let g = must("n_cells_of_dim", || c.n_cells_of_dim(k))?;
        check!(g as i128 == w, "complex:count", "{} cells of dimension {}, expected {}: {}", g, k, w, what);
        ctx.see("cells of a few large simplices counted");
    }
    Ok(())
}
/// field homology, part of C06
pub fn over_q(ctx: &mut Ctx) -> Res {
    let ch = if ctx.rng.bool() { gen_chain(&mut ctx.rng, ctx.thorough) } else { let (fs, _, _) = gen_faces(&mut ctx.rng, false); chain_of(&closure(&fs)) };
    ctx.input(format!("field homology of {}", ch.show()), ch.maps.iter().any(|m| !m.is_zero()));
    let r: Vec<usize> = ch.maps.iter().map(|m| rank_q(m)).collect();
    let w: Vec<usize> = (0..r.len()).map(|k| ch.maps[k].m - r[k] - r.get(k + 1).unwrap_or(&0)).collect();
    match guard(|| OverQ(ch.clone()).homology()) {
        Ok(g) => { check!(g == w, "field:betti", "Betti numbers {:?} expected {:?} for {}", g, w, ch.show()); ctx.see("field homologies compared"); }
        Err(e) if e.contains("overflow") && ch.maps.iter().any(|m| rational_grows(m, &[])) => { ctx.inconclusive = true; }
        Err(e) => return fail("field:panic", e),
    }
    Ok(())
}
#[allow(dead_code)] fn unused(_: Vector<i64, Ob>) {}
