//! C07 cubical complexes, C08/C09 reduced (Morse) complexes of configuration spaces, C10 subdivision and
//! maximal trees, C11 raw graphs and edge paths.
use crate::check;
use crate::core::*;
use crate::p_simp::*;
use crate::p_snf::{from_mat, grows};
use crate::refmat::*;
use alg::lin_alg::Vector;
use std::collections::{BTreeMap, BTreeSet};
use topo_spaces::cubical::{Cube, CubicalCplx, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, SimpleVertex};
use topo_spaces::{graph, Complex, IntegralHomology};

// ---------------------------------------------------------------- graphs
pub type Edges = Vec<(String, String)>;
fn nm(style: usize, i: usize) -> String { match style { 0 => format!("v{}", i), 1 => i.to_string(), 2 => ["", "a", "b b", "(1/2)(v0, v1)", "é", "v", "V", "0", "v,1", "-"][i % 10].to_string() + &"'".repeat(i / 10), _ => format!("n{}", 97 * i % 101) } }
fn complete(n: usize) -> Vec<(usize, usize)> { (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect() }
/// connected multigraph with loops as pairs of vertex numbers
pub fn gen_conn(rng: &mut Rng, max_e: usize) -> (Vec<(usize, usize)>, &'static str) {
    match rng.below(22) {
        0 => { let n = rng.size(1, 4); ((0..n).map(|i| (i, i + 1)).collect(), "path") }
        1 => { let n = rng.size(3, 5); ((0..n).map(|i| (0, i + 1)).collect(), "star") }
        2 => { let n = rng.size(1, 5); ((0..n).map(|i| (i, (i + 1) % n)).collect(), "cycle") }
        3 => { let n = rng.size(2, 4); ((0..n).map(|_| (0, 1)).collect(), "theta") }
        4 => { let n = rng.size(1, 3); ((0..n).map(|_| (0, 0)).collect(), "bouquet") }
        5 => (vec![(0, 1), (1, 1)], "lollipop"),
        6 => (vec![(0, 0), (0, 1), (1, 1)], "dumbbell"),
        7 => (complete(4), "K4"),
        8 => (complete(if max_e >= 10 { 5 } else { 4 }), "complete"),
        9 if max_e >= 9 => ((0..9).map(|i| (i / 3, 3 + i % 3)).collect(), "K33"),
        10 => (vec![(0, 1), (0, 2), (0, 3), (3, 4), (3, 5)], "H tree"),
        11 => { let k = rng.size(2, 3); ((0..k).flat_map(|i| vec![(i, i + 1), (i, i + 1)]).collect(), "necklace") }
        12 => { let n = rng.size(2, 4); ((0..n).flat_map(|i| vec![(i, (i + 1) % n), (i, n)]).collect(), "wheel") }
        13 => { let k = rng.size(2, 3); ((0..k).flat_map(|i| vec![(0, 2 * i + 1), (2 * i + 1, 2 * i + 2), (2 * i + 2, 0)]).collect(), "triangles at a point") }
        14 => { let n = rng.size(2, 6); ((1..n).map(|i| (rng.below(i), i)).collect(), "tree") }
        _ => {
            let n = rng.size(1, 5); let mut e: Vec<(usize, usize)> = (1..n).map(|i| (rng.below(i), i)).collect();
            let extra = rng.size(if n == 1 { 1 } else { 0 }, max_e.saturating_sub(e.len()).min(5).max(1));
            for _ in 0..extra { let a = rng.below(n); let b = if rng.chance(1, 5) { a } else { rng.below(n) }; e.push((a, b)); }
            (e, "random")
        }
    }
}
const LARGE: usize = usize::MAX;
fn gen_large(rng: &mut Rng) -> (Vec<(usize, usize)>, &'static str) {
    match rng.below(12) {
        0 => (complete(5), "K5"),
        1 => (complete(6), "K6"),
        2 => ((0..9).map(|i| (i / 3, 3 + i % 3)).collect(), "K33"),
        3 => ((0..5).flat_map(|i| vec![(i, (i + 1) % 5), (i, i + 5), (i + 5, (i + 2) % 5 + 5)]).collect(), "Petersen graph"),
        4 => ((0..8usize).flat_map(|v| (0..3).filter(move |b| v & (1 << b) == 0).map(move |b| (v, v | 1 << b))).collect(), "cube graph"),
        5 => { let n = rng.size(8, 70); ((0..n).map(|i| (0, i + 1)).collect(), "large star") }
        6 => { let n = rng.size(6, 70); ((0..n).map(|i| (0, (i % 3 != 0) as usize)).chain([(0, 1)]).collect(), "many parallel edges and loops") }
        7 => { let n = rng.size(10, 80); ((1..n).map(|i| (rng.below(i), i)).collect(), "large tree") }
        // everything that branches is far from the end
        10 | 11 => { let l = rng.size(2, 20); let (e, _) = gen_conn(rng, 10); ((0..l).map(|i| (i, i + 1)).chain(e.into_iter().map(|(a, b)| (a + l, b + l))).collect(), "graph on a long handle") }
        8 => { let n = rng.size(10, 80); ((0..n).map(|i| (i, (i + 1) % n)).collect(), "large cycle") }
        _ => { let n = rng.size(6, 30); let mut e: Vec<(usize, usize)> = (1..n).map(|i| (rng.below(i), i)).collect(); for _ in 0..rng.size(1, 25) { let a = rng.below(n); let b = if rng.chance(1, 8) { a } else { rng.below(n) }; e.push((a, b)); } (e, "large random") }
    }
}
pub fn gen_graph(rng: &mut Rng, max_e: usize) -> (Edges, Vec<(usize, usize)>, &'static str) {
    let (mut e, kind) = if max_e == LARGE { gen_large(rng) } else { gen_conn(rng, max_e) };
    let n = e.iter().map(|&(a, b)| a.max(b) + 1).max().unwrap();
    let p = rng.perm(n); let style = rng.below(4);
    if rng.chance(3, 4) { rng.shuffle(&mut e); }
    for x in e.iter_mut() { if rng.bool() { *x = (x.1, x.0); } }
    let names: Vec<String> = (0..n).map(|i| nm(style, p[i])).collect();
    (e.iter().map(|&(a, b)| (names[a].clone(), names[b].clone())).collect(), e, kind)
}
fn show_edges(e: &Edges) -> String { e.iter().map(|(a, b)| format!("[{:?},{:?}]", a, b)).collect::<Vec<_>>().join(" ") }

// ---------------------------------------------------------------- reference cells
/// a closed cell of the graph: Ok(v) or Err([a,b]) with a<b
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum F { V(usize), E(usize, usize) }
use F::*;
impl F {
    fn lo(self) -> usize { match self { V(x) => x, E(a, _) => a } }
    fn hi(self) -> usize { match self { V(x) => x, E(_, b) => b } }
    fn is_e(self) -> bool { matches!(self, E(..)) }
    fn cf(self) -> CubeFactor { match self { V(x) => CubeFactor::Vertex(x), E(a, b) => CubeFactor::Edge([a, b]) } }
}
fn unf(f: CubeFactor) -> F { match f { CubeFactor::Vertex(x) => V(x), CubeFactor::Edge([a, b]) => E(a, b) } }
pub type Cell = Vec<F>; // sorted by smallest vertex
fn norm(mut c: Cell) -> Cell { c.sort_by_key(|f| f.lo()); c }
fn cell_of(c: &Cube) -> Cell { norm(c.iter().map(|&f| unf(f)).collect()) }
fn cube_of(c: &Cell) -> Cube { Cube::from(c.iter().map(|f| f.cf()).collect::<Vec<_>>()) }
pub struct Sg { pub n: usize, pub adj: Vec<Vec<bool>>, pub edges: Vec<(usize, usize)> }
pub fn read_graph(g: &RawSimpleGraph) -> Sg {
    let n = g.n_vertices(); let mut adj = vec![vec![false; n]; n]; let mut edges = vec![];
    for j in 1..n { for i in 0..j { if g.contains(i, j) { adj[i][j] = true; adj[j][i] = true; edges.push((i, j)); } } }
    Sg { n, adj, edges }
}
impl Sg {
    /// parent of v in the depth-first tree: the largest smaller neighbour
    pub fn parent(&self, v: usize) -> Option<usize> { (0..v).rev().find(|&i| self.adj[i][v]) }
    pub fn tree(&self, e: (usize, usize)) -> bool { self.parent(e.1) == Some(e.0) }
}
/// all sets of k disjoint vertices and closed edges; None when there are more than `limit`
pub fn all_cells(g: &Sg, k: usize, limit: usize) -> Option<Vec<BTreeSet<Cell>>> {
    let mut fs: Vec<F> = (0..g.n).map(V).collect(); fs.extend(g.edges.iter().map(|&(a, b)| E(a, b)));
    fs.sort_by_key(|f| f.lo());
    let mut out = vec![BTreeSet::new(); k + 1];
    let mut used = vec![false; g.n]; let mut cur = vec![]; let mut cnt = 0;
    fn go(fs: &[F], s: usize, k: usize, used: &mut Vec<bool>, cur: &mut Cell, out: &mut Vec<BTreeSet<Cell>>, cnt: &mut usize, limit: usize) -> bool {
        if cur.len() == k { *cnt += 1; let d = cur.iter().filter(|f| f.is_e()).count(); out[d].insert(cur.clone()); return *cnt <= limit; }
        for i in s..fs.len() {
            let f = fs[i]; if used[f.lo()] || used[f.hi()] { continue; }
            // every further cell needs a free vertex that is not below
            if used[f.lo()..].iter().filter(|u| !**u).count() < k - cur.len() { return true; }
            used[f.lo()] = true; used[f.hi()] = true; cur.push(f);
            let ok = go(fs, i + 1, k, used, cur, out, cnt, limit);
            cur.pop(); used[f.lo()] = false; used[f.hi()] = false;
            if !ok { return false; }
        }
        true
    }
    if !go(&fs, 0, k, &mut used, &mut cur, &mut out, &mut cnt, limit) { return None; }
    while out.len() > 1 && out.last().unwrap().is_empty() { out.pop(); }
    Some(out)
}
/// signed faces of a cell: orientation by the order of the smaller ends
pub fn faces(c: &Cell) -> Vec<(i64, Cell)> {
    let mut s = 1; let mut o = vec![];
    for (i, f) in c.iter().enumerate() { if let E(a, b) = *f { let mut x = c.clone(); x[i] = V(a); let mut y = c.clone(); y[i] = V(b); o.push((s, norm(x))); o.push((-s, norm(y))); s = -s; } }
    o
}
/// invariant factors of a sparse matrix given by columns
pub fn sparse_factors(mut cols: Vec<BTreeMap<usize, i128>>, n_rows: usize) -> Option<Vec<i128>> {
    let mut rows: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n_rows];
    for (j, c) in cols.iter().enumerate() { for &i in c.keys() { rows[i].insert(j); } }
    let mut ones = 0; let mut todo: Vec<usize> = (0..cols.len()).rev().collect();
    while let Some(j) = todo.pop() {
        let Some((&r, &a)) = cols[j].iter().filter(|(_, a)| a.abs() == 1).min_by_key(|(r, _)| rows[**r].len()) else { continue };
        let piv = cols[j].clone();
        let others: Vec<usize> = rows[r].iter().copied().filter(|&x| x != j).collect();
        for x in others {
            let q = cols[x][&r] * a; let had = cols[x].values().any(|v| v.abs() == 1);
            for (&i, &v) in &piv { let e = cols[x].entry(i).or_insert(0); *e = e.checked_sub(q.checked_mul(v)?)?; if e.abs() > 1 << 90 { return None; } if *e == 0 { cols[x].remove(&i); rows[i].remove(&x); } else { rows[i].insert(x); } }
            if !had && cols[x].values().any(|v| v.abs() == 1) { todo.push(x); }
        }
        for &i in piv.keys() { rows[i].remove(&j); }
        // the pivot row is now zero outside column j; column operations clear the rest of column j
        cols[j].clear(); ones += 1;
    }
    let rest: Vec<&BTreeMap<usize, i128>> = cols.iter().filter(|c| !c.is_empty()).collect();
    let ix: BTreeSet<usize> = rest.iter().flat_map(|c| c.keys().copied()).collect();
    let pos: BTreeMap<usize, usize> = ix.iter().enumerate().map(|(k, &i)| (i, k)).collect();
    let mut m = RM::new(pos.len(), rest.len());
    for (j, c) in rest.iter().enumerate() { for (i, v) in c.iter() { m.a[pos[i]][j] = *v; } }
    let mut f = vec![1i128; ones]; f.extend(invariant_factors(&m)?); Some(f)
}
pub fn full_homology(cells: &[BTreeSet<Cell>]) -> Option<Hom> {
    let mut fac: Vec<Vec<i128>> = vec![vec![]];
    for d in 1..cells.len() {
        let ix: BTreeMap<&Cell, usize> = cells[d - 1].iter().enumerate().map(|(i, c)| (c, i)).collect();
        let cols = cells[d].iter().map(|c| { let mut m = BTreeMap::new(); for (s, f) in faces(c) { *m.entry(ix[&f]).or_insert(0) += s as i128; } m }).collect();
        fac.push(sparse_factors(cols, cells[d - 1].len())?);
    }
    Some((0..cells.len()).map(|k| { let hi = fac.get(k + 1).cloned().unwrap_or_default(); (cells[k].len() - fac[k].len() - hi.len(), hi.into_iter().filter(|&x| x > 1).collect()) }).collect())
}
fn trim(h: &Hom) -> Hom { let mut h = h.clone(); while h.last().map_or(false, |x| x.0 == 0 && x.1.is_empty()) { h.pop(); } h }

/// graph, number of points, subdivided graph read through the public interface, all cells
struct Conf { e: Edges, n: usize, g: Graph<i64>, sg: SimpleGraph, r: Sg, cells: Vec<BTreeSet<Cell>> }
fn gen_conf(ctx: &mut Ctx, limit: usize) -> Result<Conf, Violation> {
    let me = if ctx.thorough { 11 } else { 9 };
    let rare = ctx.rng.below(400);
    let (e, _, kind) = gen_graph(&mut ctx.rng, if rare == 0 { LARGE } else { me });
    let limit = if rare < 2 { limit.max(2500) } else { limit };
    let mut n = if rare < 8 { ctx.rng.size(2, 9) } else { *ctx.rng.pick(&[1, 2, 2, 2, 3, 3, 3, 4, 5]) };
    let (mut e, mut kind) = (e, kind);
    // many points on an edge or a circle, which are hardly able to move
    if rare == 9 { let (a, b) = (nm(0, 0), nm(0, 1)); if ctx.rng.bool() { e = vec![(a, b)]; kind = "crowded edge"; } else { e = vec![(a.clone(), a)]; kind = "crowded circle"; } n = ctx.rng.size(6, 40); }
    let g = Graph::<i64>::from(e.clone());
    loop {
        ctx.input(format!("{} {} with {} points", kind, show_edges(&e), n), n > 1);
        let sg = must("subdivide", || SimpleGraph::subdivided_graph_from(&g, n))?;
        let r = read_graph(&sg);
        if let Some(cells) = all_cells(&r, n, limit) { ctx.see(&format!("{} graphs", kind)); ctx.see(&format!("{} points", n)); return Ok(Conf { e, n, g, sg, r, cells }); }
        if n == 1 { ctx.see("too large"); return gen_conf(ctx, limit); }
        n -= 1;
    }
}

/// boundary maps of the cubical complex of a small configuration space, and the same complex made here
pub fn for_laplacians(ctx: &mut Ctx) -> Result<(Vec<alg::lin_alg::Matrix<i64>>, Chain), Violation> {
    let c = loop { let c = gen_conf(ctx, 110)?; if c.cells.iter().all(|s| s.len() <= 110) { break c; } };
    let x = must("udc", || CubicalCplx::udc(&c.g, c.n))?;
    let bm = must("boundary map", || x.boundary_map())?.into_iter().map(|x| x.0).collect();
    let mut maps = vec![RM::new(1, c.cells[0].len())];
    for d in 1..c.cells.len() {
        let ix: BTreeMap<&Cell, usize> = c.cells[d - 1].iter().enumerate().map(|(i, c)| (c, i)).collect();
        let mut m = RM::new(c.cells[d - 1].len(), c.cells[d].len());
        for (j, cell) in c.cells[d].iter().enumerate() { for (s, f) in faces(cell) { m.a[ix[&f]][j] += s as i128; } }
        maps.push(m);
    }
    Ok((bm, Chain { maps }))
}
// ---------------------------------------------------------------- C07
pub fn c07(ctx: &mut Ctx) -> Res {
    let limit = if ctx.thorough { 1500 } else { 500 };
    let c = gen_conf(ctx, limit)?;
    let x = must("udc", || CubicalCplx::udc(&c.g, c.n))?;
    let total: usize = c.cells.iter().map(|s| s.len()).sum();
    check!(x.n_cells() == total, "cubical:count", "{} cells, expected {}", x.n_cells(), total);
    let bm = must("boundary map", || x.boundary_map())?;
    check!(bm.len() == c.cells.len(), "cubical:dim", "{} boundary maps, {} dimensions", bm.len(), c.cells.len());
    let mut prev: Vec<Cell> = vec![]; let mut prevm: Option<RM> = None;
    for (d, (m, basis)) in bm.iter().enumerate() {
        let b: Vec<Cell> = basis.iter().map(cell_of).collect();
        let set: BTreeSet<Cell> = b.iter().cloned().collect();
        check!(set.len() == b.len() && set == c.cells[d], "cubical:cells", "{}-cells {:?}, expected {:?}", d, b, c.cells[d]);
        let a = from_mat(m);
        check!(a.m == b.len(), "cubical:shape", "map {} has {} columns for {} cells", d, a.m, b.len());
        if d == 0 { check!(a.is_zero(), "cubical:zero", "boundary of the 0-cells is not zero"); }
        else {
            check!(a.n == prev.len(), "cubical:shape", "map {} has {} rows for {} cells", d, a.n, prev.len());
            let ix: BTreeMap<&Cell, usize> = prev.iter().enumerate().map(|(i, c)| (c, i)).collect();
            for (j, cell) in b.iter().enumerate() {
                let fs = faces(cell); let mut col = BTreeMap::new();
                for i in 0..a.n { if a.a[i][j] != 0 { col.insert(i, a.a[i][j]); } }
                check!(col.len() == fs.len(), "cubical:faces", "boundary of {:?} has {} terms, expected {}", cell, col.len(), fs.len());
                for p in fs.chunks(2) {
                    let (u, v) = (col.get(&ix[&p[0].1]).copied().unwrap_or(0), col.get(&ix[&p[1].1]).copied().unwrap_or(0));
                    check!(u.abs() == 1 && u + v == 0, "cubical:opposite", "opposite faces {:?} and {:?} of {:?} have coefficients {} and {}", p[0].1, p[1].1, cell, u, v);
                    ctx.see("opposite face pairs checked");
                }
            }
            if let Some(p) = &prevm { check!(p.mul(&a).is_zero(), "cubical:square", "boundary of boundary in dimension {}", d); ctx.see("squares checked"); }
        }
        prev = b; prevm = Some(a);
    }
    ctx.see_n("cells checked", total as u64);
    // the printed complex lists each cell under its dimension
    let s = must("print", || x.to_string())?;
    let listed = read_listing(&s);
    check!(listed.as_ref() == Some(&c.cells.iter().map(|s| s.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()), "cubical:print", "printed cells {:?}", s);
    if total <= 120 {
        let Some(h) = full_homology(&c.cells) else { ctx.inconclusive = true; return Ok(()) };
        match guard(|| IntegralHomology::new(&x, None).to_string()) {
            Ok(s) => { printed("cubical", &s, &h, None)?; ctx.see("homology of full complexes compared"); }
            Err(e) if e.contains("overflow") && grows(&must("boundary map", || x.boundary_map())?.iter().map(|(m, _)| from_mat(m)).collect::<Vec<_>>()) => ctx.inconclusive = true,
            Err(e) => return fail("cubical:homology", e),
        }
    }
    Ok(())
}
/// "k-cells: ...\n\t{[0 1], 2, }, " -> sorted cells by dimension
fn read_listing(s: &str) -> Option<Vec<Vec<Cell>>> {
    let mut out: Vec<Vec<Cell>> = vec![];
    for l in s.lines() {
        if let Some(t) = l.strip_prefix("\t{") {
            let t = &t[..t.find('}')?]; let mut c = vec![];
            for f in t.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()) {
                if let Some(e) = f.strip_prefix('[') { let mut it = e.strip_suffix(']')?.split(' '); c.push(E(it.next()?.parse().ok()?, it.next()?.parse().ok()?)); } else { c.push(V(f.parse().ok()?)); }
            }
            out.last_mut()?.push(norm(c));
        } else { let d: usize = l.split("-cells").next()?.parse().ok()?; if d != out.len() { return None; } out.push(vec![]); }
    }
    for v in out.iter_mut() { v.sort(); }
    Some(out)
}

// ---------------------------------------------------------------- C08
pub fn c08(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 40) { return c08_large(ctx); }
    let limit = if ctx.thorough { 12000 } else { 2500 };
    let c = gen_conf(ctx, limit)?;
    let Some(h) = full_homology(&c.cells) else { ctx.inconclusive = true; return Ok(()) };
    let h = trim(&h);
    let bound = if ctx.rng.bool() { None } else { Some(ctx.rng.below(c.n + 2)) };
    ctx.input(format!("{}, upper dimension {:?}", ctx.input, bound), c.n > 1);
    let x = must("morse", || UdnMorseCplx::new(&c.g, c.n, bound))?;
    let bm = must("morse boundary map", || x.boundary_map())?;
    let ch = Chain { maps: bm.iter().map(|(m, _)| from_mat(m)).collect() };
    let Some(mut got) = ch.homology() else { ctx.inconclusive = true; return Ok(()) };
    let mut want = h.clone();
    if let Some(b) = bound { got.truncate(b); want.truncate(b); }
    check!(trim(&got) == trim(&want), "morse:homology", "reduced complex has homology {:?}, the full complex {:?} (cells {:?}, reduced {:?})", got, want, c.cells.iter().map(|s| s.len()).collect::<Vec<_>>(), ch.dims());
    ctx.see("homologies compared"); ctx.see_n("full cells", c.cells.iter().map(|s| s.len() as u64).sum()); ctx.see_n("reduced cells", ch.dims().iter().map(|&x| x as u64).sum());
    if want.iter().any(|x| !x.1.is_empty()) { ctx.see("spaces with torsion"); }
    if ch.dims().len() > 2 { ctx.see("reduced complexes of dimension two or more"); }
    // end to end, through the homology computation of the library
    let md = bound.map(|b| b.saturating_sub(1));
    if bound == Some(0) { return Ok(()); }
    match guard(|| IntegralHomology::new(&x, md).to_string()) {
        Ok(s) => printed("morse", &s, &want, md)?,
        Err(e) if e.contains("overflow") && grows(&ch.maps) => ctx.inconclusive = true,
        Err(e) => return fail("morse:panic", e),
    }
    Ok(())
}

/// configurations too large to enumerate: Euler characteristic by Gal's formula, connectedness, first homology of 3-connected graphs
fn c08_large(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let tree = |r: &mut Rng, n: usize| -> Vec<(usize, usize)> { (1..n).map(|i| (r.below(i), i)).collect() };
    // edges, points, first homology of the 3-connected ones: (rank, has Z_2)
    let (mut e, n, kind, h1, bound): (Vec<(usize, usize)>, usize, &str, Option<(usize, bool)>, Option<usize>) = match r.below(12) {
        0 => { let k = r.size(3, 8); ((0..k).map(|i| (0, i + 1)).collect(), r.size(4, if k > 5 { 6 } else if k > 4 { 8 } else { 14 }), "star", None, None) }
        1 => { let k = r.size(5, 9); (tree(r, k), r.size(4, 8), "tree", None, None) }
        2 => { let k = r.size(8, 40); (tree(r, k), r.size(2, 3), "tree", None, None) }
        3 => { let k = r.size(1, 6); ((0..k).map(|i| (i, (i + 1) % k)).collect(), r.size(5, 16), "cycle", None, None) }
        4 => (complete(4), r.size(4, 8), "K4", Some((4, false)), None),
        5 => { let k = r.size(3, 6); ((0..k).map(|_| (0, 1)).collect(), r.size(4, if k > 4 { 6 } else { 9 }), "theta", None, None) }
        6 => (complete(5), r.size(2, 5), "K5", Some((6, true)), Some(2)),
        7 => ((0..9).map(|i| (i / 3, 3 + i % 3)).collect(), r.size(2, 5), "K33", Some((4, true)), Some(2)),
        8 => { let k = r.size(3, 6); ((0..k).flat_map(|i| vec![(i, (i + 1) % k), (i, k)]).collect(), r.size(2, if k > 4 { 4 } else { 6 }), "wheel", Some((k + 1, false)), Some(2)) }
        9 => ((0..5).flat_map(|i| vec![(i, (i + 1) % 5), (i, i + 5), (i + 5, (i + 2) % 5 + 5)]).collect(), r.size(2, 4), "Petersen graph", Some((6, true)), Some(2)),
        10 => { let k = r.size(2, 6); (if r.bool() { (0..k).map(|_| (0, 0)).collect() } else { (0..k).flat_map(|i| vec![(i, i + 1), (i + 1, i + 1)]).collect() }, r.size(3, if k > 3 { 5 } else { 8 }), "loops", None, None) }
        _ => { let k = r.size(3, 6); let mut e = tree(r, k); for _ in 0..r.size(1, 3) { let (a, b) = (r.below(k), r.below(k)); e.push((a, b)); } (e, r.size(4, 6), "random", None, None) }
    };
    r.shuffle(&mut e);
    let nv = e.iter().map(|&(a, b)| a.max(b) + 1).max().unwrap();
    let p = r.perm(nv); let style = r.below(4);
    let names: Edges = e.iter().map(|&(a, b)| { let (a, b) = if r.bool() { (a, b) } else { (b, a) }; (nm(style, p[a]), nm(style, p[b])) }).collect();
    ctx.input(format!("large {} {} with {} points, upper dimension {:?}", kind, show_edges(&names), n, bound), true);
    let x = must("morse", || UdnMorseCplx::new(&Graph::<i64>::from(names), n, bound))?;
    let bm = must("morse boundary map", || x.boundary_map())?;
    let maps: Vec<RM> = bm.iter().map(|(m, _)| from_mat(m)).collect();
    for d in 1..maps.len() { check!(maps[d - 1].mul(&maps[d]).is_zero(), "morse:square", "boundary of boundary in dimension {}", d); }
    let dims: Vec<i64> = maps.iter().map(|m| m.m as i64).collect();
    if bound.is_none() {
        let mut c = vec![0i64; n + 1]; c[0] = 1;
        for v in 0..nv { let mu = e.iter().map(|&(a, b)| (a == v) as i64 + (b == v) as i64).sum::<i64>(); for k in (1..=n).rev() { c[k] += (1 - mu) * c[k - 1]; } }
        for _ in &e { for k in 1..=n { c[k] += c[k - 1]; } }
        let got: i64 = dims.iter().enumerate().map(|(i, d)| if i % 2 == 0 { *d } else { -*d }).sum();
        check!(got == c[n], "morse:euler", "{:?} critical cells: Euler characteristic {}, expected {}", dims, got, c[n]); ctx.see("Euler characteristics compared");
    }
    check!(dims[0] as usize - maps.get(1).map_or(0, rank_q) == 1, "morse:connected", "the reduced complex is not connected: {:?} critical cells", dims);
    if kind == "star" || kind == "tree" { check!(maps.iter().all(|m| m.is_zero()), "morse:tree", "nonzero boundary over a tree"); }
    if let Some((rank, two)) = h1 {
        match guard(|| IntegralHomology::new(&x, Some(1)).to_string()) {
            Ok(s) => printed("morse", &s, &vec![(1, vec![]), (rank, if two { vec![2] } else { vec![] })], Some(1))?,
            Err(e) if e.contains("overflow") && grows(&maps[..maps.len().min(3)]) => ctx.inconclusive = true,
            Err(e) => return fail("morse:panic", e),
        }
        ctx.see("first homologies compared with the theorem of Ko and Park");
    }
    ctx.see("large configurations"); ctx.see_n("large configurations: reduced cells", dims.iter().sum::<i64>() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C09
fn fs_critical(g: &Sg, c: &Cell) -> bool {
    let occ: BTreeSet<usize> = c.iter().flat_map(|f| [f.lo(), f.hi()]).collect();
    c.iter().all(|f| match *f {
        V(0) => true,
        V(v) => occ.contains(&g.parent(v).unwrap()),
        E(a, b) => !g.tree((a, b)) || c.iter().any(|x| matches!(x, V(v) if a < *v && *v < b && g.parent(*v) == Some(a))),
    })
}
fn vec_map(v: Vector<i64, Cube>) -> BTreeMap<Cell, i64> { let mut m = BTreeMap::new(); for (k, c) in v.into_iter() { *m.entry(cell_of(&c)).or_insert(0) += k; } m.retain(|_, k| *k != 0); m }
/// single cells of spaces too large to be listed
fn c09_large(ctx: &mut Ctx) -> Res {
    let big = ctx.rng.chance(1, 4);
    let (e, _, kind) = gen_graph(&mut ctx.rng, if big { LARGE } else { 14 });
    let n = ctx.rng.size(3, if big { 5 } else { 7 });
    let g = Graph::<i64>::from(e.clone());
    let sg = must("subdivide", || SimpleGraph::subdivided_graph_from(&g, n))?;
    let raw: &RawSimpleGraph = &sg; let r = read_graph(raw);
    if r.n > 110 || r.n < n { ctx.inconclusive = true; ctx.input(format!("{} {} with {} points", kind, show_edges(&e), n), false); return Ok(()); }
    let mut ks: Vec<Cell> = vec![];
    for _ in 0..6 {
        let me = ctx.rng.below(n + 1);
        let mut used = vec![false; r.n]; let mut k: Cell = vec![];
        let mut es = r.edges.clone(); ctx.rng.shuffle(&mut es);
        for (a, b) in es { if k.len() < me && !used[a] && !used[b] { used[a] = true; used[b] = true; k.push(E(a, b)); } }
        // points near the root or anywhere
        let mut vs = if ctx.rng.chance(1, 3) { (0..r.n).collect() } else { ctx.rng.perm(r.n) }; if ctx.rng.chance(1, 4) { vs.reverse(); }
        for v in vs { if k.len() < n && !used[v] { used[v] = true; k.push(V(v)); } }
        if k.len() == n { ks.push(norm(k)); }
    }
    ctx.input(format!("{} {} with {} points, cells {:?}", kind, show_edges(&e), n, ks), !ks.is_empty());
    for k in &ks {
        let d = k.iter().filter(|f| f.is_e()).count();
        let bd = vec_map(must("get_boundary", || cube_of(k).get_boundary())?);
        let fc = faces(k);
        check!(bd.len() == fc.len() && fc.chunks(2).all(|p| { let (u, v) = (bd.get(&p[0].1).copied().unwrap_or(0), bd.get(&p[1].1).copied().unwrap_or(0)); u.abs() == 1 && u + v == 0 }), "cube:boundary", "boundary of {:?} is {:?}", k, bd);
        let fl = vec_map(must("flow", || cube_of(k).flow(raw))?);
        if fs_critical(&r, k) { check!(fl == BTreeMap::from([(k.clone(), 1)]), "flow:critical", "critical cell {:?} flows to {:?}", k, fl); ctx.see("flows of critical cells"); }
        check!(fl.len() < 200, "flow:size", "{:?} flows to {} cells", k, fl.len());
        for q in fl.keys() { check!(q.len() == n && q.iter().filter(|f| f.is_e()).count() == d && fs_critical(&r, q), "flow:cells", "{:?} flows to {:?}, which is not a critical cell of the same dimension", k, q); }
        let mut a: BTreeMap<Cell, i64> = BTreeMap::new(); let mut b = a.clone();
        for (f, s) in &bd { for (q, v) in vec_map(must("flow", || cube_of(f).flow(raw))?) { *a.entry(q).or_insert(0) += s * v; } }
        for (c, w) in &fl { for (f, s) in vec_map(must("get_boundary", || cube_of(c).get_boundary())?) { for (q, v) in vec_map(must("flow", || cube_of(&f).flow(raw))?) { *b.entry(q).or_insert(0) += w * s * v; } } }
        a.retain(|_, v| *v != 0); b.retain(|_, v| *v != 0);
        check!(a == b, "flow:chain-map", "boundary of {:?} flows to {:?}, its flow {:?} has boundary {:?}", k, a, fl, b);
        ctx.see("cells of large spaces"); if d >= 3 { ctx.see("cells of dimension at least 3 of large spaces"); } if !fl.is_empty() && !fs_critical(&r, k) { ctx.see("cells flowing to others"); }
    }
    Ok(())
}
pub fn c09(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 12) { return c09_large(ctx); }
    let limit = if ctx.thorough { 4000 } else { 800 };
    let c = gen_conf(ctx, limit)?;
    let bound = if ctx.rng.chance(2, 3) { None } else { Some(ctx.rng.below(c.n + 1)) };
    ctx.input(format!("{}, upper dimension {:?}", ctx.input, bound), c.n > 1);
    let x = must("morse", || UdnMorseCplx::new(&c.g, c.n, bound))?;
    let raw: &RawSimpleGraph = &x.factor_pool;
    let mut eu = 0i64; let mut euf = 0i64;
    for (d, cs) in c.cells.iter().enumerate() { euf += if d % 2 == 0 { cs.len() as i64 } else { -(cs.len() as i64) }; }
    let mut red: Vec<Vec<Cell>> = vec![];
    for d in 0..=c.n + 1 {
        let got: Vec<Cell> = must("cells", || x.get_cells_of_dim(d))?.iter().map(cell_of).collect();
        let want: BTreeSet<Cell> = if bound.map_or(true, |b| d <= b) { c.cells.get(d).map(|s| s.iter().filter(|k| fs_critical(&c.r, k)).cloned().collect()).unwrap_or_default() } else { BTreeSet::new() };
        let set: BTreeSet<Cell> = got.iter().cloned().collect();
        check!(set.len() == got.len(), "critical:repeated", "a {}-cell is listed twice: {:?}", d, got);
        if let Some(k) = want.difference(&set).next() { return fail("critical:missing", format!("critical {}-cell {:?} is not in the reduced complex {:?}", d, k, got)); }
        if let Some(k) = set.difference(&want).next() { return fail("critical:extra", format!("{}-cell {:?} of the reduced complex is not critical; critical cells are {:?}", d, k, want)); }
        ctx.see_n("critical cells checked", got.len() as u64);
        eu += if d % 2 == 0 { got.len() as i64 } else { -(got.len() as i64) };
        red.push(got);
    }
    if bound.map_or(true, |b| b >= c.n) { check!(eu == euf, "critical:euler", "alternating sum of reduced cells {} and of all cells {}", eu, euf); }
    let s = must("print", || x.to_string())?;
    let mut w = red.clone(); for v in w.iter_mut() { v.sort(); }
    let heads: Vec<String> = s.lines().filter(|l| !l.starts_with('\t')).map(|l| l.to_string()).collect();
    let wh: Vec<String> = (0..heads.len()).map(|d| format!("{}-cells: {} cells in total", d, w.get(d).map_or(0, |v| v.len()))).collect();
    check!(heads == wh, "critical:print", "counts printed {:?}, expected {:?}", heads, wh);
    w.truncate(heads.len());
    check!(red[w.len()..].iter().all(|v| v.is_empty()) && read_listing(&s).as_ref() == Some(&w), "critical:print", "printed cells {:?}, expected {:?}", s, w);
    let bm = must("boundary map", || x.boundary_map())?;
    let maps: Vec<RM> = bm.iter().map(|(m, _)| from_mat(m)).collect();
    for d in 0..maps.len() {
        let b: Vec<Cell> = bm[d].1.iter().map(cell_of).collect();
        let mut s = b.clone(); s.sort(); let mut w = red[d].clone(); w.sort();
        check!(s == w, "critical:basis", "basis {:?} in dimension {}, cells {:?}", b, d, red[d]);
        check!(maps[d].m == b.len() && (d == 0 || maps[d].n == maps[d - 1].m), "critical:shape", "boundary map {} is {}x{}", d, maps[d].n, maps[d].m);
        if d > 0 { check!(maps[d - 1].mul(&maps[d]).is_zero(), "critical:square", "boundary maps {} and {} do not compose to zero: {} * {}", d - 1, d, maps[d - 1].show(), maps[d].show()); ctx.see("squares checked"); }
    }
    check!(red.iter().skip(maps.len()).all(|r| r.is_empty()), "critical:dims", "{} boundary maps", maps.len());
    // the flow of a cell is a chain map onto the reduced complex, and fixes critical cells
    let all: Vec<&Cell> = c.cells.iter().flatten().collect();
    let bas: Vec<BTreeMap<Cell, usize>> = (0..maps.len()).map(|d| bm[d].1.iter().enumerate().map(|(i, k)| (cell_of(k), i)).collect()).collect();
    for _ in 0..12 {
        let k = (*ctx.rng.pick(&all)).clone(); let d = k.iter().filter(|f| f.is_e()).count();
        let bd = vec_map(must("get_boundary", || cube_of(&k).get_boundary())?);
        let fc = faces(&k);
        check!(bd.len() == fc.len() && fc.chunks(2).all(|p| { let (u, v) = (bd.get(&p[0].1).copied().unwrap_or(0), bd.get(&p[1].1).copied().unwrap_or(0)); u.abs() == 1 && u + v == 0 }), "cube:boundary", "boundary of {:?} is {:?}", k, bd);
        let mut sq: BTreeMap<Cell, i64> = BTreeMap::new(); for (q, v) in &bd { for (t, u) in vec_map(must("get_boundary", || cube_of(q).get_boundary())?) { *sq.entry(t).or_insert(0) += v * u; } }
        check!(sq.values().all(|v| *v == 0), "cube:square", "boundary of the boundary of {:?} is {:?}", k, sq);
        let ps = cube_of(&k).to_string(); let wp = format!("{{{}}}", cube_of(&k).iter().map(|f| f.to_string()).collect::<Vec<_>>().join(", "));
        check!(ps == wp, "cube:print", "{:?} printed as {}", k, ps);
        if bound.map_or(false, |b| d > b) { continue; }
        let fl = vec_map(must("flow", || cube_of(&k).flow(raw))?);
        if fs_critical(&c.r, &k) { check!(fl == BTreeMap::from([(k.clone(), 1)]), "flow:critical", "critical cell {:?} flows to {:?}", k, fl); ctx.see("flows of critical cells"); }
        for q in fl.keys() { check!(bas.get(d).map_or(false, |b| b.contains_key(q)), "flow:cells", "{:?} flows to {:?}, which is no cell of the reduced complex", k, q); }
        // boundary then flow
        let mut a: BTreeMap<Cell, i64> = BTreeMap::new();
        for (s, f) in faces(&k) { for (q, v) in vec_map(must("flow", || cube_of(&f).flow(raw))?) { *a.entry(q).or_insert(0) += s * v; } }
        a.retain(|_, v| *v != 0);
        // flow then boundary
        let mut b: BTreeMap<Cell, i64> = BTreeMap::new();
        if d > 0 && d < maps.len() { let names: Vec<Cell> = bm[d - 1].1.iter().map(cell_of).collect(); for (q, v) in &fl { let j = bas[d][q]; for i in 0..maps[d].n { let w = maps[d].a[i][j] as i64; if w != 0 { *b.entry(names[i].clone()).or_insert(0) += v * w; } } } }
        b.retain(|_, v| *v != 0);
        let na: BTreeMap<Cell, i64> = a.iter().map(|(k, v)| (k.clone(), -v)).collect();
        check!(d == 0 || a == b || na == b, "flow:chain-map", "boundary of {:?} flows to {:?}, its flow {:?} has boundary {:?}", k, a, fl, b);
        ctx.see("flows compared with boundaries");
    }
    Ok(())
}

// ---------------------------------------------------------------- C10
fn label_key(v: &SimpleVertex) -> (String, String, usize, String) { match v { SimpleVertex::Essential(s) => (s.clone(), String::new(), 0, "essential".into()), SimpleVertex::Redundant(r) => (r.start.clone(), r.end.clone(), r.direction, r.pos.to_string()) } }
fn ratio(s: &str) -> Option<(i64, i64)> { match s.split_once('/') { Some((a, b)) => Some((a.parse().ok()?, b.parse().ok()?)), None => Some((s.parse().ok()?, 1)) } }
pub fn c10(ctx: &mut Ctx) -> Res {
    let large = ctx.rng.chance(1, 400);
    let (e, _, kind) = gen_graph(&mut ctx.rng, if large { LARGE } else { 11 });
    let n = if ctx.rng.chance(1, 300) { ctx.rng.size(8, 40) } else { ctx.rng.size(0, 7) };
    ctx.input(format!("{} {} with {} points", kind, show_edges(&e), n), e.len() > 1);
    let g = must("graph", || Graph::<i64>::from(e.clone()))?;
    // multiset of edges between unordered pairs of names
    let mut names: Vec<String> = vec![]; for (a, b) in &e { for x in [a, b] { if !names.contains(x) { names.push(x.clone()); } } }
    let mut mult: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (a, b) in &e { let k = if a <= b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) }; *mult.entry(k).or_insert(0) += 1; }
    let loops: usize = mult.iter().filter(|(k, _)| k.0 == k.1).map(|x| *x.1).sum();
    let w = (names.len(), e.len() - loops, mult.keys().filter(|k| k.0 != k.1).count(), loops);
    let got = (g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops());
    check!(got == w, "graph:counts", "vertices, edges, edges up to multiplicity, loops: {:?}, expected {:?}", got, w);
    let g = if let [a, b, c] = &e[..] {
        let g = must("graph!", || graph! { [a.0, a.1], [b.0, b.1], [c.0, c.1] })?;
        let got = (g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops());
        check!(got == w, "graph:counts", "graph!: vertices, edges, edges up to multiplicity, loops: {:?}, expected {:?}", got, w); g
    } else { g };
    let sg = if n == 2 && ctx.rng.bool() { must("subdivide", || SimpleGraph::from(&g))? } else { must("subdivide", || SimpleGraph::subdivided_graph_from(&g, n))? };
    let m = n.max(2); let (mid, lmid) = ((m - 2).max(1), m);
    let r = read_graph(&sg);
    let want_v = names.len() + (e.len() - loops) * mid + loops * lmid;
    check!(r.n == want_v && sg.n_vertices() == want_v && sg.vertices_list().len() == want_v, "subdivision:vertices", "{} vertices and {} labels, expected {}", r.n, sg.vertices_list().len(), want_v);
    check!(sg.n_essential_vertices() == names.len(), "subdivision:essential", "{} essential vertices, expected {}", sg.n_essential_vertices(), names.len());
    // labels: each original vertex once, each edge a chain of named vertices in order
    let mut ess: BTreeMap<String, usize> = BTreeMap::new(); let mut chains: BTreeMap<(String, String, usize), Vec<((i64, i64), usize)>> = BTreeMap::new();
    for (i, v) in sg.vertices_list().iter().enumerate() {
        check!(sg[i] == *v, "subdivision:index", "vertex {} is {} by index and {} in the list", i, sg[i], v);
        match v {
            SimpleVertex::Essential(s) => { if ess.insert(s.clone(), i).is_some() { return fail("subdivision:labels", format!("vertex {:?} occurs twice", s)); } }
            SimpleVertex::Redundant(q) => { let Some(p) = ratio(&q.pos.to_string()) else { return fail("subdivision:labels", format!("position {}", q.pos)) }; chains.entry((q.start.clone(), q.end.clone(), q.direction)).or_default().push((p, i)); }
        }
        let s = v.to_string();
        let ws = match v { SimpleVertex::Essential(s) => s.clone(), SimpleVertex::Redundant(q) => format!("({})({}, {}){}", q.pos, q.start, q.end, if q.direction == 0 { String::new() } else { q.direction.to_string() }) };
        check!(s == ws, "subdivision:print", "vertex printed as {:?}, expected {:?}", s, ws);
    }
    check!(ess.keys().cloned().collect::<BTreeSet<_>>() == names.iter().cloned().collect(), "subdivision:labels", "original vertices {:?}", ess);
    let mut want: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut dirs: BTreeMap<(String, String), BTreeSet<usize>> = BTreeMap::new();
    for ((a, b, d), c) in chains.iter_mut() {
        let k = if a <= b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
        check!(mult.contains_key(&k), "subdivision:labels", "vertices on an edge {:?} that is not in the graph", k);
        dirs.entry(k).or_default().insert(*d);
        c.sort_by(|x, y| (x.0 .0 * y.0 .1).cmp(&(y.0 .0 * x.0 .1)));
        let len = if a == b { lmid } else { mid };
        check!(c.len() == len, "subdivision:length", "edge {:?} has {} inner vertices, expected {}", (&*a, &*b, d), c.len(), len);
        check!(c.iter().all(|x| x.0 .1 > 0 && x.0 .0 > 0 && x.0 .0 < x.0 .1) && c.windows(2).all(|x| x[0].0 .0 * x[1].0 .1 < x[1].0 .0 * x[0].0 .1), "subdivision:positions", "positions along {:?} are {:?}", (&*a, &*b, d), c.iter().map(|x| x.0).collect::<Vec<_>>());
        let mut path = vec![ess[a]]; path.extend(c.iter().map(|x| x.1)); path.push(ess[b]);
        for x in path.windows(2) { want.insert((x[0].min(x[1]), x[0].max(x[1]))); }
        let even = c.iter().enumerate().all(|(l, x)| x.0 .0 * (len as i64 + 1) == x.0 .1 * (l as i64 + 1));
        check!(even, "subdivision:even", "positions along {:?} are {:?}", (&*a, &*b, d), c.iter().map(|x| x.0).collect::<Vec<_>>());
        ctx.see("subdivided edges checked");
    }
    for (k, c) in &mult { let d = dirs.get(k).map_or(vec![], |s| s.iter().copied().collect()); check!(d == (0..*c).collect::<Vec<_>>(), "subdivision:multiplicity", "edge {:?} has multiplicity {}, labelled {:?}", k, c, d); }
    let have: BTreeSet<(usize, usize)> = r.edges.iter().copied().collect();
    check!(have == want, "subdivision:edges", "edges {:?} between the labelled vertices, expected {:?}", have, want);
    check!(sg.n_edges() == want.len(), "subdivision:edges", "n_edges = {}, expected {}", sg.n_edges(), want.len());
    for (s, &i) in &ess { let d: usize = e.iter().map(|(a, b)| (a == s) as usize + (b == s) as usize).sum(); check!(sg.degree_of(i) == d, "subdivision:degree", "vertex {:?} has degree {}, expected {}", s, sg.degree_of(i), d); }
    // the numbering is a depth-first preorder whose tree consists of the edges to the largest smaller neighbour
    check!(sg.is_maximal_tree_chosen, "tree:chosen", "no maximal tree chosen");
    let par: Vec<Option<usize>> = (0..r.n).map(|v| r.parent(v)).collect();
    let mut td = vec![0; r.n];
    for v in 1..r.n {
        let Some(p) = par[v] else { return fail("tree:root", format!("vertex {} has no smaller neighbour", v)) };
        td[v] += 1; td[p] += 1;
        // preorder: the parent of v is v-1 or an ancestor of it
        let mut a = v - 1; while a != p { match par[a] { Some(x) => a = x, None => return fail("tree:preorder", format!("vertex {} hangs at {}, which is no ancestor of {}", v, p, v - 1)) } }
    }
    for &(i, j) in &r.edges {
        let t = must("maximal_tree_contains", || sg.maximal_tree_contains([i, j]))?;
        check!(t == (par[j] == Some(i)), "tree:member", "edge {:?} in the tree: {}", (i, j), t);
        let mut a = j; while a > i { a = par[a].unwrap(); }
        check!(a == i, "tree:depth-first", "edge {:?} joins different branches", (i, j));
        ctx.see(if t { "tree edges" } else { "edges outside the tree" });
    }
    for _ in 0..3 { let j = ctx.rng.size(1, r.n - 1); let i = ctx.rng.below(j); if !r.adj[i][j] { check!(!sg.maximal_tree_contains([i, j]), "tree:member", "{:?} is no edge but in the tree", (i, j)); } }
    for v in 0..r.n { check!(sg.degree_in_maximal_tree(v) == td[v], "tree:degree", "vertex {} has tree degree {}, expected {}", v, sg.degree_in_maximal_tree(v), td[v]); }
    // branches at a vertex from which no edge leads below the vertex come before the other ones
    for i in 0..r.n {
        let ch: Vec<usize> = (i + 1..r.n).filter(|&v| par[v] == Some(i)).collect(); if ch.len() < 2 { continue; }
        let mut end = i; for v in i + 1..r.n { let mut a = v; while a > i { a = par[a].unwrap(); } if a == i { end = v } else { break } }
        let back: Vec<bool> = (0..ch.len()).map(|k| { let hi = ch.get(k + 1).copied().unwrap_or(end + 1); (ch[k]..hi).any(|l| (0..i).any(|k| r.adj[k][l])) }).collect();
        check!(back.windows(2).all(|w| w[0] <= w[1]), "tree:branches", "branches {:?} at vertex {} lead below it: {:?}", ch, i, back); ctx.see("branch orders checked");
    }
    check!(td[0] == 1, "tree:base", "the base point has degree {} in the tree", td[0]);
    // printing
    let s = sg.to_string();
    let ws = format!("vertices: {}\nedges: {}\n", sg.vertices_list().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "), "@");
    let (h, t) = ws.split_once('@').unwrap();
    let Some(es) = s.strip_prefix(h).and_then(|x| x.strip_suffix(t)) else { return fail("subdivision:print", format!("printed {:?}", s)) };
    let mut wl: Vec<String> = r.edges.iter().map(|&(i, j)| format!("[{}, {}]", sg[i], sg[j])).collect(); wl.sort();
    // labels may contain separators, so compare lengths and the presence of every edge
    check!(es.len() == wl.iter().map(|x| x.len()).sum::<usize>() + 2 * (wl.len() - 1) && wl.iter().all(|x| es.contains(x.as_str())), "subdivision:print", "edges printed as {:?}", es);
    // embedding
    let mut emb: std::collections::HashMap<String, alg::lin_alg::ConstVector<f64, 2>> = Default::default(); let mut pos: BTreeMap<String, [f64; 2]> = BTreeMap::new();
    for x in &names { let p = [ctx.rng.f(-5.0, 5.0), ctx.rng.f(-5.0, 5.0)]; emb.insert(x.clone(), alg::lin_alg::ConstVector::from(p)); pos.insert(x.clone(), p); }
    let out = must("modify_embedding", || sg.modify_embedding(emb))?;
    check!(out.len() == r.n, "embedding:size", "{} positions for {} vertices", out.len(), r.n);
    for v in sg.vertices_list() {
        let Some(p) = out.get(v) else { return fail("embedding:missing", format!("{}", v)) };
        let (a, b, t) = match v { SimpleVertex::Essential(s) => (s, s, 0.0), SimpleVertex::Redundant(q) => { let (x, y) = ratio(&q.pos.to_string()).unwrap(); (&q.start, &q.end, x as f64 / y as f64) } };
        for k in 0..2 { let w = pos[a][k] + (pos[b][k] - pos[a][k]) * t; check!((p[k] - w).abs() < 1e-9, "embedding:value", "{} is put at {:?}", v, (p[0], p[1])); }
    }
    let _ = label_key;
    ctx.see(&format!("{} graphs", kind));
    Ok(())
}

// ---------------------------------------------------------------- C11
fn raw_check(g: &RawSimpleGraph, n: usize, m: &BTreeSet<(usize, usize)>, ctx: &mut Ctx) -> Res {
    check!(g.n_vertices() == n && g.n_edges() == m.len(), "raw:counts", "{} vertices, {} edges; expected {}, {}", g.n_vertices(), g.n_edges(), n, m.len());
    let mut nb = vec![vec![]; n];
    for j in 0..n { for i in 0..j { let c = g.contains(i, j); check!(c == m.contains(&(i, j)), "raw:contains", "contains({}, {}) = {}", i, j, c); } }
    for i in 0..n { for j in 0..n { if i != j && m.contains(&(i.min(j), i.max(j))) { nb[i].push(j); } } }
    for v in 0..n {
        let a = g.get_adjacent_vertices(v); check!(a == nb[v], "raw:adjacent", "neighbours of {} are {:?}, expected {:?}", v, a, nb[v]);
        let a: Vec<usize> = g.adjacent_vertices_iter(v).collect(); check!(a == nb[v], "raw:adjacent", "iterated neighbours of {} are {:?}, expected {:?}", v, a, nb[v]);
        check!(g.degree_of(v) == nb[v].len(), "raw:degree", "degree of {} is {}, expected {}", v, g.degree_of(v), nb[v].len());
    }
    let es: Vec<F> = must("edge_iter", || g.edge_iter().map(unf).collect::<Vec<_>>())?;
    let set: BTreeSet<F> = es.iter().copied().collect(); let w: BTreeSet<F> = m.iter().map(|&(a, b)| E(a, b)).collect();
    check!(set.len() == es.len() && set == w, "raw:edges", "edges iterated {:?}, expected {:?}", es, w);
    let (sh, db) = must("raw print", || (g.to_string(), format!("{:?}", g)))?;
    let wsh: String = (1..n).map(|j| (0..j).map(|i| if m.contains(&(i, j)) { '1' } else { '0' }).collect::<String>() + "\n").collect();
    check!(sh == wsh, "raw:print", "edges {:?} printed as {:?}", m, sh);
    let wdb: String = (0..n).map(|i| "  ".repeat(i) + if i < 10 { " " } else { "" } + &i.to_string() + &(i + 1..n).map(|j| if m.contains(&(i, j)) { " +" } else { "  " }).collect::<String>() + "\n").collect();
    check!(db == wdb, "raw:print", "edges {:?} debug-printed as {:?}", m, db);
    let vs: Vec<F> = g.vertex_iter().map(unf).collect(); check!(vs == (0..n).map(V).collect::<Vec<_>>(), "raw:vertices", "vertices iterated {:?}", vs);
    let all: Vec<F> = g.iter().map(unf).collect(); check!(all.len() == vs.len() + es.len() && all[..n] == vs[..] && all[n..] == es[..], "raw:cells", "cells iterated {:?}", all);
    if n >= 2 {
        let mut seen = vec![false; n]; seen[0] = true; let mut st = vec![0]; while let Some(v) = st.pop() { for &w in &nb[v] { if !seen[w] { seen[w] = true; st.push(w); } } }
        let want = seen.iter().all(|x| *x); let got = must("is_connected", || g.is_connected())?;
        check!(got == want, "raw:connected", "is_connected = {}", got); ctx.see(if got { "connected graphs" } else { "disconnected graphs" });
    }
    Ok(())
}
type Mv = [usize; 2];
fn disjoint(a: &Mv, b: &Mv) -> bool { a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1] }
fn inv(a: &Mv) -> Mv { [a[1], a[0]] }
/// reduced word in the right-angled Artin group of the edges (disjoint closed edges commute)
fn reduced(w: &[Mv]) -> Vec<Mv> {
    let mut o: Vec<Mv> = vec![];
    'next: for x in w {
        for k in (0..o.len()).rev() { if o[k] == inv(x) { o.remove(k); continue 'next; } if !disjoint(&o[k], x) { break; } }
        o.push(*x);
    }
    o
}
fn normal(w: &[Mv]) -> Vec<Mv> {
    let mut r = reduced(w); let mut o = vec![];
    while !r.is_empty() { let k = (0..r.len()).filter(|&k| (0..k).all(|i| disjoint(&r[i], &r[k]))).min_by_key(|&k| r[k]).unwrap(); o.push(r.remove(k)); }
    o
}
fn flat(p: &EdgePath) -> Vec<Mv> { p.iter().flatten().copied().collect() }
use topo_spaces::cubical::EdgePath;
fn perm_of(p: &EdgePath, n: usize, want: &[usize]) -> Result<bool, Violation> {
    macro_rules! go { ($($k:literal)*) => { match n { $($k => { let mut a = [0usize; $k]; a.copy_from_slice(want); must("evaluate_permutation", || p.evaluate_permutation::<$k>())? == alg::non_commutative::permutation::ConstPermutation::<$k>::from(a) })* _ => true } } }
    Ok(go!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24))
}
/// move labelled tokens; error when a move starts from an empty vertex, ends on an occupied one or leaves the graph
fn run_moves(ws: &[Mv], tok: &mut Vec<usize>, r: &Sg) -> Result<(), String> {
    for m in ws {
        if m[0] >= r.n || m[1] >= r.n || !r.adj[m[0]][m[1]] { return Err(format!("{:?} is no edge", m)); }
        if tok.contains(&m[1]) { return Err(format!("move {:?} to an occupied vertex, tokens {:?}", m, tok)); }
        match tok.iter().position(|x| *x == m[0]) { Some(k) => tok[k] = m[1], None => return Err(format!("move {:?} from an empty vertex, tokens {:?}", m, tok)) }
    }
    Ok(())
}
fn path_ok(what: &str, p: &EdgePath) -> Res { for s in p.iter() { for i in 0..s.len() { for j in 0..i { check!(disjoint(&s[i], &s[j]), format!("{}:step", what), "step {:?} moves along edges that meet", s); } } } Ok(()) }
fn all_len(v: &[usize]) -> Vec<usize> { let mut s = v.to_vec(); s.sort(); s }
/// the smallest unblocked point moves towards the base point until none is left
fn flow_moves(r: &Sg, mut c: Vec<usize>) -> Vec<Mv> {
    let mut o = vec![];
    loop { let Some(k) = (0..c.len()).filter(|&k| c[k] > 0 && !c.contains(&r.parent(c[k]).unwrap())).min_by_key(|&k| c[k]) else { return o }; let p = r.parent(c[k]).unwrap(); o.push([c[k], p]); c[k] = p; }
}
/// single cells: order, disjointness, ends, flow, blocking
fn factors(ctx: &mut Ctx, sg: &SimpleGraph, r: &Sg) -> Res {
    use std::cmp::Ordering::*;
    let mut fs: Vec<F> = (0..8).map(|_| if ctx.rng.bool() { V(ctx.rng.below(r.n)) } else { let e = *ctx.rng.pick(&r.edges); E(e.0, e.1) }).collect();
    if let E(a, b) = fs[0] { fs.push(V(a)); fs.push(V(b)); }
    let occ = |f: F| [f.lo(), f.hi()];
    for &f in &fs {
        let x = f.cf();
        let s = must("factor", || (x.is_edge(), x.is_vertex(), x.get_order(), x.to_string(), x.is_in_maximal_tree(sg)))?;
        let w = match f { V(v) => (false, true, v, v.to_string(), true), E(a, b) => (true, false, a, format!("[{} {}]", a, b), r.tree((a, b))) };
        check!(s == w, "factor:kind", "{:?}: is_edge, is_vertex, get_order, printed, in the tree {:?}, expected {:?}", f, s, w);
        match f {
            V(v) => { check!(x.vertex() == v, "factor:parts", "{:?}", f); if v > 0 { let y = unf(must("flow", || x.flow(sg))?); let p = r.parent(v).unwrap(); check!(y == E(p, v), "factor:flow", "vertex {} flows along {:?}, expected {:?}", v, y, E(p, v)); } }
            E(a, b) => { check!(x.edge() == [a, b] && unf(x.terminal()) == V(a) && unf(x.initial()) == V(b), "factor:ends", "{:?} has ends {} and {}", f, x.terminal(), x.initial()); check!(x.is_order_respecting() == (b == a + 1), "factor:order", "{:?} is_order_respecting {}", f, x.is_order_respecting()); }
        }
        for &g in &fs {
            let y = g.cf(); let dj = occ(f).iter().all(|k| !occ(g).contains(k));
            check!(x.is_disjoint_from(y) == dj, "factor:disjoint", "{:?} and {:?} disjoint: {}", f, g, x.is_disjoint_from(y));
            let c = must("factor order", || x.partial_cmp(&y))?;
            let w = if f == g { Some(Equal) } else if !dj { None } else { Some(f.lo().cmp(&g.lo())) };
            check!(c == w, "factor:compare", "{:?} compared with {:?}: {:?}, expected {:?}", f, g, c, w);
            if let (V(k), E(i, j)) = (f, g) { check!(x.is_disrespected_by(y) == (i < k && k < j), "factor:disrespect", "{} is disrespected by {:?}: {}", k, g, x.is_disrespected_by(y)); }
        }
        if let V(v) = f {
            let rest: Vec<F> = fs.iter().copied().filter(|g| *g != f).collect();
            let k = ctx.rng.below(rest.len() + 1); let mut at = rest[..k].to_vec(); if v > 0 && ctx.rng.chance(1, 3) { at.push(V(r.parent(v).unwrap())); }
            let b = must("is_blocked", || x.is_blocked(&at.iter().map(|g| g.cf()).collect::<Vec<_>>(), sg))?;
            let w = match r.parent(v) { None => true, Some(p) => at.iter().any(|g| occ(*g).contains(&p)) };
            check!(b == w, "factor:blocked", "vertex {} among {:?} is blocked: {}", v, at, b); ctx.see(if b { "blocked vertices" } else { "unblocked vertices" });
        }
    }
    Ok(())
}
/// a graph with tens of thousands of vertices and few edges, in an ordinary thread
fn huge_raw(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.size(66_000, 120_000); let mut m: BTreeSet<(usize, usize)> = BTreeSet::new();
    for _ in 0..ctx.rng.below(12) { let (i, j) = (ctx.rng.below(n), ctx.rng.below(n)); if i != j { m.insert((i.min(j), i.max(j))); } }
    let c = *ctx.rng.pick(&[0usize, 1, n / 2, n - 1]); for o in [0usize, n - 1] { if o != c && ctx.rng.bool() { m.insert((c.min(o), c.max(o))); } }
    ctx.input(format!("{} vertices, edges {:?}, neighbours of {}", n, m, c), true);
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || guard(move || -> Result<(), String> {
        let mut g = RawSimpleGraph::new(n); for &(i, j) in &m { g.add_edge(i, j); }
        for v in [c, 0, n - 1] {
            let want: Vec<usize> = m.iter().filter_map(|&(i, j)| if i == v { Some(j) } else if j == v { Some(i) } else { None }).collect::<BTreeSet<_>>().into_iter().collect();
            let it: Vec<usize> = g.adjacent_vertices_iter(v).collect(); let mut l = g.get_adjacent_vertices(v); l.sort();
            if it != want || l != want || g.degree_of(v) != want.len() { return Err(format!("vertex {} has neighbours {:?} or {:?}, degree {}, expected {:?}", v, it, l, g.degree_of(v), want)); }
        }
        // positions that would share a place if the place were computed in fewer bits, or are neighbours of one
        let pair = |x: usize| { let mut j = (((8.0 * x as f64 + 1.0).sqrt() + 1.0) / 2.0) as usize; while j * (j - 1) / 2 > x { j -= 1; } while j * (j + 1) / 2 <= x { j += 1; } (x - j * (j - 1) / 2, j) };
        for &(i, j) in &m { let x = j * (j - 1) / 2 + i; for y in [x & 0xffff, x & 0xff_ffff, x & 0x7fff_ffff, x & 0xffff_ffff, x ^ 1, x ^ 64, x + 1 + (x == 0) as usize, x + (1 << 32)] {
            if y >= n * (n - 1) / 2 { continue; } let (a, b) = pair(y); if a >= b { continue; }
            if g.contains(a, b) != m.contains(&(a, b)) { return Err(format!("edge {:?} is contained: {}, with edges {:?}", (a, b), g.contains(a, b), m)); }
        } }
        if g.n_edges() != m.len() || g.n_vertices() != n { return Err(format!("{} edges on {} vertices", g.n_edges(), g.n_vertices())); }
        Ok(())
    })).unwrap().join().unwrap();
    match r { Ok(Ok(())) => { ctx.see("graphs with more than 65000 vertices"); Ok(()) } Ok(Err(e)) => fail("raw:huge", e), Err(e) => fail("raw:huge", format!("panicked: {}", e)) }
}
pub fn c11(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 100_000) { return huge_raw(ctx); }
    if ctx.rng.bool() {
        let n = if ctx.rng.chance(1, 500) { ctx.rng.size(21, 90) } else { match ctx.rng.below(4) { 0 => ctx.rng.size(1, 4), 1 => ctx.rng.size(11, 13), _ => ctx.rng.size(2, 20) } };
        let mut g = must("new", || RawSimpleGraph::new(n))?; let mut m: BTreeSet<(usize, usize)> = BTreeSet::new(); let mut log = format!("{} vertices:", n);
        let dense = ctx.rng.size(1, 9); if n > 1 { for j in 1..n { for i in 0..j { if ctx.rng.chance(dense, 10) && ctx.rng.chance(2, 3) { g.add_edge(i, j); m.insert((i, j)); log += &format!(" +{}-{}", i, j); } } } }
        ctx.input(log.clone(), n > 2);
        raw_check(&g, n, &m, ctx)?;
        { // vertices that are not there
            let i = ctx.rng.below(n); let o = n + ctx.rng.below(3); let mut h = g.clone();
            check!(guard(|| h.add_edge(i, o)).is_err() && h == g, "raw:outside", "an edge from {} to {} is added to a graph with {} vertices", i, o, n);
            check!(guard(|| h.remove_edge(i, o)).is_err() && h == g, "raw:outside", "an edge from {} to {} is removed from a graph with {} vertices", i, o, n);
            check!(guard(|| h.swap(i, o)).is_err() && h == g, "raw:outside", "vertices {} and {} of a graph with {} vertices are swapped", i, o, n);
            check!(guard(|| h.contains(i, o)).is_err(), "raw:outside", "a graph with {} vertices is asked for an edge from {} to {}", n, i, o);
            check!(guard(|| h.get_adjacent_vertices(o)).is_err(), "raw:outside", "vertex {} of a graph with {} vertices has neighbours", o, n);
            check!(guard(|| g.degree_of(o)).is_err(), "raw:outside", "vertex {} of a graph with {} vertices has a degree", o, n);
            h.is_maximal_tree_chosen = true; check!(guard(|| h.degree_in_maximal_tree(o)).is_err(), "raw:outside", "vertex {} of a graph with {} vertices has a degree in the tree", o, n);
            ctx.see("vertices outside refused");
        }
        for _ in 0..ctx.rng.size(1, 8) {
            if n < 2 { break; }
            let i = ctx.rng.below(n - 1); let j = ctx.rng.size(i + 1, n - 1);
            let before = g.clone();
            match ctx.rng.below(5) {
                0 => { log += &format!(" +{}-{}", i, j); ctx.input(log.clone(), n > 2); must("add_edge", || g.add_edge(i, j))?; m.insert((i, j)); }
                1 => { log += &format!(" -{}-{}", i, j); ctx.input(log.clone(), n > 2); must("remove_edge", || g.remove_edge(i, j))?; m.remove(&(i, j)); }
                2 => { log += &format!(" swap{},{}", i, j); ctx.input(log.clone(), n > 2); must("swap", || g.swap(i, j))?; let s = |x: usize| if x == i { j } else if x == j { i } else { x }; m = m.iter().map(|&(a, b)| (s(a).min(s(b)), s(a).max(s(b)))).collect(); ctx.see("swaps"); }
                _ => {
                    let p = ctx.rng.perm(n); log += &format!(" perm{:?}", p); ctx.input(log.clone(), n > 2);
                    let q = alg::non_commutative::permutation::Permutation::from_disjoint_cycles(crate::p_perm::cycles(&p).into_iter().map(alg::non_commutative::permutation::Cycle::from).collect());
                    if ctx.rng.bool() { must("<<=", || g <<= q)?; } else { g = must("<<", || g.clone() << q)?; }
                    m = m.iter().map(|&(a, b)| (p[a].min(p[b]), p[a].max(p[b]))).collect(); ctx.see("relabellings");
                }
            }
            raw_check(&g, n, &m, ctx)?; ctx.see("graph operations checked");
            let b = read_graph(&before); check!((g == before) == (b.edges.iter().copied().collect::<BTreeSet<_>>() == m), "raw:eq", "equality of graphs");
        }
        return Ok(());
    }
    let large = ctx.rng.chance(1, 800);
    let crowd = ctx.rng.chance(1, 500);
    let (mut e, _, kind) = gen_graph(&mut ctx.rng, if large && !crowd { LARGE } else { 10 }); if crowd { let v: &[(usize, usize)] = match ctx.rng.below(5) { 0 => &[(0, 1)], 1 => &[(0, 1), (0, 2), (3, 0)], 2 => &[(0, 0), (1, 0)], 3 => &[(0, 1), (1, 0)], _ => &[(2, 1), (1, 0), (2, 0)] }; e = v.iter().map(|&(a, b)| (nm(0, a), nm(0, b))).collect(); }
    let n = if crowd { ctx.rng.size(10, 22) } else if ctx.rng.chance(1, 300) { ctx.rng.size(6, 9) } else { *ctx.rng.pick(&[1usize, 2, 2, 3, 3, 4, 5]) };
    let g = Graph::<i64>::from(e.clone());
    let sg = must("subdivide", || SimpleGraph::subdivided_graph_from(&g, n))?; let r = read_graph(&sg);
    let base: Vec<usize> = (0..n).collect();
    ctx.input(format!("{} {} with {} points", kind, show_edges(&e), n), true);
    factors(ctx, &sg, &r)?;
    // paths of one-dimensional cells and of configurations
    let mut loops: Vec<EdgePath> = vec![];
    for _ in 0..4 {
        let cfg: Vec<usize> = { let p = ctx.rng.perm(r.n); let mut v = p[..n.min(r.n)].to_vec(); if ctx.rng.chance(1, 3) { v = (0..n).collect(); let k = ctx.rng.below(n); let f = ctx.rng.below(r.n); if !v.contains(&f) { v[k] = f; } } v.sort(); v };
        if cfg.len() < n { continue; }
        let fl = flow_moves(&r, cfg.clone());
        let to = ctx.rng.bool();
        let p = must("get_edge_path_to_from_base_pt", || sg.get_edge_path_to_from_base_pt(Cube::from(cfg.iter().map(|&v| CubeFactor::Vertex(v)).collect::<Vec<_>>()), to))?;
        let want: Vec<Mv> = if to { fl.clone() } else { fl.iter().rev().map(inv).collect() };
        check!(normal(&flat(&p)) == normal(&want), "path:base", "path {} the base point of {:?} is {:?}, expected the motion {:?}", if to { "to" } else { "from" }, cfg, &*p, want);
        path_ok("base", &p)?; ctx.see("paths to and from the base point");
        // one edge and n-1 other vertices
        let ed = *ctx.rng.pick(&r.edges); let mut rest: Vec<usize> = ctx.rng.perm(r.n).into_iter().filter(|v| *v != ed.0 && *v != ed.1).collect(); if ctx.rng.bool() { rest.sort(); } 
        if rest.len() < n - 1 { continue; }
        rest.truncate(n - 1);
        let cell = norm(rest.iter().map(|&v| V(v)).chain([E(ed.0, ed.1)]).collect());
        let p = must("get_edge_path", || sg.get_edge_path(cube_of(&cell)))?;
        let s: Vec<usize> = rest.iter().copied().chain([ed.1]).collect(); let t: Vec<usize> = rest.iter().copied().chain([ed.0]).collect();
        let (fs, ft) = (flow_moves(&r, s.clone()), flow_moves(&r, t.clone()));
        let want: Vec<Mv> = fs.iter().rev().map(inv).chain([[ed.1, ed.0]]).chain(ft.iter().copied()).collect();
        check!(normal(&flat(&p)) == normal(&want), "path:edge", "path of {:?} is {:?}, expected the motion {:?}", cell, &*p, want);
        path_ok("edge", &p)?; ctx.see("paths of one-dimensional cells");
        let ends = must("get_ends", || cube_of(&cell).get_ends())?;
        check!(all_len(&ends[0].iter().map(|f| f.vertex()).collect::<Vec<_>>()) == all_len(&t) && all_len(&ends[1].iter().map(|f| f.vertex()).collect::<Vec<_>>()) == all_len(&s), "path:ends", "ends of {:?} are {} and {}", cell, ends[0], ends[1]);
        check!(guard(|| Cube::from(s.iter().map(|&v| CubeFactor::Vertex(v)).collect::<Vec<_>>()).get_ends()).is_err(), "path:ends", "a configuration {:?} has ends", s);
        if let Some(e2) = r.edges.iter().find(|e| e.0 != ed.0 && e.0 != ed.1 && e.1 != ed.0 && e.1 != ed.1) {
            let c = cube_of(&norm(vec![E(ed.0, ed.1), E(e2.0, e2.1)]));
            check!(guard(|| c.get_ends()).is_err(), "path:ends", "a cell of two edges {:?} {:?} has ends", ed, e2);
        }
        let mut tok = base.clone();
        let (mut a, mut b) = (s.clone(), t.clone()); let _ = (run_moves(&fs, &mut a, &r), run_moves(&ft, &mut b, &r)); a.sort(); b.sort();
        if a == base && b == base {
            if let Err(m) = run_moves(&flat(&p), &mut tok, &r) { return fail("path:legal", format!("{} in {:?}", m, &*p)); }
            check!(all_len(&tok) == base, "path:closed", "{:?} ends at {:?}", &*p, tok);
            check!(perm_of(&p, n, &tok)?, "path:permutation", "permutation of {:?} is not {:?}", &*p, tok);
            ctx.see("closed paths evaluated"); if tok != base { ctx.see("paths that permute the points"); }
            loops.push(p);
        }
    }
    // composition, inverse and reduction
    if !loops.is_empty() {
        let k = ctx.rng.size(1, 4); let mut p = EdgePath::trivial_path(); let mut w: Vec<Mv> = vec![];
        for _ in 0..k {
            let q = ctx.rng.pick(&loops).clone(); let f = flat(&q);
            if ctx.rng.bool() { let i = must("inverse", || q.inverse())?; let wi: Vec<Mv> = f.iter().rev().map(inv).collect(); check!(normal(&flat(&i)) == normal(&wi), "path:inverse", "inverse of {:?} is {:?}", f, &*i); path_ok("inverse", &i)?; let at: Vec<Mv> = flat(&i); p = must("compose", || p.composed_with(i))?; w.extend(at); }
            else { p = must("compose", || p.composed_with(q))?; w.extend(f); }
        }
        check!(flat(&p) == w, "path:compose", "composed path {:?}, expected {:?}", &*p, w);
        let mut tok = base.clone();
        if let Err(m) = run_moves(&w, &mut tok, &r) { return fail("path:legal", m); }
        check!(perm_of(&p, n, &tok)?, "path:permutation", "permutation of {:?} is not {:?}", &*p, tok);
        let q = must("reduce_to_geodesic", || p.reduce_to_geodesic())?;
        check!(perm_of(&q, n, &tok)?, "path:permutation", "permutation of the reduced path {:?} is not {:?}", &*q, tok);
        reduced_ok(&w, &q)?; ctx.see("compositions checked");
    }
    // a random motion with backtracking, several disjoint moves per step
    let mut tok: Vec<usize> = { let p = ctx.rng.perm(r.n); p[..n.min(r.n)].to_vec() };
    let start = tok.clone(); let mut steps: Vec<Vec<Mv>> = vec![]; let mut w: Vec<Mv> = vec![];
    let most = if crowd && ctx.rng.bool() { n } else { 2 };
    for _ in 0..if ctx.rng.chance(1, 25) { ctx.rng.size(15, 60) } else { ctx.rng.size(0, 14) } {
        if !w.is_empty() && ctx.rng.chance(1, 3) { // undo the last step
            let s: Vec<Mv> = steps.last().unwrap().iter().map(inv).collect(); for m in &s { let k = tok.iter().position(|x| *x == m[0]).unwrap(); tok[k] = m[1]; w.push(*m); } steps.push(s); continue;
        }
        let mut s: Vec<Mv> = vec![];
        for _ in 0..ctx.rng.size(1, most) {
            let k = ctx.rng.below(tok.len()); let nb: Vec<usize> = (0..r.n).filter(|&v| r.adj[tok[k]][v] && !tok.contains(&v)).collect();
            if nb.is_empty() { continue; } let m = [tok[k], *ctx.rng.pick(&nb)];
            if s.iter().all(|x| disjoint(x, &m)) { s.push(m); tok[k] = m[1]; w.push(m); }
        }
        if !s.is_empty() { steps.push(s); }
    }
    ctx.input(format!("{}; motion {:?} of points at {:?}", ctx.input, steps, start), true);
    let p = EdgePath::from(steps);
    let i = must("inverse", || p.clone().inverse())?; let wi: Vec<Mv> = w.iter().rev().map(inv).collect();
    check!(normal(&flat(&i)) == normal(&wi), "path:inverse", "inverse is {:?}", &*i); path_ok("inverse", &i)?;
    let q = must("reduce_to_geodesic", || p.reduce_to_geodesic())?;
    reduced_ok(&w, &q)?; ctx.see("random motions reduced");
    // the moves of one step happen at once: points may take the places others leave
    let k = if ctx.rng.chance(1, 30) { ctx.rng.size(6, 24) } else { ctx.rng.size(1, 5) }; let m = k + ctx.rng.below(4); let mut at: Vec<usize> = (0..k).collect(); let mut steps = vec![];
    for s in 0..=ctx.rng.size(1, 4) {
        let to: Vec<usize> = if s == 0 { at.clone() } else if ctx.rng.chance(1, 3) { let p = ctx.rng.perm(k); p.into_iter().map(|i| at[i]).collect() } else { ctx.rng.perm(m)[..k].to_vec() };
        let mut st: Vec<Mv> = (0..k).filter(|&i| at[i] != to[i]).map(|i| [at[i], to[i]]).collect(); let o = ctx.rng.perm(st.len()); st = o.into_iter().map(|i| st[i]).collect(); steps.push(st); at = to;
    }
    let order = ctx.rng.perm(k); let back: Vec<Mv> = (0..k).filter(|&i| at[i] != order[i]).map(|i| [at[i], order[i]]).collect(); steps.push(back);
    check!(perm_of(&EdgePath::from(steps.clone()), k, &order)?, "path:simultaneous", "steps {:?} do not permute the points to {:?}", steps, order); ctx.see("simultaneous steps evaluated");
    Ok(())
}
fn reduced_ok(w: &[Mv], q: &EdgePath) -> Res {
    let f = flat(q);
    check!(normal(&f) == normal(w), "reduce:class", "{:?} is reduced to {:?}, a different motion", w, &**q);
    path_ok("reduce", q)?;
    check!(f.len() == reduced(w).len(), "reduce:length", "{:?} is reduced to {:?}, which has {} moves instead of {}", w, &**q, f.len(), reduced(w).len());
    Ok(())
}
