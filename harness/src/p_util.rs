//! C27 bit sets / labelled sets vs a set model; C28 fixed-size subset enumeration.
use crate::check;
use crate::core::*;
use std::collections::BTreeSet;
use util::{BinaryPool, LabeledSet, TupleIterable};

fn same(ctx: &mut Ctx, p: &BinaryPool, len: usize, m: &BTreeSet<usize>, log: &str) -> Res {
    ctx.see("pool states compared");
    check!(p.len() == len, "pool:len", "len()={} expected {} after {}", p.len(), len, log);
    check!(p.n_elements() == m.len(), "pool:n_elements", "n_elements()={} expected {} after {}", p.n_elements(), m.len(), log);
    let it: Vec<usize> = must("pool iter", || p.iter().collect())?;
    let mv: Vec<usize> = m.iter().cloned().collect();
    check!(it == mv, "pool:iter", "iter()={:?} expected {:?} after {}", it, mv, log);
    check!(p.is_full() == (m.len() == len), "pool:is_full", "is_full()={} with {} of {} after {}", p.is_full(), m.len(), len, log);
    for i in 0..len { check!(p.contains(i) == m.contains(&i), "pool:contains", "contains({})={} after {}", i, p.contains(i), log); }
    let dbg = must("pool debug", || format!("{:?}", p))?;
    let want = format!("len = {}, n_elements = {}, data = [{}]", len, m.len(), (0..len).map(|i| if m.contains(&i) { "1" } else { "0" }).collect::<Vec<_>>().join(", "));
    check!(dbg == want, "pool:debug", "Debug printed {} expected {}", dbg, want);
    Ok(())
}

pub fn c27(ctx: &mut Ctx) -> Res {
    let bases = [0usize, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 191, 192, 193, 200, 300];
    if ctx.idx % 5 == 4 { return labelled(ctx); }
    let mut len = if ctx.rng.chance(1, 60) { *ctx.rng.pick(&[511usize, 512, 513, 640, 1000, 1024, 2048, 4097]) } else { *ctx.rng.pick(&bases) };
    let init: Vec<usize> = if len == 0 { vec![] } else { (0..ctx.rng.below(12)).map(|_| ctx.rng.below(len)).collect() };
    let mut log = format!("from({}, {:?})", len, init);
    ctx.input(log.clone(), false);
    let mut p = must("BinaryPool::from", || BinaryPool::from(len, init.clone()))?;
    let mut m: BTreeSet<usize> = init.into_iter().collect();
    same(ctx, &p, len, &m, &log)?;
    let steps = 3 + ctx.rng.below(25);
    for _ in 0..steps {
        let edge = |ctx: &mut Ctx, len: usize| -> usize { let c = [0, 31, 32, 63, 64, 65, 127, 128, len - 1]; let x = *ctx.rng.pick(&c); if ctx.rng.bool() && x < len { x } else { ctx.rng.below(len) } };
        match ctx.rng.below(10) {
            0 | 1 if len > 0 => { let i = edge(ctx, len); log += &format!(" add {}", i); must("add", || p.add(i))?; m.insert(i); ctx.see("add"); }
            2 | 3 if len > 0 => { let i = edge(ctx, len); log += &format!(" remove {}", i); must("remove", || p.remove(i))?; m.remove(&i); ctx.see("remove"); }
            4 => { let n = if ctx.rng.bool() { *ctx.rng.pick(&bases) } else { len + ctx.rng.below(70) }; log += &format!(" resize {}", n); must("resize", || p.resize(n))?; len = len.max(n); ctx.see("resize"); }
            5 | 6 | 7 => {
                let dens = ctx.rng.size(1, 4);
                let mut o: Vec<usize> = (0..len).filter(|_| ctx.rng.chance(dens, 5)).collect();
                if ctx.rng.chance(1, 3) { o.extend(m.iter()); }
                if ctx.rng.chance(1, 4) { o = m.iter().cloned().filter(|_| true).collect(); if !o.is_empty() && ctx.rng.bool() { let k = ctx.rng.below(o.len()); o.remove(k); } }
                let q = must("BinaryPool::from", || BinaryPool::from(len, o.clone()))?;
                let om: BTreeSet<usize> = o.iter().cloned().collect();
                same(ctx, &q, len, &om, &format!("from({},{:?})", len, o))?;
                let a = must("is_subset_of", || p.is_subset_of(&q))?; let b = must("is_subset_of", || q.is_subset_of(&p))?;
                check!(a == m.is_subset(&om), "pool:subset", "{:?} subset of {:?} = {}", m, om, a);
                check!(b == om.is_subset(&m), "pool:subset", "{:?} subset of {:?} = {}", om, m, b);
                check!((p == q) == (m == om), "pool:eq", "{:?} == {:?} gave {}", m, om, p == q);
                let u = must("union", || p.clone().union(q.clone()))?; let um: BTreeSet<usize> = m.union(&om).cloned().collect();
                same(ctx, &u, len, &um, &format!("{} union {:?}", log, om))?;
                let x = must("intersection", || p.clone().intersection(q.clone()))?; let xm: BTreeSet<usize> = m.intersection(&om).cloned().collect();
                same(ctx, &x, len, &xm, &format!("{} intersection {:?}", log, om))?;
                check!(x.is_subset_of(&u) && x.is_subset_of(&p) && p.is_subset_of(&u), "pool:lattice", "intersection/union not ordered: {:?} {:?}", m, om);
                ctx.see("union+intersection");
                if ctx.rng.bool() { log += &format!(" union {:?}", o); p = u; m = um; } else { log += &format!(" intersection {:?}", o); p = x; m = xm; }
            }
            8 if ctx.rng.chance(1, 4) => { log += " fill"; must("fill", || p.fill())?; m = (0..len).collect(); ctx.see("fill"); }
            _ => { // out-of-range and incomparable accesses are refused, state unchanged
                let bad = len + if ctx.rng.bool() { 0 } else { ctx.rng.below(130) };
                check!(guard(|| p.contains(bad)).is_err(), "pool:oob", "contains({}) accepted with len {}", bad, len);
                let mut c = p.clone();
                check!(guard(|| c.add(bad)).is_err(), "pool:oob", "add({}) accepted with len {}", bad, len);
                check!(guard(|| c.remove(bad)).is_err(), "pool:oob", "remove({}) accepted with len {}", bad, len);
                check!(c == p, "pool:oob-mutates", "refused access changed the set");
                let q = BinaryPool::new(len + 1);
                check!(guard(|| p.clone().union(q.clone())).is_err() && guard(|| p.clone().intersection(q.clone())).is_err() && guard(|| p.is_subset_of(&q)).is_err(), "pool:len-mismatch", "operation on lengths {} and {} accepted", len, len + 1);
                check!(guard(|| BinaryPool::from(len, vec![bad])).is_err(), "pool:oob", "from({}, [{}]) accepted", len, bad);
                ctx.see("refused accesses");
            }
        }
        ctx.input(log.clone(), m.len() > 0 && steps > 3);
        same(ctx, &p, len, &m, &log)?;
        let n = ctx.rng.u64() & if ctx.rng.bool() { u64::MAX } else { ctx.rng.u64() & ctx.rng.u64() };
        check!(util::bitwise::count_ones(n) == n.count_ones() as usize, "bitwise:count_ones", "count_ones({:#x})={}", n, util::bitwise::count_ones(n));
    }
    Ok(())
}

fn labelled(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 60) { ctx.rng.size(80, 400) } else { ctx.rng.size(0, 80) };
    let labels: Vec<String> = ctx.rng.perm(n).into_iter().map(|i| format!("v{}", i)).collect();
    let mut s = LabeledSet::new(labels.clone());
    let mut m: BTreeSet<usize> = BTreeSet::new();
    let mut log = format!("labels {:?}:", labels);
    for _ in 0..ctx.rng.below(60) {
        if n == 0 { break; }
        let i = ctx.rng.below(n);
        if ctx.rng.chance(2, 3) { log += &format!(" +{}", labels[i]); must("add label", || s.add(labels[i].clone()))?; m.insert(i); } else { log += &format!(" -{}", labels[i]); must("remove label", || s.remove(labels[i].clone()))?; m.remove(&i); }
    }
    ctx.input(log, m.len() > 0);
    let want: Vec<&String> = m.iter().map(|&i| &labels[i]).collect();
    let got: Vec<&String> = s.iter().collect();
    check!(got == want, "labelled:iter", "iter {:?} expected {:?}", got, want);
    check!(s.n_elements() == m.len(), "labelled:n", "n_elements {} expected {}", s.n_elements(), m.len());
    let d = format!("{}", s);
    let w = format!("{{{}}}", want.iter().map(|x| x.as_str()).collect::<Vec<_>>().join(", "));
    check!(d == w, "labelled:display", "{} expected {}", d, w);
    let mut c = s.clone();
    check!(guard(|| c.add("nope".into())).is_err() && guard(|| c.remove("nope".into())).is_err(), "labelled:unknown", "unregistered label accepted");
    check!(c == s, "labelled:unknown-mutates", "refused label changed the set");
    let mut t = LabeledSet::new(labels.clone());
    for &i in m.iter().rev() { t.add(labels[i].clone()); t.add(labels[i].clone()); }
    check!(t == s, "labelled:eq", "equal sets built in another order differ");
    ctx.see("labelled sets compared");
    Ok(())
}

pub fn c28(ctx: &mut Ctx) -> Res {
    let long = ctx.rng.chance(1, 60); // long slices, small and almost full subsets
    let n = if long { ctx.rng.size(20, 140) } else { ctx.rng.size(0, if ctx.thorough { 16 } else { 13 }) };
    let k = if ctx.rng.chance(1, 6) { n + ctx.rng.below(4) } else if long { let k = ctx.rng.below(if n < 40 { 4 } else { 3 }); if ctx.rng.bool() { k } else { n - k } } else { ctx.rng.size(0, n) };
    let equal = ctx.rng.chance(1, 4); // elements that are equal are still different positions
    let data: Vec<u64> = { let off = ctx.rng.below(1000) as u64; let mut v: Vec<u64> = (0..n as u64).map(|x| if equal { x / 3 } else { x * 7 + off }).collect(); ctx.rng.shuffle(&mut v); v };
    ctx.input(format!("subsets of size {} of {:?}", k, data), n >= 2 && k >= 1 && k <= n);
    // reference: lexicographic in index order
    fn rec(n: usize, k: usize, start: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k { out.push(cur.clone()); return; }
        for i in start..(n + cur.len() + 1).saturating_sub(k) { cur.push(i); rec(n, k, i + 1, cur, out); cur.pop(); }
    }
    let mut want = vec![]; rec(n, k, 0, &mut vec![], &mut want);
    let pos = |x: &u64| (x as *const u64 as usize - data.as_ptr() as usize) / 8; let slice = &data;
    let cap = want.len() + 2;
    let got: Vec<Vec<usize>> = must("tuple_iter", || { let mut it = slice.tuple_iter(k); let mut o = vec![]; for _ in 0..cap { match it.next() { Some(v) => o.push(v.into_iter().map(pos).collect()), None => break } } 
        for _ in 0..3 { if o.len() < cap && it.next().is_some() { o.push(vec![usize::MAX]); } } o })?;
    ctx.see_n("subsets yielded", got.len() as u64);
    check!(got.len() == want.len(), "tuple:count", "yielded {} subsets, expected {}", got.len(), want.len());
    let pos = (0..got.len()).find(|&i| got[i] != want[i]);
    if let Some(i) = pos { return fail("tuple:order", format!("item {}: positions {:?} expected {:?}", i, got[i], want[i])); }
    Ok(())
}
