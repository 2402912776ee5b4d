//! C19: memory safety of the matrix storage. Built with AddressSanitizer; on top of that the
//! element type `Tr` carries an identity that a registry follows from construction to drop.
use crate::check;
use crate::core::*;
use crate::p_dense::{view, view_mut, R1};
use alg::commutative::{One, Symbol, Zero, PID, Field};
use alg::lin_alg::{Matrix, SparseMatrix, SubMatrix};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
struct Reg { live: HashMap<u64, i64>, next: u64, bad: Vec<String>, made: u64, dropped: u64 }
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
fn seal(id: u64, v: i64) -> u64 { let mut x = id ^ (v as u64).rotate_left(32) ^ 0x5ea1_5ea1_5ea1_5ea1; splitmix(&mut x) }

/// a counted integer: owns an identity
pub struct Tr { seal: u64, id: u64, val: i64, own: std::mem::ManuallyDrop<Box<u64>> }
impl Tr {
    pub fn new(val: i64) -> Tr {
        let id = REG.with(|r| { let mut r = r.borrow_mut(); r.next += 1; r.made += 1; let id = r.next; r.live.insert(id, val); id });
        Tr { seal: seal(id, val), id, val, own: std::mem::ManuallyDrop::new(Box::new(id)) }
    }
    /// true when this is a live element
    fn look(&self, what: &str) -> bool {
        if self.seal != seal(self.id, self.val) { REG.with(|r| r.borrow_mut().bad.push(format!("{} of memory that holds no element (bytes {:x} {:x} {:x})", what, self.seal, self.id, self.val))); return false; }
        let ok = REG.with(|r| r.borrow().live.get(&self.id) == Some(&self.val));
        if !ok { REG.with(|r| r.borrow_mut().bad.push(format!("{} of element #{} (value {}) after it was dropped", what, self.id, self.val))); return false; }
        **self.own == self.id
    }
    fn get(&self, what: &str) -> i64 { if self.look(what) { self.val } else { 0 } }
    fn set(&mut self, v: i64) { if self.look("update") { self.val = v; self.seal = seal(self.id, v); REG.with(|r| r.borrow_mut().live.insert(self.id, v)); } }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.look("drop") {
            REG.with(|r| { let mut r = r.borrow_mut(); r.live.remove(&self.id); r.dropped += 1; });
            // SAFETY: a live element owns its box
            unsafe { std::mem::ManuallyDrop::drop(&mut self.own); }
        }
    }
}
impl Clone for Tr { fn clone(&self) -> Tr { Tr::new(self.get("read")) } }
impl PartialEq for Tr { fn eq(&self, o: &Tr) -> bool { self.get("read") == o.get("read") } }
impl std::fmt::Debug for Tr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.get("read")) } }
impl std::fmt::Display for Tr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.get("read")) } }
macro_rules! op { ($($t:ident $f:ident $ta:ident $fa:ident $w:ident;)*) => { $(
    impl std::ops::$t for Tr { type Output = Tr; fn $f(self, o: Tr) -> Tr { Tr::new(self.get("read").$w(o.get("read"))) } }
    impl std::ops::$ta for Tr { fn $fa(&mut self, o: Tr) { let v = self.get("read").$w(o.get("read")); self.set(v); } }
)* } }
op! { Add add AddAssign add_assign wrapping_add; Sub sub SubAssign sub_assign wrapping_sub; Mul mul MulAssign mul_assign wrapping_mul; Div div DivAssign div_assign sdiv; }
trait SDiv { fn sdiv(self, o: i64) -> i64; }
impl SDiv for i64 { fn sdiv(self, o: i64) -> i64 { if o == 0 { 0 } else { self.wrapping_div(o) } } }
impl std::ops::Neg for Tr { type Output = Tr; fn neg(self) -> Tr { Tr::new(self.get("read").wrapping_neg()) } }
impl Zero for Tr { fn zero() -> Tr { Tr::new(0) } }
impl One for Tr { fn one() -> Tr { Tr::new(1) } }
impl Symbol for Tr { fn symbol() -> String { "T".into() } }
impl std::iter::Sum for Tr { fn sum<I: Iterator<Item = Tr>>(i: I) -> Tr { i.fold(Tr::zero(), |a, b| a + b) } }
impl std::iter::Product for Tr { fn product<I: Iterator<Item = Tr>>(i: I) -> Tr { i.fold(Tr::one(), |a, b| a * b) } }
impl PID for Tr {
    fn is_prime(self) -> bool { true }
    fn n_prime_factors(self) -> usize { 1 }
    fn euclid_div(self, d: Tr) -> (Tr, Tr) { (self / d, Tr::zero()) }
    fn simplify(self) -> (Tr, Tr) { (Tr::one(), self) }
}
impl Field for Tr {}
impl rand::distributions::Distribution<Tr> for rand::distributions::Standard { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> Tr { Tr::new(r.gen::<i32>() as i64) } }

fn grid(r: &mut Rng, n: usize, m: usize) -> Vec<Vec<Tr>> { (0..n).map(|_| (0..m).map(|_| Tr::new(r.range(-9, 9))).collect()).collect() }
fn read_all(v: &SubMatrix<Tr>) -> i64 { let (n, m) = v.size(); let mut s = 0i64; for i in 0..n { for j in 0..m { s = s.wrapping_add(v[(i, j)].get("read")); } } s }

fn program(ctx: &mut Ctx) -> Res {
    REG.with(|r| { let mut r = r.borrow_mut(); let next = r.next; *r = Reg { next, ..Reg::default() }; });
    let top = if ctx.thorough { 9 } else { 5 };
    let mut log = String::new();
    let mut pool: Vec<Matrix<Tr>> = vec![];
    let mut sp: Vec<SparseMatrix<Tr>> = vec![];
    let mut err: Res = Ok(());
    let steps = ctx.rng.size(4, if ctx.thorough { 60 } else { 30 });
    for _ in 0..steps {
        let r = &mut ctx.rng;
        let (n, m) = if r.chance(1, 150) { let l = r.size(17, 70); let t = r.size(1, 20); if r.bool() { (l, t) } else { (t, l) } } else { (r.size(1, top), r.size(1, top)) };
        let op = if pool.is_empty() { r.below(4) } else { r.below(30) };
        let pi = if pool.is_empty() { 0 } else { r.below(pool.len()) };
        let pj = if pool.is_empty() { 0 } else { r.below(pool.len()) };
        log += &format!("{}({},{},{},{}) ", op, n, m, pi, pj);
        let (s1, s2) = if pool.is_empty() { ((1, 1), (1, 1)) } else { (pool[pi].size_as_range(), pool[pj].size_as_range()).into_sizes() };
        // calls the code refuses (a panic) are legal here: only memory is watched
        macro_rules! add { ($e:expr) => { if let Ok(x) = guard(|| $e) { pool.push(x); } } }
        match op {
            0 => { let g = grid(r, n, m); add!(Matrix::from_array(g)) }
            1 => add!(Matrix::zero(n, m)),
            2 => add!(Matrix::identity(n)),
            3 => { if r.bool() { add!(Matrix::random(n, m)) } else { add!(Matrix::random_symmetric(n, if r.chance(1, 4) { m } else { n })) } }
            4 => { let x = pool.swap_remove(pi); drop(x); }
            5 => add!(pool[pi].clone()),
            6 => { let x = pool.swap_remove(pi); add!(x.transpose()) }
            7 => add!(&*pool[pi] + &*pool[pj]),
            8 => add!(pool[pi].clone() + pool[pj].clone()),
            9 => add!(&*pool[pi] - pool[pj].clone()),
            10 => add!(&*pool[pi] * &*pool[pj]),
            11 => add!(&*pool[pi] * SubMatrix::transpose(&*pool[pj])),
            12 => add!(pool[pi].clone() * pool[pj].clone()),
            13 => add!(pool[pi].clone() * Tr::new(3)),
            14 => add!(&*pool[pi] * Tr::new(-2)),
            15 => { let _ = guard(|| pool[pi] *= Tr::new(2)); }
            16 => { let y = pool[pj].clone(); let _ = guard(|| pool[pi] += y); }
            17 => { let y = pool[pj].clone(); let _ = guard(|| pool[pi] -= &*y); }
            18 => { let (a, b) = (r.below(s1.0 + 1), r.below(s1.0 + 1)); let _ = guard(|| pool[pi].swap_rows(a, b)); }
            19 => { let (a, b) = (r.below(s1.1 + 1), r.below(s1.1 + 1)); let _ = guard(|| pool[pi].swap_cols(a, b)); }
            20 => { let (a, b) = (r.below(s1.0 + 1), r.below(s1.0)); let _ = guard(|| pool[pi].row_operation(a, b, Tr::new(2))); }
            21 => { let (a, b) = (r.below(s1.1), r.below(s1.1 + 1)); let _ = guard(|| pool[pi].col_operation(a, b, Tr::new(2))); }
            22 => { // nested views, read, copied
                let (a, b) = (R1::gen(r, s1.0, true), R1::gen(r, s1.1, true));
                let t = r.bool();
                let x = guard(|| { let v = view(&*pool[pi], a, b); let v = if t { v.transpose() } else { v }; read_all(v); v.as_matrix() });
                if let Ok(x) = x { read_all(&x); if x.size_as_range().0.len() > 0 && x.size_as_range().1.len() > 0 { pool.push(x); } }
            }
            23 => { // write through a view
                let (a, b) = (R1::gen(r, s1.0, true), R1::gen(r, s1.1, true));
                let (ra, rb) = (a.bounds(s1.0), b.bounds(s1.1));
                if ra.1 > ra.0 && rb.1 > rb.0 {
                    let g = grid(r, ra.1 - ra.0, rb.1 - rb.0);
                    let _ = guard(|| { let w = Matrix::from_array(g); view_mut(&mut *pool[pi], a, b).write(&w) });
                }
            }
            24 => { let (i, j, v) = (r.below(s1.0 + 2), r.below(s1.1 + 2), r.range(-9, 9)); let _ = guard(|| pool[pi][(i, j)] = Tr::new(v)); }
            25 => { let _ = guard(|| format!("{:?} {}", pool[pi], pool[pj])); let _ = guard(|| *pool[pi] == *pool[pj]); }
            26 => { let (a, b) = (r.below(s1.0), r.below(s2.1)); let _ = guard(|| pool[pi][(a, ..)].dot(&pool[pj][(.., b)])); }
            27 => { // ragged input is refused without touching foreign memory
                let mut g = grid(r, n, m); let i = r.below(n); if r.bool() { g[i].pop(); } else { g[i].push(Tr::new(5)); }
                if n > 1 { add!(Matrix::from_array(g)) } else { drop(g) }
            }
            28 => { // out of range accesses
                let (i, j) = (s1.0 + r.below(3), s1.1 + r.below(3));
                let _ = guard(|| read_all(&pool[pi][(i.., ..)])); let _ = guard(|| read_all(&pool[pi][(.., ..=j)])); let _ = guard(|| pool[pi][(i, 0)].get("read")); let _ = guard(|| pool[pi][(0, j)].get("read")); let _ = guard(|| read_all(&pool[pi][(.., j)]));
                let _ = guard(|| { let (a, b) = (s1.0, r.below(s1.0)); read_all(&pool[pi][(a..b, ..)]) });
            }
            _ => { // sparse matrices share their nodes between copies
                let g = grid(r, n, m); let d = r.size(1, 3);
                let mask: Vec<Vec<bool>> = (0..n).map(|_| (0..m).map(|_| r.chance(d, 3)).collect()).collect();
                if let Ok(s) = guard(|| SparseMatrix::from(((n, m), |(i, j): (usize, usize)| if mask[i][j] { Some(g[i][j].clone()) } else { None }))) {
                    let t = s.clone().transpose(); let tt = r.bool(); sp.push(s); if tt { sp.insert(0, t); }
                }
                if sp.len() > 3 { let k = r.below(sp.len()); sp.swap_remove(k); }
                for s in &sp { let (n, m) = s.size(); for i in 0..n { let _ = guard(|| s.row_iter(i).map(|(_, v)| v.get("read")).fold(0i64, |a, b| a.wrapping_add(b))); } for j in 0..m { let _ = guard(|| s.col_iter(j).count()); } }
                if sp.len() > 1 { add!(sp[0].clone() * sp[1].clone()); add!(sp[1].clone() * pool[pi].clone()); }
            }
        }
        if pool.len() > 6 { pool.remove(0); }
        for x in &pool { read_all(x); }
        ctx.see("operations on matrices of tracked elements");
        let bad = REG.with(|r| r.borrow().bad.first().cloned());
        if let Some(b) = bad { err = fail("mem:element", format!("after {}: {}", log, b)); break; }
    }
    drop(pool); drop(sp);
    if err.is_ok() { let bad = REG.with(|r| r.borrow().bad.first().cloned()); if let Some(b) = bad { err = fail("mem:element", format!("at the end of {}: {}", log, b)); } }
    let (made, dropped) = REG.with(|r| { let r = r.borrow(); (r.made, r.dropped) });
    ctx.see_n("elements created", made); ctx.see_n("elements dropped", dropped);
    ctx.input(format!("program {}", log), made > 20);
    err
}
trait IntoSizes { fn into_sizes(self) -> ((usize, usize), (usize, usize)); }
type Rg = (std::ops::Range<usize>, std::ops::Range<usize>);
impl IntoSizes for (Rg, Rg) { fn into_sizes(self) -> ((usize, usize), (usize, usize)) { ((self.0 .0.len(), self.0 .1.len()), (self.1 .0.len(), self.1 .1.len())) } }

/// extreme shapes: single rows and columns, empty views, sizes around the limit of the view metadata
fn shapes(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let big = *r.pick(&[255usize, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072]);
    let (n, m) = if r.bool() { (big, r.size(1, 2)) } else { (r.size(1, 2), big) };
    ctx.input(format!("{}x{} matrix", n, m), true);
    let x = guard(|| Matrix::<i64>::zero(n, m));
    let mut x = match x { Ok(x) => x, Err(_) => { ctx.see("sizes refused"); return Ok(()); } };
    ctx.see("large matrices");
    check!(x.size_as_range() == (0..n, 0..m), "mem:size", "a {}x{} matrix reports the size {:?}", n, m, x.size_as_range());
    x[(n - 1, m - 1)] = 7;
    check!(x[(n - 1, m - 1)] == 7, "mem:size", "last entry of a {}x{} matrix", n, m);
    for t in [false, true] {
        let v = if t { SubMatrix::transpose(&*x) } else { &*x };
        let (a, b) = v.size();
        check!((a, b) == if t { (m, n) } else { (n, m) }, "mem:size", "view of {}x{} has size {:?}", n, m, (a, b));
        let w = must("view", || &v[(a - 1.., b - 1..)])?;
        check!(w.size() == (1, 1) && w[(0, 0)] == 7, "mem:size", "last corner of {}x{}", a, b);
        let mut s = 0; for i in 0..a { s += v[(i, b - 1)]; } check!(s == 7, "mem:size", "column of {}x{}", a, b);
        let e = must("view", || &v[(a.., ..)])?; check!(e.size().0 == 0, "mem:size", "empty view");
    }
    let y = must("clone", || x.clone().transpose())?; check!(y[(m - 1, n - 1)] == 7, "mem:size", "transpose of a copy");
    Ok(())
}

/// the allocator of the whole program: while a thread is watched, it follows the layout of every block of that thread
pub struct Watch;
#[derive(Default)]
struct Blocks { live: std::collections::BTreeMap<usize, (usize, usize)>, bad: Option<(&'static str, usize, usize, usize, usize)>, n: u64 }
thread_local! {
    static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static BLOCKS: RefCell<Blocks> = const { RefCell::new(Blocks { live: std::collections::BTreeMap::new(), bad: None, n: 0 }) };
}
use std::alloc::{GlobalAlloc, Layout, System};
fn hook(f: impl FnOnce(&mut Blocks)) {
    if ON.try_with(|o| o.replace(false)).unwrap_or(false) { let _ = BLOCKS.try_with(|b| f(&mut b.borrow_mut())); ON.with(|o| o.set(true)); }
}
// SAFETY: every call is passed on to the system allocator
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook(|b| if l.size() == 0 { b.bad = b.bad.or(Some(("a block of size zero is requested", 0, l.align(), 0, 0))); });
        let p = System.alloc(l);
        hook(|b| { b.n += 1; b.live.insert(p as usize, (l.size(), l.align())); });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hook(|b| if let Some((s, a)) = b.live.remove(&(p as usize)) { if (s, a) != (l.size(), l.align()) { b.bad = b.bad.or(Some(("a block is released with another layout than it was requested with", l.size(), l.align(), s, a))); } });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hook(|b| if let Some((s, a)) = b.live.remove(&(p as usize)) { if (s, a) != (l.size(), l.align()) { b.bad = b.bad.or(Some(("a block is resized with another layout than it was requested with", l.size(), l.align(), s, a))); } });
        let q = System.realloc(p, l, n);
        hook(|b| { b.live.insert(q as usize, (n, l.align())); });
        q
    }
}
/// run with every block followed: the first wrong layout, the number of blocks requested, and the blocks left over
fn watched(f: impl FnOnce()) -> (Option<(&'static str, usize, usize, usize, usize)>, u64, Vec<(usize, usize)>) {
    BLOCKS.with(|b| *b.borrow_mut() = Blocks::default());
    ON.with(|o| o.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|o| o.set(false));
    let b = BLOCKS.with(|b| std::mem::take(&mut *b.borrow_mut()));
    // what a panic leaves behind is no matter of matrices
    (b.bad, b.n, if r.is_ok() { b.live.values().copied().collect() } else { vec![] })
}

/// storage: requested and released with the same layout, and nothing left when the matrices are gone
fn storage(ctx: &mut Ctx) -> Res {
    let top = if ctx.thorough { 9 } else { 6 };
    let r = &mut ctx.rng;
    let (n, m, k) = (r.size(1, top), r.size(1, top), r.size(1, top));
    let mut int = |n: usize, m: usize| -> Vec<Vec<i64>> { (0..n).map(|_| (0..m).map(|_| r.range(-5, 5)).collect()).collect() };
    let (a, b, c) = (int(n, m), int(m, k), int(n, m));
    let fl = |v: &Vec<Vec<i64>>| -> Vec<Vec<f64>> { v.iter().map(|r| r.iter().map(|&x| x as f64).collect()).collect() };
    let s: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (a[i.max(j)][i.min(j) % m] + if i == j { 9 } else { 0 }) as f64).collect()).collect();
    let (x, y) = (ctx.rng.below(n), ctx.rng.below(m));
    let which = ctx.rng.below(4);
    ctx.input(format!("storage of {}x{} and {}x{}, workload {}", n, m, m, k, which), n * m > 1);
    std::hint::black_box(rand::random::<u8>()); // the random generator keeps its state
    let (bad, blocks, left) = watched(|| match which {
        0 => { // integers
            let (p, q, mut w) = (Matrix::from_array(a.clone()), Matrix::from_array(b.clone()), Matrix::from_array(c.clone()));
            let t = p.clone().transpose(); let u = t.clone() * p.clone(); let v = &*p * &*q; let z = (v.clone() * 3i64).transpose();
            w += p.clone(); w -= &*p; w *= 2; w.write(&p); w[(x, ..)].write(&p[(x, ..)]); w.swap_rows(0, x); w.swap_cols(0, y); w.row_operation(x, 0, 2); w.col_operation(y, 0, 3);
            let e = [Matrix::<i64>::zero(n, k), Matrix::identity(m), u, v, z, t.transpose(), w[(.., y)].as_matrix(), w[(x.., ..y)].as_matrix(), w.transpose().transpose(), p.clone() + p.clone(), p.clone() - &*p, -1 * &*p];
            let f = e.iter().map(|m| format!("{}{:?}", m, m).len()).sum::<usize>(); std::hint::black_box(f);
        }
        1 => { let p = Matrix::from_array(a.clone()); std::hint::black_box(p.smith_normal_form()); }
        2 => { // floats
            let p = Matrix::from_array(s.clone()); let g = Matrix::from_array(fl(&a));
            std::hint::black_box((p.clone().det(), p.clone().transpose().spectrum_symmetric(), p.clone().spectrum_with_invariant_space_symmetric(), p.clone().solve(g[(.., y)].as_matrix()), g[(.., y)].householder_vec(), Matrix::<f64>::random(n, m), Matrix::<f64>::random_symmetric(n, n), p.clone() / 2.0));
            let mut h = p.clone(); h.hessenberg_form(); let mut l = p.clone().transpose(); l.symmetric_qr(true);
        }
        _ => { // lists of entries
            let p = SparseMatrix::from(((n, m), |(i, j): (usize, usize)| if a[i][j] > 0 { Some(a[i][j]) } else { None }));
            let q = SparseMatrix::from(((m, k), |(i, j): (usize, usize)| if b[i][j] > 0 { Some(b[i][j]) } else { None }));
            let t = p.clone().transpose(); let u = p.clone() * q.clone(); let v = p * Matrix::from_array(b.clone()); let w = Matrix::from_array(c.clone()) * q;
            std::hint::black_box((t, u.transpose(), v, w));
        }
    });
    ctx.see_n("blocks whose layout was followed", blocks);
    if let Some((what, s, a, s0, a0)) = bad { return fail("mem:layout", format!("{} ({} bytes aligned to {}, first {} bytes aligned to {}), workload {} with {}x{} and {}x{}: {:?} {:?}", what, s, a, s0, a0, which, n, m, m, k, a, b)); }
    check!(left.is_empty(), "mem:leak", "{} blocks are not released, such as one of {} bytes, workload {} with {}x{} and {}x{}", left.len(), left[0].0, which, n, m, m, k);
    Ok(())
}

pub fn c19(ctx: &mut Ctx) -> Res {
    // the behaviour of these workloads is decided by their own properties; here the sanitizer watches
    let inner: Option<(&str, fn(&mut Ctx) -> Res)> = match ctx.idx % 16 {
        0 => Some(("dense", crate::p_dense::c17)), 1 => Some(("views", crate::p_dense::c18)), 2 => Some(("sparse", crate::p_sparse::c20)),
        3 => Some(("fixed size", crate::p_sparse::c21)), 4 => Some(("smith normal form", crate::p_snf::c05)), 5 => Some(("linear systems", crate::p_lin::c22)),
        6 => Some(("reductions", crate::p_lin::c23)), 7 => Some(("eigenvalues", crate::p_lin::c24)), 8 => Some(("symmetric eigenvalues", crate::p_lin::c25)), 9 => Some(("lattices", crate::p_lin::c26)),
        _ => None,
    };
    if let Some((w, f)) = inner {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
        ctx.see(&format!("{} workloads under the sanitizer", w));
        if !matches!(r, Ok(Ok(()))) { ctx.see("inner workloads that failed for another property"); }
        return Ok(());
    }
    if ctx.idx % 16 == 10 { return shapes(ctx); }
    if ctx.idx % 16 == 11 { return storage(ctx); }
    program(ctx)
}
