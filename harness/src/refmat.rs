//! Reference linear algebra over i128 / prime fields, independent of the code under test.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RM { pub n: usize, pub m: usize, pub a: Vec<Vec<i128>> }
impl RM {
    pub fn new(n: usize, m: usize) -> RM { RM { n, m, a: vec![vec![0; m]; n] } }
    pub fn id(n: usize) -> RM { let mut r = RM::new(n, n); for i in 0..n { r.a[i][i] = 1; } r }
    pub fn mul(&self, o: &RM) -> RM {
        assert_eq!(self.m, o.n);
        let mut r = RM::new(self.n, o.m);
        for i in 0..self.n { for k in 0..self.m { let x = self.a[i][k]; if x != 0 { for j in 0..o.m { r.a[i][j] += x * o.a[k][j]; } } } }
        r
    }
    pub fn is_zero(&self) -> bool { self.a.iter().all(|r| r.iter().all(|&x| x == 0)) }
    pub fn transpose(&self) -> RM { let mut r = RM::new(self.m, self.n); for i in 0..self.n { for j in 0..self.m { r.a[j][i] = self.a[i][j]; } } r }
    pub fn show(&self) -> String { format!("{}x{} [{}]", self.n, self.m, self.a.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; ")) }
}
pub const P1: u64 = 2305843009213693951; // 2^61-1
pub const P2: u64 = 1000000007;
fn mulm(a: u64, b: u64, p: u64) -> u64 { (a as u128 * b as u128 % p as u128) as u64 }
pub fn powm(mut a: u64, mut e: u64, p: u64) -> u64 { let mut r = 1u64; a %= p; while e > 0 { if e & 1 == 1 { r = mulm(r, a, p); } a = mulm(a, a, p); e >>= 1; } r }
pub fn rank_mod(m: &RM, p: u64) -> usize {
    let mut a: Vec<Vec<u64>> = m.a.iter().map(|r| r.iter().map(|&x| x.rem_euclid(p as i128) as u64).collect()).collect();
    let mut r = 0;
    for c in 0..m.m {
        let Some(k) = (r..m.n).find(|&k| a[k][c] != 0) else { continue };
        a.swap(r, k);
        let inv = powm(a[r][c], p - 2, p);
        for x in c..m.m { a[r][x] = mulm(a[r][x], inv, p); }
        let piv = a[r].clone();
        for k in r + 1..m.n { let f = a[k][c]; if f != 0 { for x in c..m.m { a[k][x] = (a[k][x] + p - mulm(f, piv[x], p)) % p; } } }
        r += 1;
        if r == m.n { break; }
    }
    r
}
pub fn rank_q(m: &RM) -> usize { rank_mod(m, P1).max(rank_mod(m, P2)) }
/// invariant factors (non-negative, non-zero) by an independent elimination with smallest pivots; None on overflow
pub fn invariant_factors(m: &RM) -> Option<Vec<i128>> {
    let mut a = m.a.clone(); let (n, mm) = (m.n, m.m);
    let lim: i128 = 1 << 100;
    let mut t = 0; let mut d = vec![];
    while t < n && t < mm {
        loop {
            // smallest non-zero entry becomes the pivot
            let mut best: Option<(usize, usize)> = None;
            for i in t..n { for j in t..mm { if a[i][j] != 0 && best.map_or(true, |(x, y)| a[i][j].abs() < a[x][y].abs()) { best = Some((i, j)); } } }
            let Some((pi, pj)) = best else { d.sort(); return Some(fix(d)); };
            a.swap(t, pi); for r in a.iter_mut() { r.swap(t, pj); }
            let p = a[t][t]; let mut clean = true;
            for i in t + 1..n { let q = a[i][t].div_euclid(p); if q != 0 { for j in t..mm { let v = a[t][j]; a[i][j] = a[i][j].checked_sub(q.checked_mul(v)?)?; if a[i][j].abs() > lim { return None; } } } if a[i][t] != 0 { clean = false; } }
            for j in t + 1..mm { let q = a[t][j].div_euclid(p); if q != 0 { for i in t..n { let v = a[i][t]; a[i][j] = a[i][j].checked_sub(q.checked_mul(v)?)?; if a[i][j].abs() > lim { return None; } } } if a[t][j] != 0 { clean = false; } }
            if clean { break; }
        }
        d.push(a[t][t].abs()); t += 1;
    }
    Some(fix(d))
}
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
fn fix(mut d: Vec<i128>) -> Vec<i128> {
    // turn a diagonal into invariant factors d1 | d2 | ...
    for i in 0..d.len() { for j in i + 1..d.len() { let g = gcd(d[i], d[j]); let l = d[i] / g * d[j]; d[i] = g; d[j] = l; } }
    d
}
/// determinant mod a prime
pub fn det_mod(m: &RM, p: u64) -> u64 {
    let mut a: Vec<Vec<u64>> = m.a.iter().map(|r| r.iter().map(|&x| x.rem_euclid(p as i128) as u64).collect()).collect();
    let n = m.n; let mut d = 1u64;
    for c in 0..n {
        let Some(k) = (c..n).find(|&k| a[k][c] != 0) else { return 0 };
        if k != c { a.swap(c, k); d = (p - d) % p; }
        d = mulm(d, a[c][c], p);
        let inv = powm(a[c][c], p - 2, p); let piv = a[c].clone();
        for k in c + 1..n { let f = mulm(a[k][c], inv, p); if f != 0 { for x in c..n { a[k][x] = (a[k][x] + p - mulm(f, piv[x], p)) % p; } } }
    }
    d
}
/// X with A X = B modulo a prime, lifted to the symmetric range; A has full column rank modulo p. None if there is none
pub fn solve_mod(a: &RM, b: &RM, p: u64) -> Option<RM> {
    let w = a.m + b.m;
    let mut t: Vec<Vec<u64>> = (0..a.n).map(|i| a.a[i].iter().chain(&b.a[i]).map(|&x| x.rem_euclid(p as i128) as u64).collect()).collect();
    for c in 0..a.m {
        let k = (c..a.n).find(|&k| t[k][c] != 0)?; t.swap(c, k);
        let inv = powm(t[c][c], p - 2, p); for x in c..w { t[c][x] = mulm(t[c][x], inv, p); }
        let piv = t[c].clone();
        for k in 0..a.n { let f = t[k][c]; if k != c && f != 0 { for x in c..w { t[k][x] = (t[k][x] + p - mulm(f, piv[x], p)) % p; } } }
    }
    if t[a.m..].iter().any(|r| r[a.m..].iter().any(|&x| x != 0)) { return None; }
    Some(RM { n: a.m, m: b.m, a: (0..a.m).map(|i| t[i][a.m..].iter().map(|&x| if x > p / 2 { x as i128 - p as i128 } else { x as i128 }).collect()).collect() })
}
