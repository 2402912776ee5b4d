//! Runtime-monitoring core: seeded cases, panic capture, CPU-time watchdog, worker processes,
//! evidence, replay files and known findings.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b { h ^= x as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut t = h; splitmix(&mut t)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    /// uniform in [a, b]
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.u64() % ((b - a + 1) as u64)) as i64 }
    pub fn size(&mut self, a: usize, b: usize) -> usize { self.range(a as i64, b as i64) as usize }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn f01(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f01() }
    pub fn normal(&mut self) -> f64 {
        let u = self.f01().max(1e-300); let v = self.f01();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); self.shuffle(&mut v); v }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

// ---------------------------------------------------------------- case context
#[derive(Clone, Debug)]
pub struct Violation { pub sig: String, pub detail: String }
pub type Res = Result<(), Violation>;
pub fn viol(sig: impl Into<String>, detail: impl Into<String>) -> Violation { Violation { sig: sig.into(), detail: detail.into() } }
pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> { Err(viol(sig, detail)) }

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::core::viol($sig, format!($($arg)*))); } };
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    /// human-readable input of this case
    pub input: String,
    /// set when the case is non-trivial: hash of its input
    pub key: Option<u64>,
    pub obs: BTreeMap<String, u64>,
    pub inconclusive: bool,
}
impl Ctx {
    /// Describe the input of the case (replay, sample and distinctness key).
    pub fn input(&mut self, s: String, nontrivial: bool) {
        let h = hash_bytes(s.as_bytes());
        if nontrivial { self.key = Some(h); }
        self.input = s;
        if let Ok(mut g) = CUR_INPUT.lock() { *g = self.input.clone(); }
    }
    /// count a monitored event
    pub fn see(&mut self, what: &str) { self.see_n(what, 1) }
    pub fn see_n(&mut self, what: &str, n: u64) { *self.obs.entry(what.to_string()).or_insert(0) += n; }
}

static CUR_INPUT: Mutex<String> = Mutex::new(String::new());
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// Run code under test; a panic becomes Err(message @ location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// Run code under test that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    guard(f).map_err(|m| viol(format!("panic:{}", what), format!("{} panicked: {}", what, m)))
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds one case may take before it is re-run alone (with three times that)
    pub case_cpu: i64,
    pub f: fn(&mut Ctx) -> Res,
}

fn run_case(p: &PropDef, seed: u64, idx: u64, thorough: bool) -> (Ctx, Res) {
    let mut x = seed ^ hash_bytes(p.id.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    let rng = Rng::new(splitmix(&mut y));
    let mut ctx = Ctx { rng, idx, thorough, input: String::new(), key: None, obs: BTreeMap::new(), inconclusive: false };
    let r = match catch_unwind(AssertUnwindSafe(|| (p.f)(&mut ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic:unguarded", format!("panicked: {}", m))
        }
    };
    (ctx, r)
}

// ---------------------------------------------------------------- OS bits
#[repr(C)] struct Timespec { s: i64, n: i64 }
#[repr(C)] struct Rlimit { cur: u64, max: u64 }
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
}
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}
fn clock_ms(c: i32) -> i64 { let mut t = Timespec { s: 0, n: 0 }; unsafe { clock_gettime(c, &mut t) }; t.s * 1000 + t.n / 1_000_000 }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c {
        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new(); let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { match it.next() {
        Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'), Some('u') => { let h: String = it.by_ref().take(4).collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?')); }
        Some(x) => o.push(x), None => {} } } else { o.push(c) } }
    o
}
fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { let t: String = s.chars().take(n).collect(); format!("{}… ({} chars)", t, s.chars().count()) } }

const MARK: &str = "@TV@";

// ---------------------------------------------------------------- worker
/// worker PROP SEED TIER START STEP END WALL_S [CPU_S]
pub fn worker(props: &[PropDef], a: &[String]) -> ! {
    let p = props.iter().find(|p| p.id == a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let start: u64 = a[3].parse().unwrap();
    let step: u64 = a[4].parse().unwrap();
    let end: u64 = a[5].parse().unwrap();
    let wall: u64 = a[6].parse().unwrap();
    let cpu: i64 = if a.len() > 7 { a[7].parse().unwrap() } else { p.case_cpu };
    if std::env::var("TV_NO_RLIMIT").is_err() {
        let l = Rlimit { cur: 3 << 30, max: 3 << 30 };
        unsafe { setrlimit(9, &l); }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", clip(&m, 600), l));
    }));
    let cur = Arc::new(AtomicU64::new(0));
    let case_start = Arc::new(AtomicI64::new(i64::MAX));
    let clk = Arc::new(AtomicI64::new(-1));
    let done = Arc::new(AtomicBool::new(false));
    {
        let (cur, case_start, clk, done) = (cur.clone(), case_start.clone(), clk.clone(), done.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if done.load(Ordering::SeqCst) { return; }
            let c = clk.load(Ordering::SeqCst);
            if c == -1 { continue; }
            let i0 = cur.load(Ordering::SeqCst);
            let st = case_start.load(Ordering::SeqCst);
            if st != i64::MAX && clock_ms(c as i32) - st > cpu * 1000 && i0 == cur.load(Ordering::SeqCst) {
                let inp = CUR_INPUT.try_lock().map(|g| g.clone()).unwrap_or_default();
                eprintln!("{}H\t{}\t{}", MARK, i0, esc(&clip(&inp, 20000)));
                std::process::exit(7);
            }
        });
    }
    let props_p: PropDef = PropDef { id: p.id, rule: p.rule, quick: p.quick, thorough: p.thorough, case_cpu: p.case_cpu, f: p.f };
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut c: i32 = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c); }
        clk.store(c as i64, Ordering::SeqCst);
        let t0 = std::time::Instant::now();
        let mut obs: BTreeMap<String, u64> = BTreeMap::new();
        let mut keys: HashSet<u64> = HashSet::new();
        let mut n = 0u64; let mut incon = 0u64; let mut nviol = 0u64; let mut samples = 0;
        let mut max_ms = 0i64; let mut max_i = 0u64;
        let mut i = start;
        let err = std::io::stderr();
        while i < end {
            if wall > 0 && n > 0 && t0.elapsed().as_secs() >= wall { break; }
            let t = clock_ms(c);
            cur.store(i, Ordering::SeqCst); case_start.store(t, Ordering::SeqCst);
            let _ = err.lock().write_all(format!("{}C\t{}\n", MARK, i).as_bytes());
            let (ctx, r) = run_case(&props_p, seed, i, thorough);
            case_start.store(i64::MAX, Ordering::SeqCst);
            if clock_ms(c) - t > max_ms { max_ms = clock_ms(c) - t; max_i = i; }
            n += 1;
            for (k, v) in ctx.obs { *obs.entry(k).or_insert(0) += v; }
            if let Some(k) = ctx.key { keys.insert(k); if samples < 2 { samples += 1; eprintln!("{}M\t{}\t{}", MARK, i, esc(&clip(&ctx.input, 700))); } }
            if ctx.inconclusive { incon += 1; }
            if let Err(v) = r {
                nviol += 1;
                eprintln!("{}V\t{}\t{}\t{}\t{}", MARK, i, esc(&v.sig), esc(&clip(&v.detail, 4000)), esc(&clip(&ctx.input, 20000)));
                if nviol >= 20 { break; }
            }
            i += step;
            // the library does not return everything it allocates: go on in a fresh process before the memory limit is near
            if n % 256 == 0 && i < end && resident() > 1_600 << 20 { eprintln!("{}R\t{}", MARK, i); break; }
        }
        for (k, v) in &obs { eprintln!("{}O\t{}\t{}", MARK, esc(k), v); }
        let mut ks = String::new();
        for k in keys { ks.push_str(&format!("{:x} ", k)); if ks.len() > 8000 { eprintln!("{}K\t{}", MARK, ks); ks.clear(); } }
        eprintln!("{}K\t{}", MARK, ks);
        eprintln!("{}S\t{}\t{}\t{}\t{}", MARK, n, incon, max_ms, max_i);
    }).unwrap();
    let ok = h.join().is_ok();
    done.store(true, Ordering::SeqCst);
    std::process::exit(if ok { 0 } else { 9 });
}

// ---------------------------------------------------------------- parent
#[derive(Default)]
struct Agg {
    evals: u64, incon: u64, max_ms: i64, max_i: u64,
    keys: HashSet<u64>,
    obs: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    viols: Vec<(u64, Violation, String)>,
    hangs: u64, crashes: u64,
    notes: Vec<String>,
}
enum End { Clean, More(u64), Hang(u64, String), Crash(u64, String, bool) }

fn spawn_worker(exe: &str, args: &[String], agg: &Mutex<Agg>) -> End {
    let mut ch = std::process::Command::new(exe).arg("worker").args(args)
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().expect("spawn");
    let rd = BufReader::new(ch.stderr.take().unwrap());
    let mut last = None; let mut hang = None; let mut more = None; let mut fin = false; let mut tail: Vec<String> = vec![];
    let mut count_started = 0u64;
    for line in rd.split(b'\n') {
        let line = match line { Ok(l) => String::from_utf8_lossy(&l).into_owned(), Err(_) => break };
        let Some(pos) = line.find(MARK) else { if tail.len() < 60 { tail.push(line); } continue };
        let f: Vec<&str> = line[pos + MARK.len()..].split('\t').collect();
        match f[0] {
            "C" => { last = f[1].parse::<u64>().ok(); count_started += 1; }
            "R" => more = f[1].parse::<u64>().ok(),
            "H" => hang = Some((f[1].parse::<u64>().unwrap(), unesc(f[2]))),
            "M" => { let mut a = agg.lock().unwrap(); if a.samples.len() < 12 { a.samples.push((f[1].parse().unwrap(), unesc(f[2]))); } }
            "V" => agg.lock().unwrap().viols.push((f[1].parse().unwrap(), viol(unesc(f[2]), unesc(f[3])), unesc(f[4]))),
            "O" => *agg.lock().unwrap().obs.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "K" => { let mut a = agg.lock().unwrap(); for k in f[1].split_whitespace() { a.keys.insert(u64::from_str_radix(k, 16).unwrap()); } }
            "S" => { fin = true; let mut a = agg.lock().unwrap(); a.evals += f[1].parse::<u64>().unwrap(); a.incon += f[2].parse::<u64>().unwrap(); let ms: i64 = f[3].parse().unwrap(); if ms > a.max_ms { a.max_ms = ms; a.max_i = f[4].parse().unwrap(); } }
            _ => {}
        }
    }
    let st = ch.wait().expect("wait");
    if fin && st.success() { return match more { Some(i) => End::More(i), None => End::Clean }; }
    agg.lock().unwrap().evals += if fin { 0 } else { count_started.saturating_sub(1) };
    if let Some((i, s)) = hang { return End::Hang(i, s); }
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal();
    let t = tail.join("\n");
    let oom = t.contains("memory allocation of");
    let what = match sig { Some(s) => format!("signal {}", s), None => format!("exit {:?}", st.code()) };
    End::Crash(last.unwrap_or(u64::MAX), format!("{}\n{}", what, clip(&t, 3000)), matches!(sig, Some(9 | 15 | 2 | 1)) || (oom && sig.is_none()))
}

pub fn load_known(path: &str, prop: &str) -> Vec<(String, String)> {
    // lines: known<TAB>property=<id><TAB><exact signature><TAB><what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) { for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() >= 4 && f[0] == "known" && f[1] == format!("property={}", prop) { v.push((f[2].to_string(), f[3].to_string())); }
    } }
    v
}

pub struct Extra { pub obs: Vec<(String, u64)>, pub viols: Vec<(String, String)>, pub notes: Vec<String> }

/// check PROP : runs the property's workload, writes evidence, prints the verdict; returns exit code
pub fn check(props: &[PropDef], id: &str) -> i32 {
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let root = std::env::var("TV_ROOT").unwrap_or("/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER") { Ok(t) if t == "thorough" => "thorough", _ => "quick" };
    let n: u64 = std::env::var("TV_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let wall: u64 = std::env::var("TV_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500 } else { 240 });
    let jobs: u64 = std::env::var("TV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    // the workers of some properties run in a sanitizer build of this same program
    let exe = std::env::var("TV_EXE").unwrap_or_else(|_| std::env::current_exe().unwrap().to_string_lossy().into_owned());
    let t0 = std::time::Instant::now();
    let agg = Mutex::new(Agg::default());
    std::thread::scope(|sc| {
        for w in 0..jobs.min(n.max(1)) {
            let (agg, exe) = (&agg, &exe);
            sc.spawn(move || {
                let mut start = w; let mut bad = 0;
                loop {
                    let left = wall.saturating_sub(t0.elapsed().as_secs());
                    if start >= n || (left == 0 && start != w) || bad >= 6 { break; }
                    let mk = |s: u64, st: u64, e: u64, wl: u64, cpu: i64| -> Vec<String> { vec![p.id.into(), seed.to_string(), tier.into(), s.to_string(), st.to_string(), e.to_string(), wl.to_string(), cpu.to_string()] };
                    match spawn_worker(exe, &mk(start, jobs, n, left.max(1), p.case_cpu), agg) {
                        End::Clean => break,
                        End::More(i) => start = i,
                        End::Hang(i, inp) => {
                            bad += 1;
                            let scratch = Mutex::new(Agg::default());
                            match spawn_worker(exe, &mk(i, 1, i + 1, 0, p.case_cpu * 3), &scratch) {
                                End::Hang(_, _) => { let mut a = agg.lock().unwrap(); a.hangs += 1; a.viols.push((i, viol("no-result", format!("the operation gave no result within {} s of CPU time (a case of this workload takes far less than {} s)", p.case_cpu * 3, p.case_cpu)), inp)); }
                                _ => { let mut a = agg.lock().unwrap(); a.incon += 1; a.notes.push(format!("case {} exceeded {} CPU s once and finished when re-run", i, p.case_cpu)); for v in scratch.into_inner().unwrap().viols { a.viols.push(v); } }
                            }
                            start = i + jobs;
                        }
                        End::Crash(i, what, soft) => {
                            bad += 1;
                            if i == u64::MAX { agg.lock().unwrap().notes.push(format!("HARNESS ERROR: {}", what)); break; }
                            let scratch = Mutex::new(Agg::default());
                            let again = spawn_worker(exe, &mk(i, 1, i + 1, 0, p.case_cpu * 3), &scratch);
                            let mut a = agg.lock().unwrap();
                            match again {
                                End::Crash(_, w2, _) => { a.crashes += 1; a.viols.push((i, viol("process-died", format!("the process running the code died: {}", w2)), String::new())); }
                                _ if soft => { a.incon += 1; a.notes.push(format!("case {}: worker ended ({}), not reproduced alone", i, clip(&what, 200))); }
                                _ => { a.crashes += 1; a.viols.push((i, viol("process-died", format!("the process running the code died in a run of cases {}, {}+{}, ..: {}", start, start, jobs, what)), String::new())); }
                            }
                            start = i + jobs;
                        }
                    }
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    finish(&root, id, p.rule, seed, tier, n, &mut a, t0.elapsed().as_secs_f64(), "exploration")
}

fn finish(root: &str, id: &str, rule: &str, seed: u64, tier: &str, n: u64, a: &mut Agg, wall: f64, level: &str) -> i32 {
    a.viols.sort_by_key(|v| v.0);
    a.samples.sort();
    let known = load_known(&format!("{}/known_findings.tsv", root), id);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut fresh: Vec<(u64, Violation, String)> = vec![];
    for v in a.viols.drain(..) {
        if known.iter().any(|(s, _)| *s == v.1.sig) { *known_hit.entry(v.1.sig.clone()).or_insert(0) += 1; } else { fresh.push(v); }
    }
    for (s, w) in &known { println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", id, w, s, known_hit.get(s).unwrap_or(&0)); }
    let obs: Vec<String> = a.obs.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let samples: Vec<String> = a.samples.iter().take(6).map(|(i, s)| format!("\"case {}: {}\"", i, esc(s))).collect();
    let notes: Vec<String> = a.notes.iter().take(20).map(|s| format!("\"{}\"", esc(s))).collect();
    let ev = format!("{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n  \"observed_events\": {{{}}},\n  \"inconclusive_cases\": {},\n  \"planned_cases\": {},\n  \"slowest_case_cpu_ms\": {},\n  \"slowest_case\": {},\n  \"known_findings_seen\": {},\n  \"notes\": [{}]\n }},\n \"assumptions\": [\"oracles in /verif/harness/src are independent of the code under test\", \"holds only for the executions observed\"],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        id, tier, seed as i64, level, a.evals, a.keys.len(), esc(rule), samples.join(", "), obs.join(", "), a.incon, n, a.max_ms, a.max_i, known_hit.values().sum::<u64>(), notes.join(", "), wall, fresh.len());
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, id), ev) { eprintln!("cannot write evidence: {}", e); return 2; }
    for m in &a.notes { eprintln!("note: {}", m); }
    if !fresh.is_empty() {
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let mut seen: HashSet<String> = HashSet::new();
        for (i, v, inp) in &fresh {
            if !seen.insert(v.sig.clone()) || seen.len() > 8 { continue; }
            let slug: String = v.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(40).collect();
            let path = format!("{}/{}-s{}-c{}-{}.txt", dir, id, seed as i64, i, slug);
            let body = format!("property={}\nseed={}\ntier={}\ncase={}\nsignature={}\nreplay: cd /verif && ./check.sh replay {} {} {} {}\ninput:\n{}\nwhat was observed:\n{}\n", id, seed as i64, tier, i, v.sig, id, seed as i64, tier, i, inp, v.detail);
            let _ = std::fs::write(&path, body);
            println!("  [{}] case {}: {}", v.sig, i, clip(&v.detail, 500));
            println!("VIOLATION property={} replay={}", id, path);
        }
        return 1;
    }
    if a.evals == 0 || a.keys.is_empty() { eprintln!("nothing observed"); return 2; }
    println!("OK property={} evaluations={} distinct_nontrivial={} inconclusive={} wall={:.1}s", id, a.evals, a.keys.len(), a.incon, wall);
    0
}

pub fn replay(props: &[PropDef], a: &[String]) -> i32 {
    let p = props.iter().find(|p| p.id == a[0]).expect("property");
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() }; LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", m, l)); }));
    let seed = a[1].parse::<i64>().unwrap() as u64; let th = a[2] == "thorough"; let idx: u64 = a[3].parse().unwrap();
    let p2 = PropDef { id: p.id, rule: p.rule, quick: p.quick, thorough: p.thorough, case_cpu: p.case_cpu, f: p.f };
    let (id, r) = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { let (ctx, r) = run_case(&p2, seed, idx, th); (ctx.input, r) }).unwrap().join().unwrap();
    println!("input:\n{}", id);
    match r { Ok(()) => { println!("held"); 0 } Err(v) => { println!("VIOLATED [{}]\n{}", v.sig, v.detail); 1 } }
}
