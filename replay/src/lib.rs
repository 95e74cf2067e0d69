//! Bounded witness search / replay driver.  One binary per property:
//!   cXX search SEED BUDGET_MS WORKERS     -> exit 0 (nothing found) or 1 (a failing case, described on stdout)
//!   cXX run CASE                          -> re-runs exactly one case (a u64), exit 1 and a description if it fails
//! A case is a pure function of its u64; every failing case is therefore its own replay.
pub mod big;
pub mod seg;
pub mod strs;
pub mod mods;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct C {
    s: u64,
    pub case: u64,
    pub trace: bool,
    pub log: String,
    pub op: String,
}

#[macro_export]
macro_rules! note { ($c:expr, $($t:tt)*) => { if $c.trace { let s = format!($($t)*); $c.log.push_str(&s); $c.log.push('\n'); } } }

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl C {
    pub fn new(case: u64, trace: bool) -> C {
        C { s: mix(case ^ 0x5851f42d4c957f2d), case, trace, log: String::new(), op: String::new() }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// inclusive
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let w = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.u64() as u128 % w) as i128) as i64
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, k: usize) -> bool {
        self.below(k) == 0
    }
    /// size biased to small values and to the neighbourhood of powers of two
    pub fn size(&mut self, max: usize) -> usize {
        let r = self.below(20);
        let v = match r {
            0..=11 => self.below(9),
            12..=14 => {
                let k = self.below(11);
                (1usize << k).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            15..=17 => self.below(33),
            18 => self.below(100),
            _ => self.below(max + 1),
        };
        v.min(max)
    }
    /// value biased to boundaries of the 64-bit (and smaller) ranges
    pub fn edge_u64(&mut self) -> u64 {
        let r = self.u64();
        match r % 8 {
            0 => (r >> 8) % 4,
            1 => u64::MAX - (r >> 8) % 4,
            2 => {
                let k = (r >> 8) % 64;
                (1u64 << k).wrapping_add((r >> 20) % 3).wrapping_sub(1)
            }
            3 => (r >> 8) % 1000,
            4 => r >> ((r >> 8) % 64),
            5 => (r >> 8) & 0xffff_ffff,
            _ => mix(r),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

pub fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
}

fn one(f: fn(&mut C), case: u64, trace: bool) -> Result<(), (String, String)> {
    let mut c = C::new(case, trace);
    match catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
        Ok(()) => Ok(()),
        Err(e) => Err((panic_text(e), c.log)),
    }
}

fn in_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

/// worker protocol: the current case number is kept in the state file (16 bytes: case, count)
fn worker(f: fn(&mut C), base: u64, first: u64, step: u64, budget: Duration, state: &str) -> i32 {
    use std::os::unix::fs::FileExt;
    let file = std::fs::OpenOptions::new().write(true).create(true).open(state).unwrap();
    let t = Instant::now();
    let mut k = first;
    let mut n = 0u64;
    while t.elapsed() < budget {
        let case = if k < 4096 { k } else { mix(base.wrapping_mul(0x1000003).wrapping_add(k)) };
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&case.to_le_bytes());
        b[8..].copy_from_slice(&n.to_le_bytes());
        let _ = file.write_at(&b, 0);
        if one(f, case, false).is_err() {
            return 1;
        }
        k += step;
        n += 1;
    }
    let _ = file.write_at(&[&0u64.to_le_bytes()[..], &n.to_le_bytes()[..]].concat(), 0);
    0
}

fn read_state(p: &str) -> (u64, u64) {
    let mut b = [0u8; 16];
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read(&mut b);
    }
    (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()))
}

const HANG: Duration = Duration::from_secs(15);

extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }

/// run one case in a child: Some(description) if it fails (panic, wrong answer, crash or hang)
fn run_child(case: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe).args(["run1", &case.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let mut out = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || { let mut s = Vec::new(); let _ = out.read_to_end(&mut s); String::from_utf8_lossy(&s).to_string() });
    let t = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                let s = h.join().unwrap();
                return match st.code() {
                    Some(0) => None,
                    Some(1) => Some(s),
                    x => Some(format!("{}\nthe call crashed (exit {:?})", s, x)),
                };
            }
            None if t.elapsed() > HANG => {
                let _ = ch.kill();
                let _ = ch.wait();
                let s = h.join().unwrap();
                return Some(format!("{}\nthe call did not finish within {:?}", s, HANG));
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

pub fn main(f: fn(&mut C)) {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("REPLAY_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            unsafe { setrlimit(9, &[6 << 30, 6 << 30]); }
            let (base, first, step, ms, st) = (n(2), n(3), n(4), n(5), a[6].clone());
            let r = in_thread(move || worker(f, base, first, step, Duration::from_millis(ms), &st));
            std::process::exit(r);
        }
        Some("run1") => {
            unsafe { setrlimit(9, &[6 << 30, 6 << 30]); }
            let case = n(2);
            let r = in_thread(move || one(f, case, false));
            match r {
                Ok(()) => std::process::exit(0),
                Err((e, _)) => {
                    let r = in_thread(move || one(f, case, true));
                    let log = r.err().map(|x| x.1).unwrap_or_default();
                    let mut l = log;
                    if l.len() > 6000 {
                        let mut cut = 6000;
                        while !l.is_char_boundary(cut) { cut -= 1; }
                        l.truncate(cut);
                        l.push_str("...");
                    }
                    println!("case {}\n{}\nfailure: {}", case, l, e);
                    std::process::exit(1)
                }
            }
        }
        Some("run") => match run_child(n(2)) {
            None => { println!("case {} passes", n(2)); }
            Some(s) => { println!("{}", s); std::process::exit(1) }
        },
        Some("search") => {
            let (base, ms, w) = (n(2), n(3), n(4).max(1));
            let exe = std::env::current_exe().unwrap();
            let dir = std::env::temp_dir().join(format!("replay.{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let st: Vec<String> = (0..w).map(|i| dir.join(format!("w{}", i)).to_string_lossy().to_string()).collect();
            let mut ch: Vec<_> = (0..w as usize)
                .map(|i| {
                    let c = std::process::Command::new(&exe)
                        .args(["worker", &base.to_string(), &i.to_string(), &w.to_string(), &ms.to_string(), &st[i]])
                        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
                    (Some(c), (0u64, 0u64), Instant::now())
                })
                .collect();
            let mut bad: Option<u64> = None;
            let mut total = 0;
            while bad.is_none() && ch.iter().any(|x| x.0.is_some()) {
                std::thread::sleep(Duration::from_millis(10));
                for i in 0..ch.len() {
                    let cur = read_state(&st[i]);
                    let e = &mut ch[i];
                    if let Some(p) = e.0.as_mut() {
                        if let Some(s) = p.try_wait().unwrap() {
                            if s.code() != Some(0) { bad = Some(cur.0); }
                            total += cur.1;
                            e.0 = None;
                        } else if cur != e.1 {
                            e.1 = cur;
                            e.2 = Instant::now();
                        } else if e.2.elapsed() > HANG {
                            bad = Some(cur.0);
                        }
                    }
                }
            }
            for e in ch.iter_mut() {
                if let Some(p) = e.0.as_mut() { let _ = p.kill(); let _ = p.wait(); }
            }
            let _ = std::fs::remove_dir_all(&dir);
            match bad {
                None => { println!("CASES {}", total); }
                Some(c) => match run_child(c) {
                    Some(s) => { println!("FAIL {}\n{}", c, s); std::process::exit(1) }
                    None => { println!("FLAKY {}", c); println!("CASES {}", total); std::process::exit(4) }
                },
            }
        }
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
    let _ = std::io::stdout().flush();
}

// ---------------------------------------------------------------- shared generators
/// A tree on n >= 1 vertices: (adjacency, root, parent) with or without back edges
pub fn tree(c: &mut C, n: usize) -> (Vec<Vec<usize>>, usize, Vec<usize>) {
    let kind = c.below(6);
    let mut par = vec![0usize; n];
    for i in 1..n {
        par[i] = match kind {
            0 => i - 1,
            1 => 0,
            2 => (i - 1) / 2,
            3 => if i % 2 == 1 { i.saturating_sub(2) } else { i - 1 },
            4 => i - 1 - c.below(i.min(3)),
            _ => c.below(i),
        };
    }
    let mut name: Vec<usize> = (0..n).collect();
    if c.coin() { c.shuffle(&mut name); }
    let mut g = vec![vec![]; n];
    let back = c.coin();
    let mut p = vec![0; n];
    p[name[0]] = name[0];
    for i in 1..n {
        g[name[par[i]]].push(name[i]);
        if back { g[name[i]].push(name[par[i]]); }
        p[name[i]] = name[par[i]];
    }
    for i in 0..n {
        let mut v = std::mem::take(&mut g[i]);
        c.shuffle(&mut v);
        g[i] = v;
    }
    (g, name[0], p)
}
/// path u..root
pub fn up(p: &Vec<usize>, mut u: usize) -> Vec<usize> {
    let mut r = vec![u];
    while p[u] != u { u = p[u]; r.push(u); }
    r
}
