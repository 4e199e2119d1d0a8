//! Enumeration driver shared by the sequential engines.
//!
//! A property enumerates its bounded space in a fixed order and hands every
//! element to `Ctx::case`, which numbers it, runs it if it belongs to this
//! process's share (or is the one to replay), and records what happened.
//! A panic, a crash and a case that does not finish are violations of the
//! property that was being exercised.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static BUSY: AtomicBool = AtomicBool::new(false);
static OUT_FD: AtomicI32 = AtomicI32::new(2);
static NAME: Mutex<String> = Mutex::new(String::new());

/// What one case may record while it runs.
pub struct Rec { pub steps: u64, states: HashSet<u64> }
impl Rec {
    pub fn step(&mut self) { self.steps += 1 }
    pub fn steps(&mut self, n: usize) { self.steps += n as u64 }
    /// Notes a (model) state reached.
    pub fn state(&mut self, s: &impl Hash) {
        let mut h = Fnv(0xcbf29ce484222325);
        s.hash(&mut h);
        self.states.insert(h.finish());
    }
}
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
}
pub fn hash_of(s: &impl Hash) -> u64 { let mut h = Fnv(0xcbf29ce484222325); s.hash(&mut h); h.finish() }

pub struct Ctx {
    pub thorough: bool,
    part: u64, parts: u64, only: Option<u64>,
    next: u64, ran: u64, skipped: u64,
    rec: Rec,
    outcomes: HashSet<u64>,
    samples: Vec<(String, String)>,
    violations: Vec<(u64, String, String)>,
    start: Instant, limit: f64, truncated: bool,
}
pub const MAX_VIOLATIONS: usize = 3;

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| { if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{m}{at}") } });
    }));
}
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }
/// Runs code that is expected to return; a panic becomes an error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", last_panic()))
}

extern "C" fn on_signal(sig: i32) {
    // async-signal-safe: only formats into a stack buffer and writes
    let mut buf = [0u8; 96];
    let mut n = 0;
    let mut put = |s: &[u8]| { for b in s { if n < 96 { buf[n] = *b; n += 1 } } };
    let dec = |mut v: u64| { let mut d = [0u8; 20]; let mut i = 20; loop { i -= 1; d[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break } } (d, i) };
    put(b"{\"crash\":");
    let (d, i) = dec(sig as u64); put(&d[i..]);
    put(b",\"case\":");
    let (d, i) = dec(CUR.load(SeqCst)); put(&d[i..]);
    put(b",\"busy\":");
    put(if BUSY.load(SeqCst) { b"true" } else { b"false" });
    put(b"}\n");
    unsafe { libc::write(OUT_FD.load(SeqCst), buf.as_ptr() as *const _, n); libc::_exit(70) }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn cut(s: &str, n: usize) -> String { s.chars().take(n).collect() }

impl Ctx {
    pub fn case(&mut self, name: impl FnOnce() -> String, f: impl FnOnce(&mut Rec) -> Result<String, String>) {
        let i = self.next;
        self.next += 1;
        match self.only {
            Some(o) => if o != i { return },
            None => if i % self.parts != self.part { return },
        }
        if self.violations.len() >= MAX_VIOLATIONS || self.truncated { self.skipped += 1; return }
        if self.ran % 16 == 0 && self.only.is_none() && self.start.elapsed().as_secs_f64() > self.limit { self.truncated = true; self.skipped += 1; return }
        self.ran += 1;
        CUR.store(i, SeqCst);
        let r = {
            let rec = &mut self.rec;
            BUSY.store(true, SeqCst);
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(rec)));
            BUSY.store(false, SeqCst);
            r
        };
        let r = match r { Ok(r) => r, Err(_) => Err(format!("panicked: {}", last_panic())) };
        match r {
            Ok(o) => {
                let h = hash_of(&o);
                if self.outcomes.len() < 2_000_000 && self.outcomes.insert(h) && (self.samples.len() < 3 || (self.samples.len() < 8 && h % 64 == 0)) { self.samples.push((name(), cut(&o, 400))) }
                if self.only.is_some() { let n = NAME.lock().unwrap().clone(); println!("case {i}: held {}\n{}", n, cut(&o, 2000)) }
            }
            Err(m) => { let n = name(); println!("case {i}: {n}\n{}", cut(&m, 3000)); self.violations.push((i, n, cut(&m, 3000))) }
        }
    }
}
fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let c = CUR.load(SeqCst);
            if BUSY.load(SeqCst) && c == last { same += 1 } else { same = 0; last = c }
            if same > limit {
                let s = format!("{{\"hang\":{limit},\"case\":{c}}}\n");
                unsafe { libc::write(OUT_FD.load(SeqCst), s.as_ptr() as *const _, s.len()); libc::_exit(71) }
            }
        }
    });
}
/// <bin> run <prop> <tier> <part> <parts> <out>   |   <bin> replay <prop> <tier> <case number>
pub fn main_with(dispatch: impl FnOnce(&str, &mut Ctx) -> bool) {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let envf = |k: &str, d: f64| std::env::var(k).ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(d);
    if a.len() < 4 { eprintln!("usage: run <prop> <tier> <part> <parts> <out> | replay <prop> <tier> <case>"); std::process::exit(2) }
    let replay = a[1] == "replay";
    let mut out = None;
    if !replay {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::create(&a[6]).unwrap();
        OUT_FD.store(f.as_raw_fd(), SeqCst);
        out = Some(f);
    }
    let mut c = Ctx {
        thorough: a[3] == "thorough",
        part: if replay { 0 } else { a[4].parse().unwrap() }, parts: if replay { 1 } else { a[5].parse().unwrap() },
        only: if replay { Some(a[4].parse().unwrap()) } else { None },
        next: 0, ran: 0, skipped: 0, rec: Rec { steps: 0, states: HashSet::new() }, outcomes: HashSet::new(), samples: vec![], violations: vec![],
        start: Instant::now(), limit: envf("MC_TOTAL_SECONDS", 1e9), truncated: false,
    };
    unsafe {
        // a stack of its own, so that running out of stack is reported too
        let ss = libc::stack_t { ss_sp: libc::malloc(1 << 16), ss_flags: 0, ss_size: 1 << 16 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(i32) as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    watchdog(envf("MC_CASE_SECONDS", 30.0) as u64);
    if !dispatch(&a[2], &mut c) { eprintln!("no such property {}", a[2]); std::process::exit(2) }
    if replay {
        if c.ran == 0 { eprintln!("no such case"); std::process::exit(2) }
        std::process::exit(if c.violations.is_empty() { 0 } else { 1 })
    }
    let mut o = out.unwrap();
    let mut s = String::from("{");
    s += &format!("\"total\":{},\"cases\":{},\"skipped\":{},\"truncated\":{},\"steps\":{},\"outcomes\":{},\"wall\":{:.3},", c.next, c.ran, c.skipped, c.truncated, c.rec.steps, c.outcomes.len(), c.start.elapsed().as_secs_f64());
    s += &format!("\"violations\":[{}],", c.violations.iter().map(|(i, n, m)| format!("{{\"case\":{i},\"name\":{},\"msg\":{}}}", esc(n), esc(m))).collect::<Vec<_>>().join(","));
    s += &format!("\"samples\":[{}],", c.samples.iter().map(|(n, m)| format!("{{\"case\":{},\"outcome\":{}}}", esc(n), esc(m))).collect::<Vec<_>>().join(","));
    let mut st: Vec<u64> = c.rec.states.iter().copied().collect();
    st.sort();
    s += &format!("\"states\":[{}]}}\n", st.iter().map(|x| format!("{x}")).collect::<Vec<_>>().join(","));
    o.write_all(s.as_bytes()).unwrap();
    let _ = o.flush();
    unsafe { libc::_exit(0) }
}

/// All sequences over 0..n of length lo..=hi, shortest first, in order.
pub fn seqs(n: usize, lo: usize, hi: usize, mut f: impl FnMut(&[usize])) {
    for len in lo..=hi {
        let mut v = vec![0; len];
        loop {
            f(&v);
            let mut i = len;
            loop {
                if i == 0 { break }
                i -= 1;
                v[i] += 1;
                if v[i] < n { break }
                v[i] = 0;
                if i == 0 { i = usize::MAX; break }
            }
            if len == 0 || i == usize::MAX { break }
        }
    }
}
/// Like `seqs`, over elements.
pub fn seqs_of<T: Clone>(alpha: &[T], lo: usize, hi: usize, mut f: impl FnMut(&[T])) {
    seqs(alpha.len(), lo, hi, |ix| { let v: Vec<T> = ix.iter().map(|i| alpha[*i].clone()).collect(); f(&v) })
}
/// All subsets of 0..n as index lists.
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
pub fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() { return vec![vec![]] }
    let mut out = vec![];
    for i in 0..v.len() { let mut r = v.to_vec(); let x = r.remove(i); for mut p in perms(&r) { p.insert(0, x.clone()); out.push(p) } }
    out
}
