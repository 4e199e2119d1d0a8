//! Binding to the model-checking runtime (rt.cpp) and the generic driver.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::fmt::Debug;

pub struct McAlloc;
extern "C" {
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, size: usize, align: usize);
    fn rt_invoke() -> u32;
    fn rt_return() -> u32;
    fn rt_is_freed(p: *const c_void) -> c_int;
    fn rt_now_ns() -> u64;
    fn mc_explore(sc: *mut CScenario, o: *const Options, r: *mut RawResult);
    fn mc_replay(sc: *mut CScenario, sched: *const u8, n: u32, r: *mut RawResult);
    fn mc_pattern(sc: *mut CScenario, pat: *const u8, n: u32, looped: u32, r: *mut RawResult);
    fn mc_render() -> *const c_char;
    fn mc_status_name(s: u32) -> *const c_char;
    fn mc_found() -> c_int;
    fn mc_note_found();
    fn mc_pool(jobs: c_int, n: c_int, work: extern "C" fn(c_int, *mut c_void), user: *mut c_void) -> c_int;
}
unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { rt_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { rt_free(p, l.size(), l.align()) }
}

pub fn invoke() -> u32 { unsafe { rt_invoke() } }
pub fn ret() -> u32 { unsafe { rt_return() } }
#[allow(dead_code)]
pub fn is_freed<T>(p: *const T) -> bool { unsafe { rt_is_freed(p as *const c_void) != 0 } }
pub fn now_ns() -> u64 { unsafe { rt_now_ns() } }

#[repr(C)]
struct CScenario {
    nthreads: c_int,
    heap: c_int,
    setup: extern "C" fn(*mut c_void) -> *mut c_void,
    thread: extern "C" fn(*mut c_void, *mut c_void, c_int),
    finish: extern "C" fn(*mut c_void, *mut c_void, *mut u8, usize, *mut u8, usize) -> c_int,
    user: *mut c_void,
}
#[repr(C)]
pub struct Options { pub max_execs: u64, pub max_seconds: f64, pub naive: c_int, pub bound: c_int, pub stop_after: c_int }
const MAXSTEPS: usize = 100000;
#[repr(C)]
struct RawResult {
    executions: u64, complete: u64, pruned: u64, transitions: u64, nodes: u64, outcomes: u64,
    max_depth: u32, exhausted: u32, status: u32, nschedule: u32, outcome_xor: u64,
    wall: f64,
    msg: [u8; 3000],
    outcome_sample: [u8; 2000],
    schedule: [u8; MAXSTEPS],
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// The live objects of one execution.
pub trait World: Sync {
    fn run(&self, tid: usize);
    /// Judges the finished execution; Ok carries a description of the outcome.
    fn finish(&self) -> Result<String, String>;
}
/// One closed concurrent program.
pub trait Case: Sync + Send {
    fn name(&self) -> String;
    fn threads(&self) -> usize;
    fn heap(&self) -> i32 { 0 }
    fn setup(&self) -> Box<dyn World>;
    /// A long program: instead of every schedule, every one of this family of periodic
    /// schedules runs. Each is a sequence of threads and where it repeats from.
    fn periodic(&self) -> Vec<(Vec<u8>, usize)> { vec![] }
}
/// "Thread `f` takes o steps; from then on the others and then `f` take turns, thread i
/// for a_i steps at a time": every choice of f, o and the a_i up to `max`.
pub fn turns(threads: usize, max: usize) -> Vec<(Vec<u8>, usize)> {
    let mut out = vec![];
    for f in 0..threads { for o in 0..=max { for a in seqs(&(1..=max).collect::<Vec<_>>(), threads, threads) {
        let mut p = vec![f as u8; o];
        for i in 1..=threads { let t = (f + i) % threads; p.extend(vec![t as u8; a[t]]) }
        out.push((p, o));
    } } }
    out
}
/// Runs another case under the periodic schedules only.
pub struct Long<C>(pub C, pub usize);
impl<C: Case> Case for Long<C> {
    fn name(&self) -> String { format!("long {}", self.0.name()) }
    fn threads(&self) -> usize { self.0.threads() }
    fn heap(&self) -> i32 { self.0.heap() }
    fn setup(&self) -> Box<dyn World> { self.0.setup() }
    fn periodic(&self) -> Vec<(Vec<u8>, usize)> { turns(self.0.threads(), self.1) }
}
/// "Thread `f` takes o steps; then thread `g` runs to its end; then `f` goes on", for
/// every o up to `max`: what happens when arbitrarily much happens during one call.
pub struct Stalled<C>(pub C, pub u8, pub u8, pub usize);
impl<C: Case> Case for Stalled<C> {
    fn name(&self) -> String { format!("stalled {}", self.0.name()) }
    fn threads(&self) -> usize { self.0.threads() }
    fn heap(&self) -> i32 { self.0.heap() }
    fn setup(&self) -> Box<dyn World> { self.0.setup() }
    fn periodic(&self) -> Vec<(Vec<u8>, usize)> { (0..=self.3).map(|o| { let mut p = vec![self.1; o]; p.push(self.2); (p, o) }).collect() }
}
/// The same with stops spread evenly over the first 12 `n` steps, for long calls.
pub struct Spread<C>(pub C, pub u8, pub u8, pub usize);
impl<C: Case> Case for Spread<C> {
    fn name(&self) -> String { format!("spread {}", self.0.name()) }
    fn threads(&self) -> usize { self.0.threads() }
    fn heap(&self) -> i32 { self.0.heap() }
    fn setup(&self) -> Box<dyn World> { self.0.setup() }
    fn periodic(&self) -> Vec<(Vec<u8>, usize)> { (0..=12 * self.3).step_by(1 + self.3 / 16).map(|o| { let mut p = vec![self.1; o]; p.push(self.2); (p, o) }).collect() }
}
/// "All other threads take o steps each, in turn; then thread 0 runs to its end", for
/// every o up to `max` and both orders, and the same with all going on by single steps:
/// what happens when many threads are inside a call at the same time.
pub struct Crowd<C>(pub C, pub usize);
impl<C: Case> Case for Crowd<C> {
    fn name(&self) -> String { format!("crowd {}", self.0.name()) }
    fn threads(&self) -> usize { self.0.threads() }
    fn heap(&self) -> i32 { self.0.heap() }
    fn setup(&self) -> Box<dyn World> { self.0.setup() }
    fn periodic(&self) -> Vec<(Vec<u8>, usize)> {
        let n = self.0.threads() as u8;
        let mut out = vec![];
        for o in 0..=self.1 { for back in [false, true] { for end in 0..3 {
            let mut order: Vec<u8> = (1..n).collect();
            if back { order.reverse() }
            let mut p: Vec<u8> = order.iter().flat_map(|t| vec![*t; o]).collect();
            let at = p.len();
            match end { 0 => p.push(0), 1 => { p.push(0); p.extend(&order) } _ => { p.extend(order.iter().rev()); p.push(0) } }
            out.push((p, at));
        } } }
        out
    }
}
/// Numbers of threads in a crowd.
pub fn crowds() -> Vec<usize> { vec![4, 5, 6, 7] }
/// Numbers of calls during one call: around the powers of two, up to `max`, and those
/// around constants of the sources under test.
pub fn amounts(max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 4;
    while p <= max { v.extend([p - 1, p, p + 1]); p *= 2 }
    let text = std::env::var("MC_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    for n in text.lines().filter_map(|l| l.strip_prefix('n')?.parse::<usize>().ok()) { if n > 6 && n <= max { v.extend([n - 1, n, n + 1]) } }
    v.sort(); v.dedup();
    v
}
/// The constants of the sources under test and their neighbours, as values.
pub fn constants() -> Vec<u64> {
    let text = std::env::var("MC_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mut v: Vec<u64> = text.lines().filter_map(|l| l.strip_prefix('n')?.parse::<u64>().ok()).flat_map(|n| [n.wrapping_sub(1), n, n.wrapping_add(1)]).collect();
    v.sort(); v.dedup();
    v
}
/// `p` repeated to `n` calls.
pub fn cycle<T: Clone>(p: &[T], n: usize) -> Vec<T> { p.iter().cycle().take(n).cloned().collect() }
/// A program for a case name: runs of equal calls are counted.
pub fn brief<T: Debug + PartialEq>(progs: &[Vec<T>]) -> String {
    if progs.iter().all(|p| p.len() < 20) { return format!("{progs:?}") }
    let one = |p: &Vec<T>| {
        let k = (1..=p.len()).find(|k| (0..p.len()).all(|i| p[i] == p[i % k])).unwrap_or(0);
        format!("{:?}x{}", &p[..k], p.len())
    };
    format!("[{}]", progs.iter().map(one).collect::<Vec<_>>().join(", "))
}

extern "C" fn c_setup(user: *mut c_void) -> *mut c_void {
    let case = unsafe { &*(user as *const Box<dyn Case>) };
    Box::into_raw(Box::new(case.setup())) as *mut c_void
}
extern "C" fn c_thread(_u: *mut c_void, ctx: *mut c_void, tid: c_int) {
    let w = unsafe { &*(ctx as *const Box<dyn World>) };
    w.run(tid as usize);
}
unsafe fn put(s: &str, p: *mut u8, cap: usize) {
    let n = s.len().min(cap - 1);
    std::ptr::copy_nonoverlapping(s.as_ptr(), p, n);
    *p.add(n) = 0;
}
extern "C" fn c_finish(_u: *mut c_void, ctx: *mut c_void, m: *mut u8, mc: usize, o: *mut u8, oc: usize) -> c_int {
    let w = unsafe { &*(ctx as *const Box<dyn World>) };
    match w.finish() {
        Ok(s) => { unsafe { put("", m, mc); put(&s, o, oc) }; 0 }
        Err(s) => { unsafe { put(&s, m, mc); put("", o, oc) }; 1 }
    }
}

pub struct Outcome {
    pub executions: u64, pub complete: u64, pub pruned: u64, pub transitions: u64, pub nodes: u64, pub outcomes: u64,
    pub outcome_xor: u64,
    pub max_depth: u32, pub exhausted: bool, pub status: u32, pub wall: f64,
    pub msg: String, pub sample: String, pub schedule: Vec<u8>, pub trace: String,
}
fn convert(r: &RawResult) -> Outcome {
    Outcome {
        executions: r.executions, complete: r.complete, pruned: r.pruned, transitions: r.transitions,
        nodes: r.nodes, outcomes: r.outcomes, outcome_xor: r.outcome_xor, max_depth: r.max_depth, exhausted: r.exhausted != 0,
        status: r.status, wall: r.wall, msg: cstr(&r.msg), sample: cstr(&r.outcome_sample),
        schedule: r.schedule[..r.nschedule as usize].to_vec(),
        trace: String::new(),
    }
}
fn c_scenario(case: &Box<dyn Case>) -> CScenario {
    CScenario {
        nthreads: case.threads() as c_int, heap: case.heap(), setup: c_setup, thread: c_thread, finish: c_finish,
        user: case as *const Box<dyn Case> as *mut c_void,
    }
}
fn raw() -> Box<RawResult> { unsafe { Box::new(std::mem::zeroed()) } }
pub fn explore(case: &Box<dyn Case>, o: &Options) -> Outcome {
    let mut sc = c_scenario(case);
    let mut r = raw();
    let family = case.periodic();
    if !family.is_empty() {
        let t0 = std::time::Instant::now();
        let mut sum = convert(&r);
        let mut seen = std::collections::BTreeSet::new();
        sum.exhausted = true;
        for (p, l) in &family {
            if t0.elapsed().as_secs_f64() > o.max_seconds || found() >= o.stop_after { sum.exhausted = false; break }
            unsafe { mc_pattern(&mut sc, p.as_ptr(), p.len() as u32, *l as u32, &mut *r) };
            let one = convert(&r);
            sum.executions += 1; sum.complete += one.complete; sum.pruned += one.pruned; sum.transitions += one.transitions; sum.nodes += one.nodes;
            sum.max_depth = sum.max_depth.max(one.max_depth);
            if one.status == ST_OK { if seen.insert(one.outcome_xor) { sum.outcome_xor ^= one.outcome_xor } sum.sample = one.sample; }
            else if one.status != ST_PRUNED {
                sum.status = one.status; sum.msg = one.msg; sum.schedule = one.schedule; sum.sample = one.sample;
                sum.trace = unsafe { CStr::from_ptr(mc_render()) }.to_string_lossy().into_owned();
                break;
            }
        }
        sum.outcomes = seen.len() as u64;
        sum.wall = t0.elapsed().as_secs_f64();
        return sum;
    }
    unsafe { mc_explore(&mut sc, o, &mut *r) };
    let mut out = convert(&r);
    if out.status != 0 { out.trace = unsafe { CStr::from_ptr(mc_render()) }.to_string_lossy().into_owned(); }
    out
}
/// Runs one schedule; returns its status, message and step trace.
pub fn replay(case: &Box<dyn Case>, sched: &[u8]) -> Outcome {
    let mut sc = c_scenario(case);
    let mut r = raw();
    unsafe { mc_replay(&mut sc, sched.as_ptr(), sched.len() as u32, &mut *r) };
    let mut out = convert(&r);
    out.trace = unsafe { CStr::from_ptr(mc_render()) }.to_string_lossy().into_owned();
    out
}
pub fn status_name(s: u32) -> String { unsafe { CStr::from_ptr(mc_status_name(s)) }.to_string_lossy().into_owned() }
pub const ST_OK: u32 = 1;
const ST_PRUNED: u32 = 2;
pub const ST_DIVERGED: u32 = 7;
pub const ST_INTERNAL: u32 = 10;

/// Counterexamples confirmed so far by all workers.
pub fn found() -> i32 { unsafe { mc_found() } }
pub fn note_found() { unsafe { mc_note_found() } }
pub fn pool(jobs: usize, n: usize, f: &dyn Fn(usize)) -> i32 {
    struct U<'a>(&'a dyn Fn(usize));
    extern "C" fn go(i: c_int, u: *mut c_void) { unsafe { (*(u as *const U)).0(i as usize) } }
    let u = U(f);
    unsafe { mc_pool(jobs as c_int, n as c_int, go, &u as *const U as *mut c_void) }
}

/// A per-thread log that needs no synchronisation.
pub struct Logs<T>(Vec<UnsafeCell<Vec<T>>>);
unsafe impl<T> Sync for Logs<T> {}
impl<T: Clone> Logs<T> {
    pub fn new(n: usize) -> Self { Logs((0..n).map(|_| UnsafeCell::new(Vec::new())).collect()) }
    pub fn push(&self, tid: usize, x: T) { unsafe { (*self.0[tid].get()).push(x) } }
    pub fn all(&self) -> Vec<T> { self.0.iter().flat_map(|c| unsafe { (*c.get()).clone() }).collect() }
}

#[derive(Clone, Debug)]
pub struct Rec<O, R> { pub tid: usize, pub op: O, pub ret: R, pub inv: u32, pub res: u32 }

/// Sequential specification with deterministic steps.
pub trait Spec: Clone + Eq + std::hash::Hash {
    type Op: Clone + Debug;
    type Ret: Clone + Debug + PartialEq;
    fn step(&mut self, op: &Self::Op) -> Self::Ret;
}
/// Is there a sequential order of the calls that respects real time and in which
/// every call returns what the specification says? A search over how many calls of
/// each thread have been ordered, and the state they led to.
pub fn linearizable<S: Spec>(init: &S, h: &[Rec<S::Op, S::Ret>]) -> bool {
    let mut lanes: std::collections::BTreeMap<usize, Vec<&Rec<S::Op, S::Ret>>> = Default::default();
    for r in h { lanes.entry(r.tid).or_default().push(r) }
    let mut lanes: Vec<Vec<&Rec<S::Op, S::Ret>>> = lanes.into_values().collect();
    for l in &mut lanes { l.sort_by_key(|r| r.inv) }
    let mut seen = std::collections::HashSet::<(Vec<u16>, S), std::hash::BuildHasherDefault<std::hash::DefaultHasher>>::default();
    let mut todo = vec![(vec![0u16; lanes.len()], init.clone())];
    while let Some((at, s)) = todo.pop() {
        if at.iter().zip(&lanes).all(|(a, l)| *a as usize == l.len()) { return true; }
        for i in 0..lanes.len() {
            let Some(r) = lanes[i].get(at[i] as usize) else { continue };
            // it may come next unless another call not yet ordered returned before it began
            if (0..lanes.len()).any(|j| j != i && lanes[j].get(at[j] as usize).is_some_and(|x| x.res < r.inv)) { continue; }
            let mut t = s.clone();
            if t.step(&r.op) != r.ret { continue; }
            let mut next = at.clone();
            next[i] += 1;
            if seen.insert((next.clone(), t.clone())) { todo.push((next, t)) }
        }
    }
    false
}
pub fn show<O: Debug, R: Debug>(h: &[Rec<O, R>]) -> String {
    let mut v: Vec<_> = h.iter().collect();
    v.sort_by_key(|r| r.inv);
    v.iter().map(|r| if r.inv == u32::MAX - 1 { format!("final {:?}={:?}", r.op, r.ret) } else { format!("T{} {:?}={:?} [{},{}]", r.tid, r.op, r.ret, r.inv, r.res) }).collect::<Vec<_>>().join("; ")
}
/// Outcome as results plus real-time order, for counting distinct behaviours.
pub fn shape<O: Debug, R: Debug>(h: &[Rec<O, R>]) -> String {
    let mut s = h.iter().map(|r| format!("{}:{:?}={:?}", r.tid, r.op, r.ret)).collect::<Vec<_>>().join(";");
    s.push('|');
    if h.len() > 40 { return s.chars().take(1900).collect() }
    for a in h { for b in h { if a.tid != b.tid && b.inv != FINAL.0 { s.push(if a.res < b.inv { '<' } else { '-' }) } } }
    s
}
/// Position of a call made after the execution ended.
pub const FINAL: (u32, u32) = (u32::MAX - 1, u32::MAX);

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| std::mem::forget(e))
}

/// All sequences over `alpha` with length between lo and hi, shortest first.
pub fn seqs<T: Clone>(alpha: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo { out.extend(layer.iter().cloned()); }
        let mut next = vec![];
        for p in &layer { for a in alpha { let mut q = p.clone(); q.push(a.clone()); next.push(q); } }
        layer = next;
    }
    out
}
/// All multisets of `k` thread programs.
pub fn multisets<T: Clone>(progs: &[T], k: usize) -> Vec<Vec<T>> {
    fn go<T: Clone>(p: &[T], from: usize, k: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
        if k == 0 { out.push(cur.clone()); return; }
        for i in from..p.len() { cur.push(p[i].clone()); go(p, i, k - 1, cur, out); cur.pop(); }
    }
    let mut out = vec![];
    go(progs, 0, k, &mut vec![], &mut out);
    out
}
