//! C06: lazy metrics forced, peeked at and enumerated by several threads.
use crate::mc::*;
use metriken::{metrics, DynBoxedMetric, Lazy, Metric, MetricBuilder, Value};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LO { Force, Deref, Bump, Get, Erased, Registry }
#[derive(Clone, Debug, PartialEq)]
pub enum LR { Id(u64), Val(u64), None, Panic, Broken(&'static str) }

/// The metric inside the lazy. Its plain fields reveal a partial initialisation,
/// and the runtime reports any access to them that is not ordered after it.
pub struct Inner { id: UnsafeCell<[u64; 4]>, n: AtomicU64 }
unsafe impl Sync for Inner {}
impl Inner {
    fn id(&self) -> Result<u64, &'static str> {
        let a = unsafe { *self.id.get() };
        if a.iter().all(|x| *x == a[0]) && a[0] != 0 { Ok(a[0]) } else { Err("partially initialised") }
    }
}
impl Metric for Inner {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value> { match self.id() { Ok(_) => Some(Value::Counter(self.n.load(Ordering::Relaxed))), Err(_) => Some(Value::Counter(u64::MAX)) } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode { Quick, Slow, Panics }

type F = Box<dyn FnOnce() -> Inner + Send>;
type L = Lazy<Inner, F>;
struct Shared { runs: AtomicU64, gate: AtomicU64 }
static SHARED: Shared = Shared { runs: AtomicU64::new(0), gate: AtomicU64::new(0) };

fn initialiser(mode: Mode) -> F {
    Box::new(move || {
        let id = 10 + SHARED.runs.fetch_add(1, Ordering::Relaxed);
        if mode == Mode::Slow { SHARED.gate.fetch_add(1, Ordering::Relaxed); }
        if mode == Mode::Panics { std::panic::resume_unwind(Box::new(())) }
        Inner { id: UnsafeCell::new([id; 4]), n: AtomicU64::new(0) }
    })
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct LSpec { state: u8, n: u64, mode: Mode } // 0 uninitialised, 1 initialised, 2 poisoned
impl LSpec {
    fn force(&mut self) -> bool {
        if self.state == 0 { self.state = if self.mode == Mode::Panics { 2 } else { 1 } }
        self.state == 1
    }
}
impl Spec for LSpec {
    type Op = LO;
    type Ret = LR;
    fn step(&mut self, op: &LO) -> LR {
        match op {
            LO::Force | LO::Deref => if self.force() { LR::Id(10) } else { LR::Panic },
            LO::Bump => { let v = self.n; self.n += 1; LR::Val(v) }
            LO::Get => if self.state == 1 { LR::Id(10) } else { LR::None },
            LO::Erased | LO::Registry => if self.state == 1 { LR::Val(self.n) } else { LR::None },
        }
    }
}
enum H { Bare(L), Boxed(DynBoxedMetric<L>) }
struct W { l: H, mode: Mode, progs: Vec<Vec<LO>>, log: Logs<Rec<LO, LR>> }
unsafe impl Sync for W {}
fn idr(r: &Inner) -> LR { match r.id() { Ok(i) => LR::Id(i), Err(e) => LR::Broken(e) } }
fn erased(m: &dyn Metric) -> LR {
    // enabled first: once enabled, a lazy metric must also have a value
    let en = m.is_enabled();
    let any = m.as_any().is_some();
    match m.value() {
        Some(Value::Counter(u64::MAX)) => LR::Broken("partially initialised"),
        Some(Value::Counter(c)) => LR::Val(c),
        None if en || any => LR::Broken("enabled without a value"),
        None => LR::None,
        _ => LR::Broken("other value"),
    }
}
impl W {
    fn lazy(&self) -> &L { match &self.l { H::Bare(l) => l, H::Boxed(b) => b } }
    fn call(&self, op: LO) -> LR {
        let l = self.lazy();
        match op {
            LO::Force => catch(|| idr(Lazy::force(l))).unwrap_or(LR::Panic),
            LO::Deref => catch(|| idr(&**l)).unwrap_or(LR::Panic),
            LO::Bump => unreachable!(),
            LO::Get => match Lazy::get(l) { Some(x) => idr(x), None => LR::None },
            LO::Erased => erased(l),
            LO::Registry => {
                let view = metrics();
                let mut r = LR::Broken("not listed");
                for e in view.dynamic_metrics() { if e.name() == "lazy" { r = erased(e.metric()); } }
                r
            }
        }
    }
}
impl World for W {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            if *op == LO::Bump {
                // an update through the lazy: force, then update the instance
                let inv = invoke();
                let r = catch(|| Lazy::force(self.lazy()));
                let res = ret();
                match r {
                    Ok(x) => {
                        self.log.push(tid, Rec { tid, op: LO::Force, ret: idr(x), inv, res });
                        let inv = invoke();
                        let v = x.n.fetch_add(1, Ordering::Relaxed);
                        let res = ret();
                        self.log.push(tid, Rec { tid, op: LO::Bump, ret: LR::Val(v), inv, res });
                    }
                    Err(_) => self.log.push(tid, Rec { tid, op: LO::Force, ret: LR::Panic, inv, res }),
                }
                continue;
            }
            let inv = invoke();
            let r = self.call(*op);
            let res = ret();
            self.log.push(tid, Rec { tid, op: *op, ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        for op in [LO::Get, LO::Erased] { h.push(Rec { tid: 9, op, ret: self.call(op), inv: FINAL.0, res: FINAL.1 }) }
        let runs = SHARED.runs.load(Ordering::Relaxed);
        if runs > 1 { return Err(format!("the initialiser ran {runs} times: {}", show(&h))) }
        if linearizable(&LSpec { state: 0, n: 0, mode: self.mode }, &h) { Ok(format!("{} runs={runs}", shape(&h))) } else { Err(format!("no sequential order explains: {}", show(&h))) }
    }
}
struct CaseL { mode: Mode, progs: Vec<Vec<LO>> }
impl Case for CaseL {
    fn name(&self) -> String { format!("lazy {:?} {}", self.mode, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        let reg = self.progs.iter().flatten().any(|o| *o == LO::Registry);
        let l = L::new(initialiser(self.mode));
        let l = if reg { H::Boxed(MetricBuilder::new("lazy").build(l)) } else { H::Bare(l) };
        Box::new(W { l, mode: self.mode, progs: self.progs.clone(), log: Logs::new(self.progs.len()) })
    }
}
// Three lazy metrics: the initialisers of the first and the second use the third.
type LN = Lazy<AtomicU64, Box<dyn FnOnce() -> AtomicU64 + Send>>;
struct WN { l: [LN; 3], progs: Vec<Vec<usize>>, log: Logs<(usize, u64)> }
unsafe impl Sync for WN {}
static NRUNS: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
impl World for WN {
    fn run(&self, tid: usize) { for i in &self.progs[tid] { let v = Lazy::force(&self.l[*i]).load(Ordering::Relaxed); self.log.push(tid, (*i, v)) } }
    fn finish(&self) -> Result<String, String> {
        let used = |i: usize| self.progs.iter().flatten().any(|x| *x == i);
        for i in 0..3 {
            let want = (used(i) || (i == 2 && (used(0) || used(1)))) as u64;
            let n = NRUNS[i].load(Ordering::Relaxed);
            if n != want { return Err(format!("initialiser {i} ran {n} times, expected {want}")) }
        }
        let h = self.log.all();
        for (i, v) in &h { if *v != [106, 206, 6][*i] { return Err(format!("metric {i} is {v}")) } }
        Ok(format!("{h:?}"))
    }
}
struct CaseN { progs: Vec<Vec<usize>> }
impl Case for CaseN {
    fn name(&self) -> String { format!("nested lazies {:?}", self.progs) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        struct P(*const WN);
        unsafe impl Send for P {}
        let mut w = Box::new(std::mem::MaybeUninit::<WN>::uninit());
        let p = w.as_mut_ptr();
        let get = |i: usize, add: u64, p: P| -> LN { Lazy::new(Box::new(move || { let p = p; NRUNS[i].fetch_add(1, Ordering::Relaxed); AtomicU64::new(add + if i < 2 { Lazy::force(unsafe { &(*p.0).l[2] }).load(Ordering::Relaxed) } else { 0 }) })) };
        let v = WN { l: [get(0, 100, P(p)), get(1, 200, P(p)), get(2, 6, P(p))], progs: self.progs.clone(), log: Logs::new(self.progs.len()) };
        unsafe { p.write(v); Box::from_raw(Box::into_raw(w) as *mut WN) }
    }
}
pub fn c06(thorough: bool) -> Vec<Box<dyn Case>> {
    let mut v: Vec<Box<dyn Case>> = vec![];
    let forces = |p: &Vec<Vec<LO>>| p.iter().flatten().filter(|o| matches!(o, LO::Force | LO::Deref | LO::Bump)).count();
    let a = [LO::Force, LO::Deref, LO::Bump, LO::Get, LO::Erased, LO::Registry];
    for mode in [Mode::Quick, Mode::Slow, Mode::Panics] {
        for p in multisets(&seqs(&a, 1, 1), 2) { v.push(Box::new(CaseL { mode, progs: p })) }
        for p in multisets(&seqs(&[LO::Force, LO::Bump, LO::Get, LO::Erased], 1, 2), 2) {
            if forces(&p) > 0 && p.iter().any(|t| t.len() > 1) && (thorough || p.iter().map(|t| t.len()).sum::<usize>() <= 3) && (mode != Mode::Panics || thorough || forces(&p) < 3) { v.push(Box::new(CaseL { mode, progs: p })) }
        }
        for p in multisets(&seqs(&[LO::Force, LO::Bump, LO::Get, LO::Erased], 1, 1), 3) {
            if forces(&p) > 0 && (thorough || forces(&p) == 1 || (forces(&p) == 2 && mode == Mode::Quick && p.iter().any(|t| t[0] == LO::Get) && p.iter().any(|t| t[0] == LO::Force))) { v.push(Box::new(CaseL { mode, progs: p })) }
        }
    }
    for mode in [Mode::Quick, Mode::Slow, Mode::Panics] { for k in crowds() { for f in [vec![LO::Force], vec![LO::Bump], vec![LO::Get], vec![LO::Erased, LO::Bump]] { for g in [vec![LO::Force], vec![LO::Bump, LO::Get], vec![LO::Registry]] {
        let mut p = vec![g]; p.extend(vec![f.clone(); k]);
        v.push(Box::new(Crowd(CaseL { mode, progs: p }, 24)))
    } } } }
    // initialisers that use another lazy metric
    for p in multisets(&seqs(&[0usize, 1, 2], 1, 1), 2).into_iter().chain(multisets(&seqs(&[0usize, 1, 2], 1, if thorough { 2 } else { 1 }), 2)).chain(if thorough { multisets(&seqs(&[0usize, 1, 2], 1, 1), 3) } else { vec![] }) { v.push(Box::new(CaseN { progs: p })) }
    // long histories under periodic schedules
    for mode in [Mode::Slow, Mode::Panics] { for a in [vec![LO::Force], vec![LO::Bump]] { for b in [vec![LO::Get], vec![LO::Erased, LO::Get], vec![LO::Force], vec![LO::Registry]] {
        for n in amounts(if thorough { 512 } else { 128 }) { v.push(Box::new(Stalled(CaseL { mode, progs: vec![a.clone(), cycle(&b, n)] }, 0, 1, 20))) }
        v.push(Box::new(Long(CaseL { mode, progs: vec![cycle(&a, 30), cycle(&b, 60)] }, if thorough { 9 } else { 5 })));
    } } }
    v
}
