//! C08: concurrent registration, removal and enumeration of dynamic metrics.
use crate::mc::*;
use metriken::{metrics, DynBoxedMetric, DynPinnedMetric, Metric, MetricBuilder, Metrics, Value};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

/// Operations. Slots belong to the thread that uses them.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RO {
    /// Build and thereby register a boxed metric into a slot.
    Build(u8),
    /// Drop the metric of a slot.
    Drop(u8),
    /// Build a pinned metric without registering it.
    Pin(u8),
    /// Register the pinned metric under one of two names.
    Reg(u8, u8),
    /// Build a boxed metric that owns the boxed metric of the next slot, if there
    /// is one, takes a view whenever it is read, and takes one when it is dropped,
    /// before it drops what it owns.
    Own(u8),
    /// Take a view, read every entry twice, release it.
    View,
    /// Take a view while holding one.
    Nested,
    /// Take that many views, each while holding the ones before, and release them in
    /// the same (even) or the opposite (odd) order.
    Deep(u16),
}
#[derive(Clone, Debug, PartialEq)]
pub enum RR { Unit, List(Vec<(String, u64)>), Broken(String) }

const ALIVE: u64 = 0xA11CE;
/// A metric that knows whether it is alive.
pub struct Canary { state: UnsafeCell<u64>, id: u64, own: Option<(usize, u8, Option<DynBoxedMetric<Canary>>)> }
/// Where the calls made inside a drop are recorded.
static WORLD: std::sync::atomic::AtomicPtr<W> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
unsafe impl Sync for Canary {}
impl Metric for Canary {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value> {
        if self.own.is_some() { drop(metrics()) }
        if unsafe { *self.state.get() } == ALIVE { Some(Value::Counter(self.id)) } else { None }
    }
}
impl Drop for Canary {
    fn drop(&mut self) {
        unsafe { std::ptr::write_volatile(self.state.get(), 0xDEAD) }
        let Some((tid, slot, child)) = self.own.take() else { return };
        let w = unsafe { &*WORLD.load(std::sync::atomic::Ordering::Relaxed) };
        let inv = invoke();
        let ret_ = view();
        w.log.push(tid, Rec { tid, op: (tid, RO::View), ret: ret_, inv, res: ret() });
        let Some(child) = child else { return };
        let inv = invoke();
        drop(child);
        w.log.push(tid, Rec { tid, op: (tid, RO::Drop(slot + 1)), ret: RR::Unit, inv, res: ret() });
    }
}
fn canary(id: u64) -> Canary { Canary { state: UnsafeCell::new(ALIVE), id, own: None } }

#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct RSpec { reg: BTreeMap<u64, String> } // id -> name
fn id_of(tid: usize, slot: u8) -> u64 { (tid as u64) * 10 + slot as u64 }
fn name_of(tid: usize, slot: u8, alt: u8) -> String { format!("m{tid}{slot}{}", if alt == 1 { "b" } else { "a" }) }
impl Spec for RSpec {
    type Op = (usize, RO);
    type Ret = RR;
    fn step(&mut self, op: &(usize, RO)) -> RR {
        let t = op.0;
        match op.1 {
            RO::Build(s) | RO::Own(s) => { self.reg.insert(id_of(t, s), name_of(t, s, 0)); RR::Unit }
            RO::Pin(_) => RR::Unit,
            RO::Reg(s, n) => { self.reg.insert(id_of(t, s), name_of(t, s, n)); RR::Unit }
            RO::Drop(s) => { self.reg.remove(&id_of(t, s)); RR::Unit }
            RO::View | RO::Nested | RO::Deep(_) => {
                let mut v: Vec<(String, u64)> = self.reg.iter().map(|(i, n)| (n.clone(), *i)).collect();
                v.sort();
                RR::List(v)
            }
        }
    }
}
enum Slot { Empty, Boxed(DynBoxedMetric<Canary>), Pinned(Pinned) }
/// A pinned metric kept in storage of the harness.
struct Pinned(std::pin::Pin<Box<DynPinnedMetric<Canary>>>, u8);
struct W { init: Vec<RO>, progs: Vec<Vec<RO>>, slots: UnsafeCell<Vec<Vec<Slot>>>, log: Logs<Rec<(usize, RO), RR>> }
unsafe impl Sync for W {}

fn list(v: &Metrics) -> Result<Vec<(String, u64)>, String> {
    let mut out = vec![];
    for e in v.dynamic_metrics() {
        match e.value() {
            Some(Value::Counter(id)) => out.push((e.name().to_string(), id)),
            _ => return Err(format!("the view lists {} but that metric has been dropped", e.name())),
        }
    }
    out.sort();
    Ok(out)
}
fn again(v: &Metrics, a: &[(String, u64)]) -> Result<(), String> {
    let b = list(v)?;
    if a == b { Ok(()) } else { Err(format!("held view changed from {a:?} to {b:?}")) }
}
fn view() -> RR {
    let v = metrics();
    match list(&v).and_then(|a| again(&v, &a).map(|_| a)) { Ok(a) => RR::List(a), Err(e) => RR::Broken(e) }
}
impl W {
    fn slot(&self, tid: usize, s: u8) -> &mut Slot { unsafe { &mut (&mut *self.slots.get())[tid][s as usize] } }
    fn call(&self, tid: usize, op: RO) -> RR {
        match op {
            RO::Build(s) => { *self.slot(tid, s) = Slot::Boxed(MetricBuilder::new(name_of(tid, s, 0)).build(canary(id_of(tid, s)))); RR::Unit }
            RO::Own(s) => {
                let child = match std::mem::replace(self.slot(tid, s + 1), Slot::Empty) { Slot::Boxed(b) => Some(b), _ => None };
                *self.slot(tid, s) = Slot::Boxed(MetricBuilder::new(name_of(tid, s, 0)).build({ let mut c = canary(id_of(tid, s)); c.own = Some((tid, s, child)); c }));
                RR::Unit
            }
            RO::Pin(s) => {
                let (m, _) = MetricBuilder::new(name_of(tid, s, 0)).build_pinned(canary(id_of(tid, s)));
                *self.slot(tid, s) = Slot::Pinned(Pinned(Box::pin(m), 0));
                RR::Unit
            }
            RO::Reg(s, n) => {
                if let Slot::Pinned(p) = self.slot(tid, s) {
                    let (_, e) = MetricBuilder::new(name_of(tid, s, n)).build_pinned(canary(99));
                    p.1 = n;
                    p.0.as_ref().register(e);
                }
                RR::Unit
            }
            RO::Drop(s) => { *self.slot(tid, s) = Slot::Empty; RR::Unit }
            RO::View => view(),
            RO::Nested | RO::Deep(_) => unreachable!(),
        }
    }
}
impl World for W {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            if let RO::Deep(n) = *op {
                let mut held = vec![];
                for _ in 0..n {
                    let inv = invoke();
                    let v = metrics();
                    let a = list(&v);
                    let res = ret();
                    self.log.push(tid, Rec { tid, op: (tid, RO::View), ret: match &a { Ok(l) => RR::List(l.clone()), Err(e) => RR::Broken(e.clone()) }, inv, res });
                    if let Ok(a) = a { held.push((v, a)) }
                }
                let mut held = std::collections::VecDeque::from(held);
                while let Some((v, a)) = if n % 2 == 0 { held.pop_front() } else { held.pop_back() } {
                    if let Err(e) = again(&v, &a) { let at = ret(); self.log.push(tid, Rec { tid, op: (tid, RO::View), ret: RR::Broken(e), inv: at, res: at }) }
                }
                continue;
            }
            if *op == RO::Nested {
                // two views, the second taken while the first is held
                let push = |r: Result<Vec<(String, u64)>, String>, inv, res| self.log.push(tid, Rec { tid, op: (tid, RO::View), ret: match r { Ok(l) => RR::List(l), Err(e) => RR::Broken(e) }, inv, res });
                let inv = invoke();
                let v = metrics();
                let a = list(&v);
                let res = ret();
                push(a.clone(), inv, res);
                let inv = invoke();
                let b = { let w = metrics(); list(&w) };
                let res = ret();
                push(b, inv, res);
                if let Ok(a) = &a { if let Err(e) = again(&v, a) { push(Err(e), res, res) } }
                continue;
            }
            let inv = invoke();
            let r = self.call(tid, *op);
            let res = ret();
            self.log.push(tid, Rec { tid, op: (tid, *op), ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        h.push(Rec { tid: 9, op: (9, RO::View), ret: view(), inv: FINAL.0, res: FINAL.1 });
        for r in &h { if let RR::Broken(m) = &r.ret { return Err(format!("{m}: {}", show(&h))) } }
        let mut init = RSpec::default();
        for o in &self.init { init.step(&(0, *o)); }
        if !linearizable(&init, &h) { return Err(format!("no sequential order explains: {}", show(&h))) }
        // dropping everything must empty the registry
        for t in unsafe { &mut *self.slots.get() } { for s in t { *s = Slot::Empty } }
        if view() != RR::List(vec![]) { return Err(format!("after dropping every metric the registry lists {:?}", view())) }
        Ok(shape(&h))
    }
}
/// `init` runs in slot space of thread 0 before the threads start.
struct CaseR { heap: i32, init: Vec<RO>, progs: Vec<Vec<RO>> }
impl Case for CaseR {
    fn name(&self) -> String { format!("registry heap{} init{:?} {}", self.heap, self.init, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn heap(&self) -> i32 { self.heap }
    fn setup(&self) -> Box<dyn World> {
        let n = self.progs.len();
        let slots = (0..n).map(|_| (0..3).map(|_| Slot::Empty).collect()).collect();
        let w = W { init: self.init.clone(), progs: self.progs.clone(), slots: UnsafeCell::new(slots), log: Logs::new(n) };
        let w = Box::new(w);
        WORLD.store(&*w as *const W as *mut W, std::sync::atomic::Ordering::Relaxed);
        for o in &self.init { w.call(0, *o); }
        w
    }
}
pub fn c08(thorough: bool) -> Vec<Box<dyn Case>> {
    use RO::*;
    let mut v: Vec<Box<dyn Case>> = vec![];
    let writers: Vec<Vec<RO>> = vec![
        vec![Build(0)], vec![Build(0), Drop(0)], vec![Build(0), Drop(0), Build(1)], vec![Build(0), Build(1)],
        vec![Build(0), Build(1), Drop(0)], vec![Pin(0), Drop(0)], vec![Pin(0), Reg(0, 0), Drop(0)], vec![Pin(0), Reg(0, 0), Reg(0, 1), Drop(0)],
        vec![Pin(0), Reg(0, 0), Reg(0, 1)],
    ];
    let readers: Vec<Vec<RO>> = vec![vec![View], vec![View, View], vec![Nested]];
    let heaps: &[i32] = if thorough { &[0, 1, 2, 3] } else { &[0, 1, 3] };
    for &heap in heaps {
        let mut add = |init: Vec<RO>, progs: Vec<Vec<RO>>| v.push(Box::new(CaseR { heap, init, progs }));
        for w in &writers { for r in &readers { add(vec![], vec![w.clone(), r.clone()]) } }
        for (i, w) in writers.iter().enumerate() { for x in &writers[i..] { if w.len() + x.len() <= if thorough { 7 } else { 5 } { add(vec![], vec![w.clone(), x.clone()]) } } }
        // writers that also read
        add(vec![], vec![vec![Build(0), View, Drop(0)], vec![View]]);
        add(vec![], vec![vec![Build(0), View], vec![Build(0), View]]);
        add(vec![], vec![vec![Build(0), View, Drop(0)], vec![Build(0), Drop(0)]]);
        // metrics registered before the threads start
        for r in &readers {
            add(vec![Build(0)], vec![vec![Drop(0)], r.clone()]);
            add(vec![Build(0), Build(1)], vec![vec![Drop(0)], r.clone()]);
            add(vec![Build(0)], vec![vec![Drop(0), Build(1)], r.clone()]);
            add(vec![Pin(0), Reg(0, 0)], vec![vec![Reg(0, 1), Drop(0)], r.clone()]);
            add(vec![Build(0)], vec![vec![], vec![Build(0)], r.clone()]);
        }
        // metrics that use the registry when they are read or dropped
        for r in &readers {
            add(vec![Own(0)], vec![vec![Drop(0)], r.clone()]);
            add(vec![Build(1), Own(0)], vec![vec![Drop(0)], r.clone()]);
            if thorough || r.len() == 1 { add(vec![Own(0)], vec![vec![], vec![Build(0)], r.clone()]) }
            if thorough || heap == 0 { add(vec![], vec![vec![Own(0), Drop(0)], r.clone()]) }
        }
        add(vec![], vec![vec![Build(1), Own(0), Drop(0)], vec![Build(0)]]);
        if thorough || heap == 0 { add(vec![Build(1), Own(0)], vec![vec![Drop(0)], vec![Own(0), Drop(0)]]) }
        if thorough { add(vec![Build(1), Own(0)], vec![vec![Drop(0)], vec![Build(1), Own(0), Drop(0)]]) }
        // three threads
        if thorough || heap != 3 {
            add(vec![Build(0)], vec![vec![Drop(0)], vec![View], vec![View]]);
            add(vec![], vec![vec![Build(0)], vec![View], vec![View]]);
            add(vec![], vec![vec![Build(0)], vec![Build(0)], vec![View]]);
            add(vec![Build(0)], vec![vec![Drop(0)], vec![Build(0)], vec![View]]);
            add(vec![Build(0)], vec![vec![Drop(0)], vec![Nested], vec![View]]);
        }
        if thorough {
            for w in &writers { for r in &readers { for q in &readers { if w.len() + r.len() + q.len() <= 4 { add(vec![], vec![w.clone(), r.clone(), q.clone()]) } } } }
        }
    }
    // many views at once, in one thread and in many
    for n in amounts(if thorough { 512 } else { 256 }) {
        v.push(Box::new(Spread(CaseR { heap: 0, init: vec![Build(0)], progs: vec![vec![Drop(0), Build(1)], vec![Deep(n as u16)]] }, 1, 0, n)));
        v.push(Box::new(Spread(CaseR { heap: 0, init: vec![Build(0)], progs: vec![vec![Build(1)], vec![Deep(n as u16)]] }, 1, 0, n)));
    }
    for n in 3..=if thorough { 20 } else { 6 } { v.push(Box::new(CaseR { heap: 1, init: vec![Build(0)], progs: vec![vec![Drop(0), Build(1)], vec![Deep(n)]] })) }
    for heap in [0, 1] { for k in crowds() { for f in [vec![View], vec![Nested], vec![Build(0), Drop(0)], vec![Pin(0), Reg(0, 0), Reg(0, 1)]] {
        for (init, g) in [(vec![Build(0)], vec![Drop(0)]), (vec![], vec![Build(0), Drop(0)]), (vec![Build(0), Build(1)], vec![Drop(1), Build(2)]), (vec![Build(0)], vec![View]), (vec![Pin(0), Reg(0, 0)], vec![Reg(0, 1), Drop(0)])] {
            let mut p = vec![g]; p.extend(vec![f.clone(); k]);
            v.push(Box::new(Crowd(CaseR { heap, init, progs: p }, 24)))
        }
    } } }
    // long histories under periodic schedules
    for heap in [0, 1] { for a in [vec![Build(0), Drop(0)], vec![Build(0), Build(1), Drop(0), Drop(1)], vec![Pin(0), Reg(0, 0), Reg(0, 1), Drop(0)]] { for b in [vec![Build(0), Drop(0)], vec![View], vec![Nested], vec![Build(0), View, Drop(0)]] {
        // much happens during one view, or during one registration or removal
        for n in amounts(if thorough { 512 } else { 256 }) { if n > 2 {
            v.push(Box::new(Stalled(CaseR { heap, init: vec![], progs: vec![cycle(&a, n / a.len() * a.len()), b.clone()] }, 1, 0, 24)));
            v.push(Box::new(Stalled(CaseR { heap, init: vec![], progs: vec![a.clone(), cycle(&b, n / b.len() * b.len())] }, 0, 1, 24)));
        } }
        v.push(Box::new(Long(CaseR { heap, init: vec![], progs: vec![cycle(&a, 120), cycle(&b, 60)] }, if thorough { 9 } else { 5 })));
    } } }
    v
}
