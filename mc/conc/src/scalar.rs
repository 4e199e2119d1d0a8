//! C01 and C02: counters and gauges shared by threads.
use crate::mc::*;
use metriken::{metrics, Counter, DynBoxedMetric, Gauge, Metric, MetricBuilder, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CO { Inc, Add(u64), Set(u64), Reset, Value, Erased, Registry }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GO { Inc, Dec, Add(i64), Sub(i64), Set(i64), Reset, Value, Erased, Registry }

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct CSpec(pub u64);
impl Spec for CSpec {
    type Op = CO;
    type Ret = Option<u64>;
    fn step(&mut self, op: &CO) -> Option<u64> {
        let old = self.0;
        match *op {
            CO::Inc => self.0 = old.wrapping_add(1),
            CO::Add(v) => self.0 = old.wrapping_add(v),
            CO::Set(v) => self.0 = v,
            CO::Reset => self.0 = 0,
            CO::Value | CO::Erased | CO::Registry => {}
        }
        Some(old)
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct GSpec(pub i64);
impl Spec for GSpec {
    type Op = GO;
    type Ret = Option<i64>;
    fn step(&mut self, op: &GO) -> Option<i64> {
        let old = self.0;
        match *op {
            GO::Inc => self.0 = old.wrapping_add(1),
            GO::Dec => self.0 = old.wrapping_sub(1),
            GO::Add(v) => self.0 = old.wrapping_add(v),
            GO::Sub(v) => self.0 = old.wrapping_sub(v),
            GO::Set(v) => self.0 = v,
            GO::Reset => self.0 = 0,
            GO::Value | GO::Erased | GO::Registry => {}
        }
        Some(old)
    }
}

/// A scalar metric under test, either on its own or registered.
pub enum Holder<M: Metric> { Bare(M), Boxed(DynBoxedMetric<M>) }
impl<M: Metric> Holder<M> {
    fn get(&self) -> &M { match self { Holder::Bare(m) => m, Holder::Boxed(m) => m } }
}
fn registry_value(name: &str) -> Option<Option<Val>> {
    let view = metrics();
    let mut r = None;
    for e in view.dynamic_metrics() { if e.name() == name { r = Some(conv(e.value())); } }
    r
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Val { C(u64), G(i64), O }
pub fn conv(v: Option<Value>) -> Option<Val> {
    match v { Some(Value::Counter(c)) => Some(Val::C(c)), Some(Value::Gauge(c)) => Some(Val::G(c)), Some(_) => Some(Val::O), None => None }
}
fn c_of(v: Option<Val>) -> Option<u64> { match v { Some(Val::C(c)) => Some(c), _ => None } }
fn g_of(v: Option<Val>) -> Option<i64> { match v { Some(Val::G(c)) => Some(c), _ => None } }

pub fn call_counter(c: &Counter, op: CO) -> Option<u64> {
    match op {
        CO::Inc => Some(c.increment()),
        CO::Add(v) => Some(c.add(v)),
        CO::Set(v) => Some(c.set(v)),
        CO::Reset => Some(c.reset()),
        CO::Value => Some(c.value()),
        CO::Erased => c_of(conv(Metric::value(c as &dyn Metric))),
        CO::Registry => registry_value("mc").and_then(c_of),
    }
}
pub fn call_gauge(c: &Gauge, op: GO) -> Option<i64> {
    match op {
        GO::Inc => Some(c.increment()),
        GO::Dec => Some(c.decrement()),
        GO::Add(v) => Some(c.add(v)),
        GO::Sub(v) => Some(c.sub(v)),
        GO::Set(v) => Some(c.set(v)),
        GO::Reset => Some(c.reset()),
        GO::Value => Some(c.value()),
        GO::Erased => g_of(conv(Metric::value(c as &dyn Metric))),
        GO::Registry => registry_value("mc").and_then(g_of),
    }
}

struct W<M: Metric, S: Spec> {
    h: Holder<M>,
    init: S,
    progs: Vec<Vec<S::Op>>,
    log: Logs<Rec<S::Op, S::Ret>>,
    call: fn(&M, S::Op) -> S::Ret,
    reads: Vec<S::Op>,
}
unsafe impl<M: Metric, S: Spec> Sync for W<M, S> {}
impl<M: Metric, S: Spec> World for W<M, S> {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            let inv = invoke();
            let r = (self.call)(self.h.get(), op.clone());
            let res = ret();
            self.log.push(tid, Rec { tid, op: op.clone(), ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        for op in &self.reads {
            h.push(Rec { tid: 9, op: op.clone(), ret: (self.call)(self.h.get(), op.clone()), inv: FINAL.0, res: FINAL.1 });
        }
        if linearizable(&self.init, &h) { Ok(shape(&h)) } else { Err(format!("no sequential order explains: {}", show(&h))) }
    }
}
struct CaseC { init: u64, progs: Vec<Vec<CO>> }
impl Case for CaseC {
    fn name(&self) -> String { format!("counter({}) {}", self.init, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        let reg = self.progs.iter().flatten().any(|o| *o == CO::Registry);
        let c = Counter::with_value(self.init);
        let h = if reg { Holder::Boxed(MetricBuilder::new("mc").build(c)) } else { Holder::Bare(c) };
        let mut reads = vec![CO::Value, CO::Erased];
        if reg { reads.push(CO::Registry) }
        Box::new(W { h, init: CSpec(self.init), progs: self.progs.clone(), log: Logs::new(self.progs.len()), call: call_counter, reads })
    }
}
struct CaseG { init: i64, progs: Vec<Vec<GO>> }
impl Case for CaseG {
    fn name(&self) -> String { format!("gauge({}) {}", self.init, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        let reg = self.progs.iter().flatten().any(|o| *o == GO::Registry);
        let c = Gauge::with_value(self.init);
        let h = if reg { Holder::Boxed(MetricBuilder::new("mc").build(c)) } else { Holder::Bare(c) };
        let mut reads = vec![GO::Value, GO::Erased];
        if reg { reads.push(GO::Registry) }
        Box::new(W { h, init: GSpec(self.init), progs: self.progs.clone(), log: Logs::new(self.progs.len()), call: call_gauge, reads })
    }
}

fn useful_c(p: &[Vec<CO>]) -> bool {
    // at least one thread updates: only then can the calls interfere
    p.iter().any(|t| t.iter().any(|o| !matches!(o, CO::Value | CO::Erased | CO::Registry)))
}
fn useful_g(p: &[Vec<GO>]) -> bool {
    p.iter().any(|t| t.iter().any(|o| !matches!(o, GO::Value | GO::Erased | GO::Registry)))
}
pub fn c01(thorough: bool) -> Vec<Box<dyn Case>> {
    let mut v: Vec<Box<dyn Case>> = vec![];
    let mut long: Vec<Box<dyn Case>> = vec![];
    let all = [CO::Inc, CO::Add(5), CO::Add(u64::MAX), CO::Set(7), CO::Reset, CO::Value, CO::Erased];
    let few = [CO::Inc, CO::Add(u64::MAX), CO::Set(7), CO::Reset, CO::Value];
    let mut add = |progs: Vec<Vec<CO>>, init: u64| if useful_c(&progs) { v.push(Box::new(CaseC { init, progs })) };
    for p in multisets(&seqs(&all, 1, 1), 2) { add(p, u64::MAX) }
    for p in multisets(&seqs(&few, 1, 2), 2) { if p.iter().any(|t| t.len() > 1) { add(p.clone(), 3); add(p, u64::MAX) } }
    for p in multisets(&seqs(&few, 1, 1), 3) { add(p.clone(), u64::MAX); add(p, 0) }
    // every magnitude: 0, around powers of two and around the maximum
    let mags = [CO::Inc, CO::Add(0), CO::Add(5), CO::Add(1 << 32), CO::Add(1 << 63), CO::Add(u64::MAX), CO::Set(0), CO::Set(u64::MAX), CO::Reset, CO::Value];
    for init in [0, 1, 5, 255, 65535, u32::MAX as u64, 1 << 32, (1 << 53) - 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX] {
        for p in multisets(&seqs(&mags, 1, 1), 2) { add(p.clone(), init); add(vec![p[0].clone(), vec![p[1][0], CO::Value]], init) }
        for o in mags { add(vec![vec![o], vec![CO::Registry]], init) }
    }
    // operands, contents and results around constants of the sources
    for k in constants() { for init in [3, k, k.wrapping_neg()] {
        for o in [CO::Inc, CO::Add(k), CO::Set(k), CO::Reset, CO::Value] { add(vec![vec![CO::Add(k)], vec![o]], init); add(vec![vec![CO::Set(k)], vec![o]], init); if init != 3 { add(vec![vec![CO::Inc], vec![o]], init) } }
        add(vec![vec![CO::Add(k)], vec![CO::Inc, CO::Value]], init);
    } }
    // one or two calls against a run of updates: retry loops that give up, and four threads at once
    for o in [CO::Inc, CO::Set(7), CO::Reset, CO::Value] { for k in 3..=5 { add(vec![vec![o], vec![CO::Inc; k]], 3) } add(vec![vec![o, CO::Inc], vec![CO::Inc; 4]], 3) }
    for o in [CO::Inc, CO::Set(7)] { add(vec![vec![o], vec![CO::Inc; 2], vec![CO::Inc; 2]], 3); add(vec![vec![o], vec![CO::Inc], vec![CO::Add(5)], vec![CO::Inc]], 3) }
    // long histories under periodic schedules
    let max = if thorough { 9 } else { 6 };
    for a in [vec![CO::Inc], vec![CO::Add(5)], vec![CO::Set(7)], vec![CO::Reset], vec![CO::Value], vec![CO::Erased, CO::Inc], vec![CO::Inc, CO::Set(u64::MAX), CO::Value]] { for b in [vec![CO::Inc], vec![CO::Add(u64::MAX), CO::Value]] {
        long.push(Box::new(Long(CaseC { init: 3, progs: vec![cycle(&a, 70), cycle(&b, 140)] }, max)));
        if thorough { long.push(Box::new(Long(CaseC { init: 3, progs: vec![cycle(&a, 40), cycle(&b, 300)] }, max))) }
    } }
    for a in [vec![CO::Inc], vec![CO::Add(5)], vec![CO::Set(7), CO::Value]] { long.push(Box::new(Long(CaseC { init: u64::MAX - 9, progs: vec![cycle(&a, 40), vec![CO::Inc; 80], vec![CO::Inc; 80]] }, if thorough { 5 } else { 3 }))) }
    for n in amounts(if thorough { 1024 } else { 256 }) { for f in [CO::Inc, CO::Add(u64::MAX), CO::Set(7), CO::Reset, CO::Value, CO::Erased] { for g in [vec![CO::Inc], vec![CO::Set(3), CO::Set(4)], vec![CO::Add(1), CO::Add(u64::MAX)]] {
        long.push(Box::new(Stalled(CaseC { init: 3, progs: vec![vec![f, CO::Inc], cycle(&g, n)] }, 0, 1, 5)));
    } } }
    for k in crowds() { for f in [vec![CO::Inc], vec![CO::Add(5), CO::Value], vec![CO::Set(7)], vec![CO::Value], vec![CO::Reset, CO::Inc]] { for g in [vec![CO::Inc; 2], vec![CO::Set(9), CO::Value], vec![CO::Value], vec![CO::Registry]] {
        let mut p = vec![g]; p.extend(vec![f.clone(); k]);
        if useful_c(&p) { long.push(Box::new(Crowd(CaseC { init: 3, progs: p }, 8))) }
    } } }
    for w in [CO::Inc, CO::Set(7), CO::Reset] { add(vec![vec![w], vec![CO::Registry]], 3); add(vec![vec![w], vec![CO::Registry, CO::Registry]], 3) }
    if thorough {
        let min = [CO::Inc, CO::Set(7), CO::Value];
        for p in multisets(&seqs(&min, 1, 3), 2) { if p.iter().any(|t| t.len() > 2) { add(p, 1) } }
        for p in multisets(&seqs(&min, 1, 2), 3) { if p.iter().any(|t| t.len() > 1) && p.iter().map(|t| t.len()).sum::<usize>() <= 5 { add(p, 1) } }
        for p in multisets(&seqs(&all, 1, 2), 2) { if p.iter().any(|t| t.len() > 1) { add(p, u64::MAX) } }
    }
    v.extend(long);
    v
}
pub fn c02(thorough: bool) -> Vec<Box<dyn Case>> {
    let mut v: Vec<Box<dyn Case>> = vec![];
    let mut long: Vec<Box<dyn Case>> = vec![];
    let all = [GO::Inc, GO::Dec, GO::Add(5), GO::Sub(3), GO::Add(i64::MAX), GO::Sub(i64::MIN), GO::Set(-7), GO::Reset, GO::Value, GO::Erased];
    let few = [GO::Inc, GO::Sub(3), GO::Set(-7), GO::Reset, GO::Value];
    let mut add = |progs: Vec<Vec<GO>>, init: i64| if useful_g(&progs) { v.push(Box::new(CaseG { init, progs })) };
    for p in multisets(&seqs(&all, 1, 1), 2) { add(p.clone(), i64::MAX); add(p, i64::MIN) }
    for p in multisets(&seqs(&few, 1, 2), 2) { if p.iter().any(|t| t.len() > 1) { add(p.clone(), -3); add(p, 0) } }
    // every magnitude: 0, around powers of two and around both ends; there and back again
    let mags = [GO::Inc, GO::Dec, GO::Add(0), GO::Add(5), GO::Sub(5), GO::Add(1 << 32), GO::Add(i64::MIN), GO::Sub(i64::MIN), GO::Add(i64::MAX), GO::Set(0), GO::Set(-1), GO::Set(i64::MIN), GO::Reset, GO::Value];
    for init in [0, 1, -1, 5, -5, 255, u32::MAX as i64, i32::MIN as i64, 1 << 53, i64::MIN, i64::MIN + 1, i64::MAX - 1, i64::MAX] {
        for p in multisets(&seqs(&mags, 1, 1), 2) { add(p.clone(), init); if init.abs() <= 1 || init == i64::MIN { add(vec![p[0].clone(), vec![p[1][0], GO::Value]], init) } }
        for o in mags { add(vec![vec![o], vec![GO::Registry]], init); add(vec![vec![o], vec![GO::Inc, GO::Dec]], init); add(vec![vec![o], vec![GO::Dec, GO::Inc]], init) }
    }
    // operands, contents and results around constants of the sources
    for k in constants().into_iter().flat_map(|k| [k as i64, (k as i64).wrapping_neg()]).collect::<std::collections::BTreeSet<_>>() { for init in [3, k, k.wrapping_neg()] {
        for o in [GO::Inc, GO::Dec, GO::Add(k), GO::Sub(k), GO::Set(k), GO::Reset, GO::Value] { add(vec![vec![GO::Add(k)], vec![o]], init); add(vec![vec![GO::Sub(k)], vec![o]], init); add(vec![vec![GO::Set(k)], vec![o]], init); if init != 3 { add(vec![vec![GO::Inc], vec![o]], init); add(vec![vec![GO::Dec], vec![o]], init) } }
    } }
    let few3 = [GO::Inc, GO::Dec, GO::Add(5), GO::Sub(3), GO::Set(-7), GO::Value];
    for p in multisets(&seqs(&few3, 1, 1), 3) { add(p, i64::MAX) }
    // one or two calls against a run of updates: retry loops that give up, and four threads at once
    for o in [GO::Inc, GO::Dec, GO::Set(7), GO::Reset, GO::Value] { for u in [GO::Inc, GO::Dec] { for k in 3..=5 { add(vec![vec![o], vec![u; k]], 3) } add(vec![vec![o, u], vec![u; 4]], 3) } }
    for o in [GO::Inc, GO::Dec, GO::Set(7)] { add(vec![vec![o], vec![GO::Dec; 2], vec![GO::Dec; 2]], 3); add(vec![vec![o], vec![GO::Dec], vec![GO::Sub(5)], vec![GO::Inc]], 3) }
    // long histories under periodic schedules
    let max = if thorough { 9 } else { 6 };
    for a in [vec![GO::Inc], vec![GO::Dec], vec![GO::Add(5)], vec![GO::Sub(5)], vec![GO::Set(7)], vec![GO::Reset], vec![GO::Value], vec![GO::Erased, GO::Dec], vec![GO::Inc, GO::Set(i64::MIN), GO::Value]] { for b in [vec![GO::Inc], vec![GO::Dec], vec![GO::Sub(3), GO::Add(2), GO::Value]] {
        long.push(Box::new(Long(CaseG { init: 3, progs: vec![cycle(&a, 70), cycle(&b, 140)] }, max)));
    } }
    for a in [vec![GO::Inc], vec![GO::Sub(5)], vec![GO::Set(7), GO::Value]] { long.push(Box::new(Long(CaseG { init: -9, progs: vec![cycle(&a, 40), vec![GO::Inc; 80], vec![GO::Dec; 80]] }, if thorough { 5 } else { 3 }))) }
    for n in amounts(if thorough { 1024 } else { 256 }) { for f in [GO::Inc, GO::Dec, GO::Add(i64::MAX), GO::Sub(3), GO::Set(7), GO::Reset, GO::Value, GO::Erased] { for g in [vec![GO::Inc], vec![GO::Set(3), GO::Set(-4)], vec![GO::Add(1), GO::Dec]] {
        long.push(Box::new(Stalled(CaseG { init: 3, progs: vec![vec![f, GO::Dec], cycle(&g, n)] }, 0, 1, 5)));
    } } }
    for k in crowds() { for f in [vec![GO::Inc], vec![GO::Dec], vec![GO::Sub(5), GO::Value], vec![GO::Set(-7)], vec![GO::Value], vec![GO::Reset, GO::Dec]] { for g in [vec![GO::Dec; 2], vec![GO::Set(9), GO::Value], vec![GO::Value], vec![GO::Registry]] {
        let mut p = vec![g]; p.extend(vec![f.clone(); k]);
        if useful_g(&p) { long.push(Box::new(Crowd(CaseG { init: 3, progs: p }, 8))) }
    } } }
    for w in [GO::Inc, GO::Dec, GO::Set(7), GO::Reset] { add(vec![vec![w], vec![GO::Registry]], 3); add(vec![vec![w], vec![GO::Registry, GO::Registry]], 3) }
    if thorough {
        let min = [GO::Dec, GO::Set(7), GO::Value];
        for p in multisets(&seqs(&min, 1, 3), 2) { if p.iter().any(|t| t.len() > 2) { add(p, 1) } }
        for p in multisets(&seqs(&min, 1, 2), 3) { if p.iter().any(|t| t.len() > 1) && p.iter().map(|t| t.len()).sum::<usize>() <= 5 { add(p, 1) } }
        for p in multisets(&seqs(&all, 1, 2), 2) { if p.iter().any(|t| t.len() > 1) { add(p, i64::MAX) } }
    }
    v.extend(long);
    v
}
