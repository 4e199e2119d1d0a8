//! C15: snapshots taken while other threads update and register metrics.
use crate::hist::{bucket_of, judge_event, pattern};
use crate::mc::*;
use metriken::{metric, Format, Metric, MetricEntry, Value, AtomicHistogram, Counter, DynBoxedMetric, Gauge, LazyCounter, MetricBuilder, RwLockHistogram};
use metriken_exposition::{Snapshotter, SnapshotterBuilder};
use std::cell::UnsafeCell;
use std::time::{Duration, SystemTime};

#[metric(name = "s/counter", metadata = { kind = "static" })]
static SC: Counter = Counter::new();
#[metric(name = "s/lazy")]
static SL: LazyCounter = LazyCounter::new(Counter::new);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SO {
    Snap, CInc, CSet(u64), StaticInc, LazyForce, GDec, HRec(u64), BUpdate(u64), Build(u8), DropIt(u8),
    /// Event and bulk histograms that come and go, of three sizes.
    BuildE(u8), BuildB(u8), DropE, DropB,
}
/// What one snapshot said, in a comparable form.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Reading { counters: Vec<(String, u64)>, gauges: Vec<(String, i64)>, hists: Vec<(String, Vec<u64>)>, ts_ok: bool, meta_ok: bool }
type R = Option<Reading>;

/// A metric whose value is computed from the other metrics: from a snapshot of its own, or from a view.
struct Query(u8);
impl Metric for Query {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> {
        let mut seen: Vec<(String, i64)> = vec![];
        if self.0 == 1 {
            let mut s = SnapshotterBuilder::new().filter(|e| e.name() != "q").build().snapshot();
            seen = s.counters().into_iter().map(|c| (c.name, c.value as i64)).collect();
        } else {
            for e in &metriken::metrics() { if e.name() != "q" { if let Some(Value::Counter(v)) = e.value() { seen.push((e.name().to_string(), v as i64)) } } }
        }
        let of = |n: &str| seen.iter().find(|x| x.0 == n).map(|x| x.1 + 1).unwrap_or(0);
        Some(Value::Gauge(of("c") * 100 + of("d00")))
    }
}
fn by_view(_: &MetricEntry) -> bool { metriken::metrics().iter().count() > 0 }
fn name_by_view(e: &MetricEntry, _: Format) -> String { if metriken::metrics().iter().any(|x| std::ptr::eq(x, e)) { e.name().to_string() } else { "lost".into() } }

struct W {
    q: Option<DynBoxedMetric<Query>>,
    progs: Vec<Vec<SO>>,
    snapper: Snapshotter,
    c: Option<DynBoxedMetric<Counter>>, g: Option<DynBoxedMetric<Gauge>>, h: Option<DynBoxedMetric<AtomicHistogram>>, b: Option<DynBoxedMetric<RwLockHistogram>>,
    slots: UnsafeCell<Vec<Vec<Option<DynBoxedMetric<Counter>>>>>,
    event: UnsafeCell<Vec<Option<DynBoxedMetric<AtomicHistogram>>>>, bulk: UnsafeCell<Vec<Option<DynBoxedMetric<RwLockHistogram>>>>,
    init_hist: Option<Vec<u64>>,
    log: Logs<Rec<SO, R>>,
}
unsafe impl Sync for W {}
fn reading(s: &Snapshotter) -> Reading {
    let t0 = now_ns();
    let mut snap = s.snapshot();
    let t1 = now_ns();
    let ts = snap.systemtime();
    let at = |n: u64| SystemTime::UNIX_EPOCH + Duration::from_nanos(n);
    let mut r = Reading { ts_ok: t0 == t1 || (ts >= at(t0) && ts <= at(t1)), meta_ok: true, ..Default::default() };
    r.counters = snap.counters().into_iter().map(|c| { r.meta_ok &= meta(&c.name, &c.metadata); (c.name, c.value) }).collect();
    r.gauges = snap.gauges().into_iter().map(|c| { r.meta_ok &= meta(&c.name, &c.metadata); (c.name, c.value) }).collect();
    r.hists = snap.histograms().into_iter().map(|c| { r.meta_ok &= meta(&c.name, &c.metadata); (c.name, c.value.as_slice().to_vec()) }).collect();
    r.counters.sort(); r.gauges.sort(); r.hists.sort();
    r
}
fn meta(name: &str, m: &std::collections::HashMap<String, String>) -> bool {
    match name {
        "s/counter" => m.len() == 1 && m.get("kind").map(|s| s.as_str()) == Some("static"),
        n if "hbEB".contains(&n[..1]) => m.len() == 2,
        "s/lazy" | "c" | "g" | "q" => m.is_empty(),
        n => m.len() == 1 && m.get("slot").map(|s| s.as_str()) == Some(n),
    }
}
fn sized(k: u8) -> (u8, u8) { [(0, 1), (2, 8), (3, 32)][k as usize] }
fn slot_name(t: usize, s: u8) -> String { format!("d{t}{s}") }
impl World for W {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            let inv = invoke();
            let mut r = None;
            match *op {
                SO::Snap => r = Some(reading(&self.snapper)),
                SO::CInc => { self.c.as_ref().unwrap().increment(); }
                SO::CSet(v) => { self.c.as_ref().unwrap().set(v); }
                SO::StaticInc => { SC.increment(); }
                SO::LazyForce => { metriken::Lazy::force(&SL); }
                SO::GDec => { self.g.as_ref().unwrap().decrement(); }
                SO::HRec(v) => { self.h.as_ref().unwrap().increment(v).unwrap(); }
                SO::BUpdate(k) => { let b = self.b.as_ref().unwrap(); b.update_from(&pattern(k, b.config().total_buckets())).unwrap(); }
                SO::Build(s) => unsafe { (&mut *self.slots.get())[tid][s as usize] = Some(MetricBuilder::new(slot_name(tid, s)).metadata("slot", slot_name(tid, s)).build(Counter::with_value(41))) },
                SO::DropIt(s) => unsafe { (&mut *self.slots.get())[tid][s as usize] = None },
                SO::BuildE(k) => unsafe {
                    let (g, m) = sized(k);
                    let h = AtomicHistogram::new(g, m);
                    h.increment(1).unwrap();
                    (&mut *self.event.get())[tid] = Some(MetricBuilder::new(format!("E{tid}")).build(h))
                },
                SO::BuildB(k) => unsafe {
                    let (g, m) = sized(k);
                    let h = RwLockHistogram::new(g, m);
                    h.update_from(&pattern(3, h.config().total_buckets())).unwrap();
                    (&mut *self.bulk.get())[tid] = Some(MetricBuilder::new(format!("B{tid}")).build(h))
                },
                SO::DropE => unsafe { (&mut *self.event.get())[tid] = None },
                SO::DropB => unsafe { (&mut *self.bulk.get())[tid] = None },
            }
            let res = ret();
            self.log.push(tid, Rec { tid, op: *op, ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        h.push(Rec { tid: 9, op: SO::Snap, ret: Some(reading(&self.snapper)), inv: FINAL.0, res: FINAL.1 });
        self.judge(&h).map_err(|e| format!("{e}: {}", show(&h)))?;
        Ok(shape(&h))
    }
}
fn queried(r: &Reading) -> Option<i128> { r.gauges.iter().find(|x| x.0 == "q").map(|x| x.1 as i128) }
#[derive(Clone, PartialEq, Eq, Hash)]
struct Num(i128);
#[derive(Clone, Debug)]
enum NO { Add(i128), Set(i128), Read }
impl Spec for Num {
    type Op = NO;
    type Ret = Option<i128>;
    fn step(&mut self, op: &NO) -> Option<i128> {
        match op { NO::Add(v) => { self.0 += v; None } NO::Set(v) => { self.0 = *v; None } NO::Read => Some(self.0) }
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct Opt(Option<i128>);
impl Spec for Opt {
    type Op = NO;
    type Ret = Option<i128>;
    fn step(&mut self, op: &NO) -> Option<i128> {
        match op { NO::Set(v) => { self.0 = Some(*v); None } NO::Read => self.0, NO::Add(_) => None }
    }
}
impl W {
    fn judge(&self, h: &[Rec<SO, R>]) -> Result<(), String> {
        let snaps: Vec<(&Reading, u32, u32, usize)> = h.iter().filter_map(|r| r.ret.as_ref().map(|x| (x, r.inv, r.res, r.tid))).collect();
        for (r, _, _, _) in &snaps {
            if !r.ts_ok { return Err("timestamp outside the call".into()) }
            if !r.meta_ok { return Err("wrong metadata".into()) }
            let mut all: Vec<&String> = r.counters.iter().map(|x| &x.0).chain(r.gauges.iter().map(|x| &x.0)).chain(r.hists.iter().map(|x| &x.0)).collect();
            let n = all.len();
            all.sort(); all.dedup();
            if all.len() != n { return Err("a metric appears twice".into()) }
            for name in all {
                let known = ["s/counter", "s/lazy", "c", "g", "h", "b", "q"].contains(&name.as_str()) || (name.starts_with('d') && name.len() == 3) || ("EB".contains(&name[..1]) && name.len() == 2);
                if !known { return Err(format!("unknown metric {name}")) }
            }
        }
        let rd = |f: &dyn Fn(&Reading) -> Option<i128>| snaps.iter().map(|(r, i, o, t)| Rec { tid: *t, op: NO::Read, ret: f(r), inv: *i, res: *o }).collect::<Vec<_>>();
        let nested = |f: &dyn Fn(&Reading) -> Option<i128>| rd(f).into_iter().map(|mut r| { r.tid += 10; r }).collect::<Vec<_>>();
        let ops = |f: &dyn Fn(SO) -> Option<NO>| h.iter().filter_map(|r| f(r.op).map(|op| Rec { tid: r.tid, op, ret: None, inv: r.inv, res: r.res })).collect::<Vec<_>>();
        let counter = |n: &'static str| move |r: &Reading| r.counters.iter().find(|x| x.0 == n).map(|x| x.1 as i128);
        let mut hist = ops(&|o| match o { SO::StaticInc => Some(NO::Add(1)), _ => None });
        hist.extend(rd(&counter("s/counter")));
        if !linearizable(&Num(0), &hist) { return Err("readings of the static counter fit no order of its updates".into()) }
        let mut hist = ops(&|o| match o { SO::LazyForce => Some(NO::Set(0)), _ => None });
        hist.extend(rd(&counter("s/lazy")));
        if !linearizable(&Opt(None), &hist) { return Err("readings of the lazy counter fit no order of its updates".into()) }
        if self.c.is_some() {
            let mut hist = ops(&|o| match o { SO::CInc => Some(NO::Add(1)), SO::CSet(v) => Some(NO::Set(v as i128)), _ => None });
            hist.extend(rd(&counter("c")));
            // what the computed metric saw is a reading as well
            if self.q.is_some() { hist.extend(nested(&|r| queried(r).map(|q| q / 100 - 1))) }
            if !linearizable(&Num(5), &hist) { return Err("readings of the counter fit no order of its updates".into()) }
        }
        if self.g.is_some() {
            let mut hist = ops(&|o| match o { SO::GDec => Some(NO::Add(-1)), _ => None });
            hist.extend(rd(&|r| r.gauges.iter().find(|x| x.0 == "g").map(|x| x.1 as i128)));
            if !linearizable(&Num(0), &hist) { return Err("readings of the gauge fit no order of its updates".into()) }
        }
        if let Some(hh) = &self.h {
            let recs: Vec<_> = h.iter().filter_map(|r| match r.op { SO::HRec(v) => Some((bucket_of(hh, v), r.inv, r.res)), _ => None }).collect();
            let loads: Vec<_> = snaps.iter().map(|(r, i, o, _)| (r.hists.iter().find(|x| x.0 == "h").map(|x| x.1.clone()), *i, *o)).collect();
            judge_event(&self.init_hist, &recs, &[], &loads)?;
        }
        if let Some(b) = &self.b {
            let n = b.config().total_buckets();
            let code = |v: &Vec<u64>| (1..9u64).find(|k| *v == pattern(*k, n)).map(|k| k as i128).unwrap_or(-1);
            let mut hist = ops(&|o| match o { SO::BUpdate(k) => Some(NO::Set(k as i128)), _ => None });
            hist.extend(rd(&|r| r.hists.iter().find(|x| x.0 == "b").map(|x| code(&x.1))));
            if !linearizable(&Opt(None), &hist) { return Err("readings of the bulk histogram fit no order of its updates".into()) }
        }
        // membership of dynamic metrics that come and go
        for t in 0..self.progs.len() { for s in 0..3u8 {
            let name = slot_name(t, s);
            let mut hist = ops(&|o| match o { SO::Build(x) if x == s => Some(NO::Set(41)), SO::DropIt(x) if x == s => Some(NO::Set(-1)), _ => None });
            hist.retain(|r| r.tid == t);
            hist.extend(rd(&|r| Some(r.counters.iter().find(|x| x.0 == name).map(|x| x.1 as i128).unwrap_or(-1))));
            if self.q.is_some() && name == "d00" { hist.extend(nested(&|r| queried(r).map(|q| q % 100 - 1))) }
            if !linearizable(&Num(-1), &hist) { return Err(format!("presence of {name} fits no order of its registration and removal")) }
        } }
        for t in 0..self.progs.len() { for (event, name) in [(true, format!("E{t}")), (false, format!("B{t}"))] {
            let code = |v: &Vec<u64>| (0..3u8).find(|k| {
                let (g, m) = sized(*k);
                let want = if event { let mut p = metriken::histogram::Histogram::new(g, m).unwrap(); p.increment(1).unwrap(); p.as_slice().to_vec() } else { pattern(3, v.len()) };
                *v == want
            }).map(|k| if event { k as i128 } else { v.len() as i128 }).unwrap_or(-2);
            let buckets = |k: u8| { let (g, m) = sized(k); metriken::histogram::Config::new(g, m).unwrap().total_buckets() as i128 };
            let mut hist = ops(&|o| match o {
                SO::BuildE(k) if event => Some(NO::Set(k as i128)), SO::DropE if event => Some(NO::Set(-1)),
                SO::BuildB(k) if !event => Some(NO::Set(buckets(k))), SO::DropB if !event => Some(NO::Set(-1)),
                _ => None });
            hist.retain(|r| r.tid == t);
            hist.extend(rd(&|r| Some(r.hists.iter().find(|x| x.0 == name).map(|x| code(&x.1)).unwrap_or(-1))));
            if !linearizable(&Num(-1), &hist) { return Err(format!("presence or contents of {name} fit no order of its registration and removal")) }
        } }
        Ok(())
    }
}
struct CaseS { heap: i32, used: bool, size: u8, query: u8, progs: Vec<Vec<SO>> }
impl Case for CaseS {
    fn name(&self) -> String { format!("snapshot{} heap{} {}{} {}", ["", " with a metric that takes snapshots", " with a metric that takes views", " with a filter and a formatter that take views"][self.query as usize], self.heap, if self.used { "used" } else { "fresh" }, if self.size > 0 { format!(" {:?}", sized(self.size)) } else { String::new() }, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn heap(&self) -> i32 { self.heap }
    fn setup(&self) -> Box<dyn World> {
        let has = |f: &dyn Fn(&SO) -> bool| self.progs.iter().flatten().any(|o| f(o));
        let n = self.progs.len();
        let (gp, mvp) = sized(self.size);
        let mut snapper = SnapshotterBuilder::new().metadata("k".into(), "v".into());
        if self.query == 3 { snapper = snapper.filter(by_view) }
        let mut w = W {
            q: None, progs: self.progs.clone(), snapper: snapper.build(),
            c: None, g: None, h: None, b: None, slots: UnsafeCell::new((0..n).map(|_| vec![None, None, None]).collect()), event: UnsafeCell::new((0..n).map(|_| None).collect()), bulk: UnsafeCell::new((0..n).map(|_| None).collect()), init_hist: None, log: Logs::new(n),
        };
        if has(&|o| matches!(o, SO::CInc | SO::CSet(_))) { let b = MetricBuilder::new("c"); w.c = Some(if self.query == 3 { b.formatter(name_by_view) } else { b }.build(Counter::with_value(5))) }
        if self.query == 1 || self.query == 2 { w.q = Some(MetricBuilder::new("q").build(Query(self.query))) }
        if has(&|o| matches!(o, SO::GDec)) { w.g = Some(MetricBuilder::new("g").build(Gauge::new())) }
        if has(&|o| matches!(o, SO::HRec(_))) {
            let h = MetricBuilder::new("h").build(AtomicHistogram::new(gp, mvp));
            if self.used { h.increment(1).unwrap(); }
            w.init_hist = h.load().map(|h| h.as_slice().to_vec());
            w.h = Some(h)
        }
        if has(&|o| matches!(o, SO::BUpdate(_))) { w.b = Some(MetricBuilder::new("b").build(RwLockHistogram::new(gp, mvp))) }
        Box::new(w)
    }
}
pub fn c15(thorough: bool) -> Vec<Box<dyn Case>> {
    use SO::*;
    let mut v: Vec<Box<dyn Case>> = vec![];
    let upd: Vec<Vec<SO>> = vec![
        vec![CInc], vec![StaticInc], vec![LazyForce], vec![GDec], vec![HRec(1)], vec![BUpdate(1)],
        vec![Build(0)], vec![Build(0), DropIt(0)], vec![CInc, CSet(9)], vec![StaticInc, StaticInc], vec![GDec, GDec],
        vec![HRec(0), HRec(1)], vec![BUpdate(1), BUpdate(2)], vec![Build(0), Build(1)], vec![CInc, GDec],
        vec![Build(0), CInc], vec![Build(0), DropIt(0), Build(1)], vec![StaticInc, LazyForce], vec![Build(0), StaticInc],
    ];
    let heaps: &[i32] = if thorough { &[0, 1, 2, 3] } else { &[0, 1] };
    for &heap in heaps {
        // histograms of every size, updated, registered and dropped during a snapshot
        for size in 1..3u8 { for u in [vec![HRec(1)], vec![BUpdate(1)], vec![HRec(0), HRec(200)], vec![BUpdate(1), BUpdate(2)]] { for used in [false, true] {
            v.push(Box::new(CaseS { heap, used, size, query: 0, progs: vec![u.clone(), vec![Snap]] }));
            v.push(Box::new(CaseS { heap, used, size, query: 0, progs: vec![u.clone(), vec![Snap, Snap]] }));
        } } }
        for k in 0..3u8 { for u in [vec![BuildE(k), DropE], vec![BuildB(k), DropB], vec![BuildE(k), BuildB(k)], vec![BuildE(k), DropE, BuildE(k)], vec![BuildB(k), DropB, BuildB((k + 1) % 3)], vec![BuildE(k), BuildB(k), DropE, DropB], vec![Build(0), BuildE(k), DropIt(0), DropE]] {
            if u.len() < 4 || thorough { v.push(Box::new(CaseS { heap, used: false, size: 0, query: 0, progs: vec![u.clone(), vec![Snap]] })); }
            if u.len() < 3 || thorough { v.push(Box::new(CaseS { heap, used: false, size: 0, query: 0, progs: vec![u.clone(), vec![Snap, Snap]] })) }
        } }
        // metrics, filters and formatters that look at the other metrics
        for query in 1..=3u8 { for u in [vec![CInc], vec![Build(0)], vec![Build(0), DropIt(0)], vec![CInc, Build(0)], vec![Build(0), Build(1)], vec![CInc, CSet(9)]] {
            v.push(Box::new(CaseS { heap, used: false, size: 0, query, progs: vec![u.clone(), vec![Snap]] }));
            if u.len() == 1 || thorough { v.push(Box::new(CaseS { heap, used: false, size: 0, query, progs: vec![u.clone(), vec![Snap, Snap]] })) }
            if thorough { v.push(Box::new(CaseS { heap, used: false, size: 0, query, progs: vec![u.clone(), vec![Snap], vec![Snap]] })) }
        } }
        // many snapshots at once
        for k in crowds() { for g in [vec![CInc], vec![Build(0)], vec![Build(0), DropIt(0)], vec![StaticInc, HRec(1)], vec![BUpdate(1), Build(0)], vec![Snap]] { for f in [vec![Snap], vec![Build(0), DropIt(0)], vec![CInc, Snap]] {
            let mut p = vec![g.clone()]; p.extend(vec![f.clone(); k]);
            v.push(Box::new(Crowd(CaseS { heap, used: true, size: 0, query: 0, progs: p }, 30)))
        } } }
        if heap == 0 || thorough {
            // long histories under periodic schedules
            for w in [vec![CInc], vec![CInc, CSet(3)], vec![StaticInc], vec![GDec], vec![HRec(0), HRec(1)], vec![BUpdate(1), BUpdate(2), BUpdate(3)], vec![Build(0), DropIt(0)], vec![Build(0), Build(1), DropIt(0), DropIt(1)], vec![BuildE(1), DropE], vec![BuildB(0), DropB]] {
                for n in amounts(if thorough { 512 } else { 256 }) {
                    v.push(Box::new(Stalled(CaseS { heap, used: true, size: 0, query: 0, progs: vec![cycle(&w, n / w.len() * w.len()), vec![Snap, Snap]] }, 1, 0, 30)));
                    v.push(Box::new(Stalled(CaseS { heap, used: true, size: 0, query: 0, progs: vec![w.clone(), vec![Snap; 1 + n / 8]] }, 0, 1, 20)));
                }
                v.push(Box::new(Long(CaseS { heap, used: false, size: 0, query: 0, progs: vec![cycle(&w, 80), vec![Snap; 10]] }, if thorough { 10 } else { 6 })));
            }
        }
        let mut add = |used: bool, progs: Vec<Vec<SO>>| v.push(Box::new(CaseS { heap, used, size: 0, query: 0, progs }));
        for u in &upd {
            add(false, vec![u.clone(), vec![Snap]]);
            add(false, vec![u.clone(), vec![Snap, Snap]]);
            if u.iter().any(|o| matches!(o, HRec(_))) { add(true, vec![u.clone(), vec![Snap]]) }
            if u.len() == 1 || thorough { add(false, vec![u.clone(), vec![Snap], vec![Snap]]) }
        }
        for (i, a) in upd.iter().enumerate() { for b in &upd[i..] {
            if a.len() + b.len() <= if thorough { 3 } else if heap == 0 { 2 } else { 0 } { add(false, vec![a.clone(), b.clone(), vec![Snap]]) }
        } }
        add(false, vec![vec![StaticInc, Snap], vec![StaticInc, Snap]]);
        add(false, vec![vec![CInc, Snap], vec![Snap, CInc]]);
        add(false, vec![vec![Build(0), Snap, DropIt(0)], vec![Snap]]);
    }
    v
}
