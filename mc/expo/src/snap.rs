//! C14: what a snapshot contains.
use crate::ctx::*;
use crate::env::NOW;
use crate::model::*;
use crate::table::diff;
use metriken::*;
use metriken_exposition::{Snapshot, Snapshotter, SnapshotterBuilder};
use std::any::Any;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::pin::Pin;
use std::sync::Mutex;
use std::time::Duration;

fn fmt_a(e: &MetricEntry, f: Format) -> String { format!("A<{}|{}|{:?}>", e.name(), matches!(f, Format::Simple), e.description()) }

#[metric(name = "st/counter", description = "a counter", metadata = { k = "v", z = "1" })]
static SC: Counter = Counter::with_value(7);
#[metric(name = "st/gauge", formatter = fmt_a)]
static SG: Gauge = Gauge::with_value(-3);
#[metric(name = "st/hist", description = "h", metadata = { description = "lost", grouping_power = "lost" })]
static SH: AtomicHistogram = AtomicHistogram::new(1, 3);
#[metric(name = "st/rw", metadata = { k = "v" })]
static SR: RwLockHistogram = RwLockHistogram::new(0, 2);
#[metric(name = "st/lazy")]
static SL: LazyCounter = LazyCounter::new(Counter::default);
#[metric]
static UNNAMED: LazyGauge = LazyGauge::new(|| Gauge::with_value(12));

/// What a metric can report, as plain data.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V { None, C(u64), G(i64), H(Hist) }
impl V {
    fn rec(&mut self, g: u8, n: u8, b: usize) { if *self == V::None { *self = V::H(Hist::new(g, n, 0)) } if let V::H(h) = self { h.b[b] += 1 } }
}
#[derive(Clone, Debug, Hash)]
struct Info { name: &'static str, meta: Vec<(&'static str, &'static str)>, desc: Option<&'static str>, fmt: bool }
impl Info {
    fn shown(&self) -> String {
        if self.fmt { format!("A<{}|true|{:?}>", self.name, self.desc) } else { self.name.to_string() }
    }
    fn meta(&self, v: &V) -> Map {
        let mut m = map(&self.meta);
        if let V::H(h) = v { m.insert("grouping_power".into(), h.g.to_string()); m.insert("max_value_power".into(), h.n.to_string()); }
        if let Some(d) = self.desc { m.insert("description".into(), d.into()); }
        m
    }
}
struct Custom { mode: u8, on: bool, n: AtomicU64, other: u32, ah: AtomicHistogram, rw: RwLockHistogram }
impl Metric for Custom {
    fn as_any(&self) -> Option<&dyn Any> { if self.mode % 2 == 0 { None } else { Some(self) } }
    fn is_enabled(&self) -> bool { self.on }
    fn value(&self) -> Option<Value<'_>> {
        match self.mode { 0 => None, 1 => Some(Value::Other(&self.other)), 2 => Some(Value::Counter(self.n.load(SeqCst))), 3 => Some(Value::Gauge(-(self.n.load(SeqCst) as i64))), 4 => Some(Value::Other(&self.ah)), 5 => Some(Value::Other(&self.rw)), _ => if self.n.load(SeqCst) % 2 == 0 { None } else { Some(Value::Counter(1)) } }
    }
}

enum H<M: Metric> { B(DynBoxedMetric<M>), P(Pin<Box<DynPinnedMetric<M>>>) }
impl<M: Metric> std::ops::Deref for H<M> { type Target = M; fn deref(&self) -> &M { match self { H::B(b) => b, H::P(p) => p } } }
/// A metric with the way to update it (also in the model) and to see that nothing but that happened to it.
struct Held<M: Metric> { h: H<M>, poke: fn(&M, u64, &mut V), same: fn(&M, &V) -> bool }
trait Obj { fn poke(&self, n: u64, v: &mut V); fn same(&self, v: &V) -> bool; }
impl<M: Metric> Obj for Held<M> { fn poke(&self, n: u64, v: &mut V) { (self.poke)(&self.h, n, v) } fn same(&self, v: &V) -> bool { (self.same)(&self.h, v) } }
struct Live { info: Info, v: V, o: Box<dyn Obj> }

fn put<M: Metric>(info: &Info, pinned: bool, v: V, m: M, poke: fn(&M, u64, &mut V), same: fn(&M, &V) -> bool) -> Live {
    let mut b = MetricBuilder::new(info.name);
    if let Some(d) = info.desc { b = b.description(d) }
    for (k, v) in &info.meta { b = b.metadata(*k, *v) }
    if info.fmt { b = b.formatter(fmt_a) }
    let h = if pinned { let (p, e) = b.build_pinned(m); let p = Box::pin(p); p.as_ref().register(e); H::P(p) } else { H::B(b.build(m)) };
    Live { info: info.clone(), v, o: Box::new(Held { h, poke, same }) }
}
fn addc(v: &mut V, n: u64) { if let V::C(c) = v { *c = c.wrapping_add(n) } }
fn addg(v: &mut V, n: i64) { if let V::G(c) = v { *c = c.wrapping_add(n) } }
fn same_hist(h: Option<histogram::Histogram>, v: &V) -> bool { match (h, v) { (None, V::None) => true, (Some(h), V::H(x)) => Hist::of(&h) == *x, _ => false } }
fn same_c(c: u64, v: &V) -> bool { *v == V::C(c) }
fn same_g(c: i64, v: &V) -> bool { *v == V::G(c) }
fn pat(n: u64) -> Vec<u64> { vec![n, u64::MAX - n, 3] }
fn upd(v: &mut V, n: u64) { *v = V::H(Hist { g: 0, n: 2, b: pat(n) }) }
fn custom(mode: u8, n: u64, on: bool) -> Custom { Custom { mode, on, n: AtomicU64::new(n), other: 9, ah: AtomicHistogram::new(1, 3), rw: RwLockHistogram::new(0, 2) } }
const KINDS: usize = 25;
fn build(kind: usize, info: &Info, pinned: bool) -> Live {
    let (i, p) = (info, pinned);
    // kinds 18.. are 11..=17 with the opposite enablement, which says nothing about the value
    let off = kind >= 18;
    match if off { kind - 7 } else { kind } {
        0 => put(i, p, V::C(0), Counter::new(), |m, n, v| { m.add(n); addc(v, n) }, |m, v| same_c(m.value(), v)),
        1 => put(i, p, V::C(u64::MAX), Counter::with_value(u64::MAX), |m, _, v| { m.increment(); addc(v, 1) }, |m, v| same_c(m.value(), v)),
        2 => put(i, p, V::G(0), Gauge::new(), |m, n, v| { m.sub(n as i64); addg(v, -(n as i64)) }, |m, v| same_g(m.value(), v)),
        3 => put(i, p, V::G(i64::MIN), Gauge::with_value(i64::MIN), |m, _, v| { m.decrement(); addg(v, -1) }, |m, v| same_g(m.value(), v)),
        4 => put(i, p, V::None, AtomicHistogram::new(1, 3), |m, n, v| { m.increment(n % 4).unwrap(); v.rec(1, 3, (n % 4) as usize) }, |m, v| same_hist(m.load(), v)),
        5 => { let m = AtomicHistogram::new(2, 64); m.increment(1).unwrap(); let mut v = V::None; v.rec(2, 64, 1); put(i, p, v, m, |m, n, v| { m.increment(n % 4).unwrap(); v.rec(2, 64, (n % 4) as usize) }, |m, v| same_hist(m.load(), v)) }
        6 => put(i, p, V::None, RwLockHistogram::new(0, 2), |m, n, v| { m.update_from(&pat(n)).unwrap(); upd(v, n) }, |m, v| same_hist(m.load(), v)),
        7 => { let m = RwLockHistogram::new(0, 2); m.update_from(&[0, 0, 0]).unwrap(); put(i, p, V::H(Hist::new(0, 2, 0)), m, |m, n, v| { m.update_from(&pat(n)).unwrap(); upd(v, n) }, |m, v| same_hist(m.load(), v)) }
        8 => put(i, p, V::None, LazyCounter::new(Counter::new), |m, n, v| { if *v == V::None { *v = V::C(0) } m.add(n); addc(v, n) }, |m, v| match Lazy::get(m) { None => *v == V::None, Some(c) => same_c(c.value(), v) }),
        9 => { let m = LazyGauge::new(|| Gauge::with_value(5)); Lazy::force(&m); put(i, p, V::G(5), m, |m, n, v| { m.add(n as i64); addg(v, n as i64) }, |m, v| Lazy::get(m).map_or(false, |g| same_g(g.value(), v))) }
        10 => put(i, p, V::None, Lazy::<AtomicHistogram>::new(|| AtomicHistogram::new(1, 3)), |m, n, v| { m.increment(n % 4).unwrap(); v.rec(1, 3, (n % 4) as usize) }, |m, v| match Lazy::get(m) { None => *v == V::None, Some(h) => same_hist(h.load(), v) }),
        11 => put(i, p, V::None, custom(0, 0, off), |m, n, _| { m.n.fetch_add(n, SeqCst); }, |_, _| true),
        12 => put(i, p, V::None, custom(1, 0, !off), |m, n, _| { m.n.fetch_add(n, SeqCst); }, |_, _| true),
        13 => put(i, p, V::C(4), custom(2, 4, !off), |m, n, v| { m.n.fetch_add(n, SeqCst); addc(v, n) }, |m, v| same_c(m.n.load(SeqCst), v)),
        14 => put(i, p, V::G(-4), custom(3, 4, !off), |m, n, v| { m.n.fetch_add(n, SeqCst); addg(v, -(n as i64)) }, |m, v| same_g(-(m.n.load(SeqCst) as i64), v)),
        15 => put(i, p, V::None, custom(4, 0, !off), |m, n, v| { m.ah.increment(n % 4).unwrap(); v.rec(1, 3, (n % 4) as usize) }, |m, v| same_hist(m.ah.load(), v)),
        16 => put(i, p, V::None, custom(5, 0, !off), |m, n, v| { m.rw.update_from(&pat(n)).unwrap(); upd(v, n) }, |m, v| same_hist(m.rw.load(), v)),
        _ => put(i, p, V::None, custom(6, 0, !off), |m, _, v| { m.n.fetch_add(1, SeqCst); *v = if *v == V::None { V::C(1) } else { V::None } }, |_, _| true),
    }
}
/// The static metrics as they must be now; updated only through here.
static STATICS: Mutex<Vec<(Info, V)>> = Mutex::new(Vec::new());
fn statics() -> Vec<(Info, V)> {
    let mut s = STATICS.lock().unwrap();
    if s.is_empty() {
        let i = |name, meta: &[(&'static str, &'static str)], desc, fmt| Info { name, meta: meta.to_vec(), desc, fmt };
        *s = vec![(i("st/counter", &[("k", "v"), ("z", "1")], Some("a counter"), false), V::C(7)), (i("st/gauge", &[], None, true), V::G(-3)), (i("st/hist", &[("description", "lost"), ("grouping_power", "lost")], Some("h"), false), V::None),
            (i("st/rw", &[("k", "v")], None, false), V::None), (i("st/lazy", &[], None, false), V::None), (i("UNNAMED", &[], None, false), V::None)];
    }
    s.clone()
}
fn poke_static(k: usize) {
    statics();
    let mut s = STATICS.lock().unwrap();
    let v = &mut s[k].1;
    match k {
        0 => { SC.increment(); addc(v, 1) }
        1 => { SG.decrement(); addg(v, -1) }
        2 => { SH.increment(2).unwrap(); v.rec(1, 3, 2) }
        3 => { SR.update_from(&pat(6)).unwrap(); upd(v, 6) }
        4 => { if *v == V::None { *v = V::C(0) } SL.increment(); addc(v, 1) }
        _ => { if *v == V::None { *v = V::G(12) } UNNAMED.increment(); addg(v, 1) }
    }
}
fn pass_all(_: &MetricEntry) -> bool { true }
fn pass_none(_: &MetricEntry) -> bool { false }
fn by_name(e: &MetricEntry) -> bool { e.name().starts_with("d/a") || e.name() == "st/hist" }
fn by_meta(e: &MetricEntry) -> bool { e.metadata().get("k") == Some("v") }
fn by_value(e: &MetricEntry) -> bool { matches!(e.value(), Some(Value::Gauge(_)) | Some(Value::Other(_))) }
fn by_desc(e: &MetricEntry) -> bool { e.description().is_some() }
fn by_view(e: &MetricEntry) -> bool { metrics().iter().filter(|x| std::ptr::eq(*x, e)).count() == 1 }
fn by_snapshot(e: &MetricEntry) -> bool {
    let mut all = SnapshotterBuilder::new().filter(|e| e.name() != "q").build().snapshot();
    let n = all.counters().len() + all.gauges().len() + all.histograms().len();
    n > 0 && !e.name().is_empty()
}
fn fmt_snapshot(e: &MetricEntry, f: Format) -> String { if by_snapshot(e) && by_view(e) { fmt_a(e, f) } else { "lost".into() } }
/// A metric whose value is the number of readings in a snapshot of the others, or the number of metrics in a view.
struct Query { mode: u8, runs: AtomicU64 }
impl Metric for Query {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> {
        self.runs.fetch_add(1, SeqCst);
        Some(Value::Gauge(if self.mode == 0 {
            let mut s = SnapshotterBuilder::new().filter(|e| e.name() != "q").build().snapshot();
            s.counters().len() + s.gauges().len() + s.histograms().len()
        } else { metrics().iter().count() } as i64))
    }
}
/// Where the next call panics: 0 nowhere, 1 in the filter, 2 in the formatter, 3 in the metric.
static BOOM: AtomicU64 = AtomicU64::new(0);
fn boom(at: u64) { if BOOM.load(SeqCst) == at { std::panic::resume_unwind(Box::new(())) } }
fn by_boom(e: &MetricEntry) -> bool { if e.name() == "q" { boom(1) } true }
fn fmt_boom(e: &MetricEntry, f: Format) -> String { boom(2); fmt_a(e, f) }
struct Boom;
impl Metric for Boom {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> { boom(3); Some(Value::Gauge(1)) }
}
/// The filters, and what they say in the model.
const FILTERS: [(Option<fn(&MetricEntry) -> bool>, fn(&Info, &V, bool) -> bool); 10] = [
    (None, |_, _, _| true), (Some(pass_all), |_, _, _| true), (Some(pass_none), |_, _, _| false), (Some(by_name), |i, _, _| i.name.starts_with("d/a") || i.name == "st/hist"),
    (Some(by_meta), |i, _, _| i.meta.contains(&("k", "v"))), (Some(by_value), |_, v, other| other || matches!(v, V::G(_))), (Some(by_desc), |i, _, _| i.desc.is_some()), (Some(by_view), |_, _, _| true), (Some(by_snapshot), |_, _, _| true), (Some(by_boom), |_, _, _| true),
];
fn snapshotter(f: usize, meta: usize) -> (Snapshotter, Map) {
    let kv: &[(&str, &str)] = [&[] as &[_], &[("k", "v")], &[("a", "1"), ("b", ""), ("a", "2")]][meta];
    let mut b = if meta == 0 { SnapshotterBuilder::default() } else { SnapshotterBuilder::new() };
    // the order of the calls to the builder does not matter
    if f % 2 == 0 { if let Some(f) = FILTERS[f].0 { b = b.filter(f) } }
    for (k, v) in kv { b = b.metadata(k.to_string(), v.to_string()) }
    if f % 2 == 1 { if let Some(f) = FILTERS[f].0 { b = b.filter(pass_none).filter(f) } }
    (if f == 0 && meta == 0 { Snapshotter::default() } else { b.build() }, map(kv))
}
/// Whether the metric's value is of the kind that consumers have to interpret.
fn other(kind: usize) -> bool { matches!(kind, 4..=7 | 12 | 15 | 16 | 19 | 22 | 23) }
fn take(r: &mut Rec, s: &(Snapshotter, Map), f: usize, live: &[(usize, &Live)]) -> Result<String, String> {
    r.step();
    let t0 = NOW.load(SeqCst);
    let snap: Snapshot = s.0.snapshot();
    let t1 = NOW.load(SeqCst);
    let got = Snap::of(&snap);
    if got.ts < Duration::from_nanos(t0) || got.ts > Duration::from_nanos(t1) { return Err(format!("timestamp {:?} of a snapshot taken from {t0} to {t1} ns", got.ts)) }
    if got.dur.is_some() { return Err(format!("duration {:?}", got.dur)) }
    if got.meta != s.1 { return Err(format!("snapshot metadata {:?}, expected {:?}", got.meta, s.1)) }
    let mut want = Snap::new(0, None);
    let st = statics();
    let all = st.iter().enumerate().map(|(k, (i, v))| (i, v, k == 2 || k == 3)).chain(live.iter().map(|(k, l)| (&l.info, &l.v, other(*k) || (*k == 10 && l.v != V::None))));
    for (i, v, o) in all {
        r.state(&(i, v));
        if !FILTERS[f].1(i, v, o) { continue }
        match v { V::None => {} V::C(x) => want.c.push(R { name: i.shown(), value: *x, meta: i.meta(v) }), V::G(x) => want.g.push(R { name: i.shown(), value: *x, meta: i.meta(v) }), V::H(x) => want.h.push(R { name: i.shown(), value: x.clone(), meta: i.meta(v) }) }
    }
    let mut got = got;
    got.c.sort(); got.g.sort(); got.h.sort(); want.c.sort(); want.g.sort(); want.h.sort();
    diff("counters", &got.c, &want.c)?;
    diff("gauges", &got.g, &want.g)?;
    diff("histograms", &got.h, &want.h)?;
    for (_, l) in live { if !l.o.same(&l.v) { return Err(format!("the snapshot changed {:?}", l.info)) } }
    let quiet = [(4, Lazy::get(&SL).is_none()), (5, Lazy::get(&UNNAMED).is_none()), (2, SH.load().is_none()), (3, SR.load().is_none())];
    for (k, q) in quiet { if q != (st[k].1 == V::None) { return Err(format!("the snapshot changed {:?}", st[k].0)) } }
    Ok(format!("{} {} {}", want.c.len(), want.g.len(), want.h.len()))
}
const METAS: [&[(&str, &str)]; 4] = [&[], &[("k", "v"), ("j", "")], &[("description", "from metadata"), ("k", "w")], &[("grouping_power", "zz"), ("max_value_power", "yy"), ("k", "v")]];
const DESCS: [Option<&str>; 3] = [None, Some("a description"), Some("")];
#[derive(Clone, Copy, Debug, PartialEq)]
enum O { Snap, Poke(usize), Build(usize), Drop(usize), Static(usize) }

pub fn c14(c: &mut Ctx) {
    NOW.store(1_700_000_000_000_000_000, SeqCst);
    let info = |name, m: usize, d: usize, fmt| Info { name, meta: METAS[m].to_vec(), desc: DESCS[d], fmt };
    // every kind with every metadata, description, formatter and filter, before and after an update
    for kind in 0..KINDS { for m in 0..4 { for d in 0..3 { for fmt in [false, true] { for f in 0..FILTERS.len() - 1 { for pinned in [false, true] {
        if pinned && !c.thorough && f > 1 { continue }
        c.case(|| format!("kind {kind} metadata {:?} description {:?} formatter {fmt} filter {f} pinned {pinned}", METAS[m], DESCS[d]), |r| {
            let s = snapshotter(f, m % 3);
            let mut l = build(kind, &info("d/a", m, d, fmt), pinned);
            let mut out = take(r, &s, f, &[(kind, &l)])?;
            for n in [3u64, 1] { let Live { v, o, .. } = &mut l; o.poke(n, v); out += &take(r, &s, f, &[(kind, &l)])?; }
            drop(l);
            out += &take(r, &s, f, &[])?;
            Ok(out)
        })
    } } } } } }
    // static metrics, from unused to used, in every order of two updates
    for f in 0..FILTERS.len() - 1 { for a in 0..6 { for b in 0..6 { c.case(|| format!("static {a} then {b}, filter {f}"), |r| {
        let s = snapshotter(f, a % 3);
        let mut out = take(r, &s, f, &[])?;
        poke_static(a);
        out += &take(r, &s, f, &[])?;
        poke_static(b);
        out += &take(r, &s, f, &[])?;
        Ok(out)
    }) } } }
    // pairs of kinds, of different and of the same name
    for a in 0..KINDS { for b in 0..KINDS { for f in [0usize, 3, 4, 5] { for name in ["d/b", "d/a", "st/counter"] { c.case(|| format!("kinds {a} and {b} ({name}), filter {f}"), |r| {
        let s = snapshotter(f, 1);
        let mut x = build(a, &info("d/a", 1, 0, false), false);
        let mut y = build(b, &info(name, 2, 1, true), true);
        let mut out = take(r, &s, f, &[(a, &x), (b, &y)])?;
        x.o.poke(2, &mut x.v);
        out += &take(r, &s, f, &[(a, &x), (b, &y)])?;
        y.o.poke(5, &mut y.v);
        out += &take(r, &s, f, &[(a, &x), (b, &y)])?;
        drop(x);
        out += &take(r, &s, f, &[(b, &y)])?;
        Ok(out)
    }) } } } }
    // metrics that cannot be told apart
    for a in 0..KINDS { for b in 0..KINDS { for k in 2..=3usize { for f in [0usize, 4] { c.case(|| format!("{k} metrics of kinds {a} and {b} alike, filter {f}"), |r| {
        let s = snapshotter(f, 1);
        let mut v: Vec<(usize, Live)> = (0..k).map(|i| { let kind = if i == 1 { b } else { a }; (kind, build(kind, &info("d/a", 1, 1, false), i == 2)) }).collect();
        let mut out = take(r, &s, f, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?;
        for i in 0..k { let l = &mut v[i].1; l.o.poke(2 + (i / 2) as u64, &mut l.v); out += &take(r, &s, f, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?; }
        v.remove(0);
        out += &take(r, &s, f, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?;
        Ok(out)
    }) } } } }
    // all histories of building, updating, dropping and snapshots
    let depth = if c.thorough { 5 } else { 4 };
    let alpha = [O::Snap, O::Build(0), O::Build(1), O::Poke(0), O::Poke(1), O::Drop(0), O::Drop(1), O::Static(0)];
    for kinds in [[0usize, 6], [4, 2], [8, 10], [15, 17], [1, 16]] { for f in [0usize, 5] {
        seqs_of(&alpha, 1, depth, |ops| {
            c.case(|| format!("kinds {kinds:?} filter {f}: {ops:?}"), |r| {
                let s = snapshotter(f, 2);
                let mut slots: [Option<Live>; 2] = [None, None];
                let mut out = String::new();
                fn refs<'a>(s: &'a [Option<Live>; 2], kinds: &[usize; 2]) -> Vec<(usize, &'a Live)> { s.iter().enumerate().filter_map(|(i, l)| l.as_ref().map(|l| (kinds[i], l))).collect() }
                for o in ops {
                    r.step();
                    match *o {
                        O::Snap => out += &take(r, &s, f, &refs(&slots, &kinds))?,
                        O::Build(i) => slots[i] = Some(build(kinds[i], &info(["d/a", "d/b"][i], i + 1, i, false), i == 1)),
                        O::Poke(i) => if let Some(l) = &mut slots[i] { l.o.poke(3 + i as u64, &mut l.v) },
                        O::Drop(i) => slots[i] = None,
                        O::Static(k) => poke_static(k),
                    }
                }
                out += &take(r, &s, f, &refs(&slots, &kinds))?;
                Ok(out)
            })
        })
    } }
    // one after the other, each in place of the one before, seen by one snapshotter
    const NAMES: [&str; 4] = ["d/a", "d/b", "d/a/b", "x"];
    let len = if c.thorough { 3 } else { 2 };
    let each: Vec<(usize, usize)> = (0..KINDS).flat_map(|k| (0..4).map(move |i| (k, i))).collect();
    for f in [0usize, 3] { for between in [true, false] { seqs_of(&each, 2, 2, |v| {
        c.case(|| format!("in turn {v:?}, filter {f}, snapshots between: {between}"), |r| {
            let s = snapshotter(f, 1);
            let mut out = String::new();
            for round in 0..len { for (kind, i) in v {
                let mut l = build(*kind, &info(NAMES[(i + round) % 4], *i, i % 3, i % 2 == 1), i / 2 == 1);
                out += &take(r, &s, f, &[(*kind, &l)])?;
                l.o.poke(2, &mut l.v);
                out += &take(r, &s, f, &[(*kind, &l)])?;
                drop(l);
                if between { out += &take(r, &s, f, &[])?; }
            } }
            Ok(out)
        })
    }) } }
    // snapshots by other threads
    for kind in 0..KINDS { for f in [0usize, 5] { c.case(|| format!("kind {kind} seen by other threads, filter {f}"), |r| {
        let s = snapshotter(f, 2);
        let mut out = String::new();
        for i in 0..3 {
            let mut l = build(kind, &info(NAMES[i], i, i, i == 1), i == 2);
            for n in [1u64, 4] {
                let got = std::thread::scope(|t| t.spawn(|| Snap::of(&s.0.snapshot())).join()).map_err(|_| "the snapshot panicked in another thread".to_string())?;
                let here = Snap::of(&s.0.snapshot());
                let sorted = |mut s: Snap| { s.c.sort(); s.g.sort(); s.h.sort(); s.ts = Duration::ZERO; s };
                if sorted(got.clone()) != sorted(here.clone()) { return Err(format!("another thread takes {got:?}, this one {here:?}")) }
                out += &take(r, &s, f, &[(kind, &l)])?;
                l.o.poke(n, &mut l.v);
            }
            // dropped elsewhere
            drop(l);
            out += &take(r, &s, f, &[])?;
        }
        Ok(out)
    }) } }
    // many metrics at once
    for n in [5usize, 17, 64, 200, 1000] { c.case(|| format!("{n} metrics"), |r| {
        let s = snapshotter(0, 1);
        let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("many/{i}").into_boxed_str())).collect();
        let mut v: Vec<(usize, Live)> = (0..n).map(|i| (i % KINDS, build(i % KINDS, &info(names[i], i % 4, i % 3, i % 5 == 0), i % 2 == 0))).collect();
        let out = take(r, &s, 0, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?;
        for (i, (_, l)) in v.iter_mut().enumerate() { if i % 3 == 0 { l.o.poke(i as u64, &mut l.v) } }
        take(r, &s, 0, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?;
        let mut i = 0; v.retain(|_| { i += 1; i % 3 != 0 });
        take(r, &s, 0, &v.iter().map(|(k, l)| (*k, l)).collect::<Vec<_>>())?;
        Ok(out)
    }) }
    // metrics, formatters and filters that look at the other metrics, while a snapshot is taken
    for kind in 0..KINDS { for mode in 0..2u8 { for fmt in [false, true] { for f in [0usize, 6, 7, 8] { for first in [false, true] { c.case(|| format!("kind {kind} with a metric that takes {} (formatter {fmt}), filter {f}, first {first}", ["snapshots", "views"][mode as usize]), |r| {
        let s = snapshotter(f, 1);
        let i = Info { name: "q", meta: vec![], desc: Some("number of metrics"), fmt };
        let q = || {
            let mut b = MetricBuilder::new("q").description("number of metrics");
            if fmt { b = b.formatter(fmt_snapshot) }
            Live { info: i.clone(), v: V::G(0), o: Box::new(Held { h: H::B(b.build(Query { mode, runs: AtomicU64::new(0) })), poke: |_, _, _| (), same: |_: &Query, _| true }) }
        };
        let early = if first { Some(q()) } else { None };
        let mut l = build(kind, &info("d/a", 1, 0, false), false);
        let mut q = match early { Some(q) => q, None => q() };
        let n = |v: &V| V::G(if mode == 0 { statics().iter().map(|(_, v)| v).chain([v]).filter(|v| **v != V::None).count() as i64 } else { 8 });
        let mut out = String::new();
        for k in 0..3u64 {
            q.v = n(&l.v);
            out += &take(r, &s, f, &[(kind, &l), (2, &q)])?;
            l.o.poke(1 + k, &mut l.v);
        }
        Ok(out)
    }) } } } } }
    // a snapshot that a filter, a formatter or a metric cuts short by a panic leaves nothing behind
    for kind in 0..KINDS { for at in 1..=3u64 { for times in 1..=2 { for first in [false, true] { c.case(|| format!("kind {kind} after {times} snapshots with a panic in the {}, first {first}", ["filter", "formatter", "metric"][at as usize - 1]), |r| {
        let s = snapshotter(9, 2);
        let i = Info { name: "q", meta: vec![], desc: None, fmt: true };
        let q = || Live { info: i.clone(), v: V::G(1), o: Box::new(Held { h: H::B(MetricBuilder::new("q").formatter(fmt_boom).build(Boom)), poke: |_, _, _| (), same: |_: &Boom, _| true }) };
        let early = if first { Some(q()) } else { None };
        let mut l = build(kind, &info("d/a", 1, 0, false), false);
        let q = match early { Some(q) => q, None => q() };
        let mut out = take(r, &s, 9, &[(kind, &l), (2, &q)])?;
        for _ in 0..times {
            BOOM.store(at, SeqCst);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(s.0.snapshot())));
            BOOM.store(0, SeqCst);
            l.o.poke(1, &mut l.v);
            out += &take(r, &s, 9, &[(kind, &l), (2, &q)])?;
        }
        // nor does it hold the registry
        let other = build(0, &info("d/b", 2, 1, false), true);
        out += &take(r, &s, 9, &[(kind, &l), (2, &q), (0, &other)])?;
        drop(q);
        out += &take(r, &s, 9, &[(kind, &l), (0, &other)])?;
        Ok(out)
    }) } } } }
    // the clock goes forth and back between the snapshots of one snapshotter
    let clocks = [0u64, 1, 999_999_999, 1_000_000_000, 1_700_000_000_000_000_000, 1_700_003_600_000_000_000, i64::MAX as u64 - 1_000_000];
    for f in [0usize, 5] { seqs_of(&clocks, 2, if c.thorough { 4 } else { 3 }, |ts| c.case(|| format!("clock at {ts:?} in turn, filter {f}"), |r| {
        let old = NOW.load(SeqCst);
        let s = snapshotter(f, 1);
        let l = build(0, &info("d/a", 1, 0, false), false);
        let mut x = Ok(String::new());
        for t in ts { NOW.store(*t, SeqCst); if x.is_ok() { x = take(r, &s, f, &[(0, &l)]) } }
        NOW.store(old, SeqCst);
        x
    })) }
    // every boundary of the clock
    for t in [0u64, 1, 999_999_999, 1_000_000_000, (1 << 32) * 1_000_000_000, i64::MAX as u64 - 100] { c.case(|| format!("clock at {t} ns"), |r| {
        let old = NOW.swap(t, SeqCst);
        let x = take(r, &snapshotter(0, 0), 0, &[]);
        NOW.store(old, SeqCst);
        x
    }) }
}
