//! C09: every sequence of builder calls for every kind of metric.
use crate::ctx::*;
use metriken::{metric, metrics, AtomicHistogram, Counter, DynBoxedMetric, DynPinnedMetric, Format, Gauge, Lazy, LazyCounter, Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value};
use std::any::{Any, TypeId};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[metric(name = "builder/other", description = "other", metadata = { k = "other" })]
static OTHER: Counter = Counter::new();

#[derive(Clone, Copy, Debug, PartialEq)]
enum O { Desc(&'static str), DescOwned(&'static str), Meta(&'static str, &'static str), Fmt(usize), U32(u32), Str(&'static str) }
fn f0(e: &MetricEntry, f: Format) -> String { format!("F0<{}|{:?}|{}>", e.name(), e.description(), matches!(f, Format::Simple)) }
fn f1(e: &MetricEntry, f: Format) -> String { format!("F1<{}|{}|{}>", e.metadata().len(), e.name(), matches!(f, Format::Prometheus)) }
const FS: [fn(&MetricEntry, Format) -> String; 2] = [f0, f1];

/// A metric of the user's own with state of its own.
pub struct Custom { v: AtomicU64, big: [u8; 40] }
impl Metric for Custom {
    fn is_enabled(&self) -> bool { self.v.load(SeqCst) != 1 }
    fn as_any(&self) -> Option<&dyn Any> { if self.big[0] == 9 { Some(self) } else { None } }
    fn value(&self) -> Option<Value> { match self.v.load(SeqCst) { 0 => None, n => Some(Value::Counter(n)) } }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { 
        // what it says of itself does not replace what the builder was given
        static META: std::sync::OnceLock<metriken::Metadata> = std::sync::OnceLock::new();
        r.provide_ref::<[u8]>(&self.big).provide_value(77u16).provide_ref(META.get_or_init(|| std::collections::HashMap::from([("own".to_string(), "own".to_string()), ("k".to_string(), "own".to_string())]).into()));
    }
}

/// What the entry must say about the metric itself.
#[derive(PartialEq, Debug)]
struct Own { enabled: bool, ty: Option<TypeId>, at: Option<usize>, val: V }
#[derive(PartialEq, Debug)]
enum V { None, C(u64), G(i64), Other(usize, TypeId) }
fn own(m: &dyn Metric) -> Own {
    Own {
        enabled: m.is_enabled(), ty: m.as_any().map(|a| a.type_id()), at: m.as_any().map(|a| a as *const dyn Any as *const () as usize),
        val: match m.value() { None => V::None, Some(Value::Counter(c)) => V::C(c), Some(Value::Gauge(g)) => V::G(g), Some(Value::Other(a)) => V::Other(a as *const dyn Any as *const () as usize, a.type_id()), _ => V::C(u64::MAX) },
    }
}
fn find(name: &str, f: &mut dyn FnMut(&MetricEntry) -> Result<(), String>) -> Result<(), String> {
    let v = metrics();
    let all: Vec<&MetricEntry> = v.dynamic_metrics().filter(|e| e.name() == name).collect();
    if all.len() != 1 { return Err(format!("{} entries named {name:?}", all.len())) }
    f(all[0])
}
enum H<M: Metric> { B(DynBoxedMetric<M>), P(Pin<Box<DynPinnedMetric<M>>>) }
impl<M: Metric> std::ops::Deref for H<M> { type Target = M; fn deref(&self) -> &M { match self { H::B(b) => b, H::P(p) => p } } }

fn check<M: Metric>(r: &mut Rec, calls: &[O], pinned: bool, owned: bool, metric: M, poke: &[&dyn Fn(&M)], expect: &dyn Fn(&M) -> Own) -> Result<String, String> {
    let name = if owned { "builder/owned" } else { "builder/borrowed" };
    let mut b = if owned { MetricBuilder::new(name.to_string()) } else { MetricBuilder::new(name) };
    let (mut desc, mut meta, mut fmt, mut u, mut s): (Option<&str>, BTreeMap<&str, &str>, Option<usize>, Option<u32>, Option<&str>) = Default::default();
    for o in calls {
        r.step();
        b = match *o {
            O::Desc(d) => { desc = Some(d); b.description(d) }
            O::DescOwned(d) => { desc = Some(d); b.description(d.to_string()) }
            O::Meta(k, v) => { meta.insert(k, v); b.metadata(k, v.to_string()) }
            O::Fmt(i) => { fmt = Some(i); b.formatter(FS[i]) }
            O::U32(x) => { u = Some(x); b.provide(x) }
            O::Str(x) => { s = Some(x); b.provide(x) }
        };
    }
    // a decoy of the same type, registered at the same time
    let decoy = MetricBuilder::new("builder/decoy").metadata("k", "decoy").description("decoy").build(Counter::new());
    let h: H<M> = if pinned { let (p, e) = b.build_pinned(metric); let p = Box::pin(p); p.as_ref().register(e); H::P(p) } else { H::B(b.build(metric)) };
    for k in 0..=poke.len() {
        if k > 0 { poke[k - 1](&h) }
        let m: &M = &h;
        let want = expect(m);
        find(name, &mut |e| {
            if e.description() != desc { return Err(format!("description {:?}, expected {desc:?}", e.description())) }
            let md = e.metadata();
            let got: BTreeMap<&str, &str> = md.iter().collect();
            if got != meta || md.len() != meta.len() || md.is_empty() != meta.is_empty() || md.iter().count() != meta.len() { return Err(format!("metadata {got:?}, expected {meta:?}")) }
            for key in ["k", "l", ""] { if md.get(key) != meta.get(key).copied() || md.contains_key(key) != meta.contains_key(key) { return Err(format!("metadata lookup of {key:?} gives {:?}", md.get(key))) } }
            for f in 0..2 {
                let fm = || if f == 0 { Format::Simple } else { Format::Prometheus };
                let w = match fmt { Some(i) => FS[i](e, fm()), None => metriken::default_formatter(e, fm()) };
                if e.formatted(fm()) != w { return Err(format!("formatted as {:?}, expected {w:?}", e.formatted(fm()))) }
            }
            if fmt.is_none() && e.formatted(Format::Simple) != name { return Err(format!("formatted as {:?}", e.formatted(Format::Simple))) }
            if e.request_ref::<u32>().copied() != u { return Err(format!("provided u32 {:?}, expected {u:?}", e.request_ref::<u32>())) }
            if e.request_ref::<&'static str>().copied() != s { return Err(format!("provided str {:?}, expected {s:?}", e.request_ref::<&'static str>())) }
            if e.request_ref::<i64>().is_some() { return Err("an item nobody provided".into()) }
            for o in [own(e.metric()), own(&**e)] { if o != want { return Err(format!("entry shows {o:?}, metric is {want:?}")) } }
            if own(m) != want { return Err(format!("metric shows {:?}, expected {want:?}", own(m))) }
            if !e.is(m) { return Err("the identity test is false for its own metric".into()) }
            if e.is(&*decoy) || e.is(&OTHER) { return Err("the identity test is true for another metric".into()) }
            Ok(())
        }).map_err(|x| format!("after {k} updates: {x}"))?;
        // the other entries are unaffected
        let ok = metrics().iter().filter(|e| e.is(&*h)).count();
        if ok != 1 { return Err(format!("{ok} entries claim to be this metric")) }
        find("builder/decoy", &mut |e| if e.is(&*decoy) && !e.is(m) && e.metadata().get("k") == Some("decoy") && e.description() == Some("decoy") && e.request_ref::<u32>().is_none() && e.formatted(Format::Simple) == "builder/decoy" { Ok(()) } else { Err("another metric's entry was affected".into()) })?;
        let v = metrics();
        let st = v.static_metrics().iter().find(|e| e.name() == "builder/other").ok_or("static entry missing")?;
        if !st.is(&OTHER) || st.is(m) || st.metadata().get("k") != Some("other") { return Err("a static metric's entry was affected".into()) }
    }
    r.state(&(name, desc, meta.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>(), fmt, u, s));
    Ok(format!("{desc:?} {meta:?} {fmt:?} {u:?} {s:?}"))
}
fn at<T: 'static>(m: &T, val: V) -> Own { Own { enabled: true, ty: Some(TypeId::of::<T>()), at: Some(m as *const T as usize), val } }

pub fn c09(c: &mut Ctx) {
    let ops = [O::Desc("d1"), O::DescOwned("d2"), O::Desc(""), O::Meta("k", "v1"), O::Meta("k", "v2"), O::Meta("l", ""), O::Fmt(0), O::Fmt(1), O::U32(1), O::U32(2), O::Str("s")];
    let depth = if c.thorough { 5 } else { 4 };
    seqs_of(&ops, 0, depth + 1, |s| for kind in 0..8 { for pinned in [false, true] { for owned in [false, true] {
        // the deepest layer for one metric kind only: calls are independent of the kind
        if s.len() > depth && (kind != 0 || pinned != owned) { continue }
        if owned && (kind + s.len()) % 2 == 1 { continue }
        c.case(|| format!("{} {} {s:?}", ["counter", "gauge", "event histogram", "bulk histogram", "lazy", "used lazy", "custom", "lazy custom"][kind], if pinned { "pinned" } else { "boxed" }), |r| match kind {
            0 => check(r, s, pinned, owned, Counter::with_value(5), &[&|m| { m.add(3); }], &|m| at(m, V::C(m.value()))),
            1 => check(r, s, pinned, owned, Gauge::with_value(-5), &[&|m| { m.sub(3); }], &|m| at(m, V::G(m.value()))),
            2 => check(r, s, pinned, owned, AtomicHistogram::new(1, 4), &[&|m| m.increment(3).unwrap()], &|m| at(m, V::Other(m as *const _ as usize, TypeId::of::<AtomicHistogram>()))),
            3 => check(r, s, pinned, owned, RwLockHistogram::new(1, 4), &[&|m| m.update_from(&vec![1; m.config().total_buckets()]).unwrap()], &|m| at(m, V::Other(m as *const _ as usize, TypeId::of::<RwLockHistogram>()))),
            4 | 5 => {
                let l = LazyCounter::new(|| Counter::with_value(8));
                if kind == 5 { Lazy::force(&l); }
                check(r, s, pinned, owned, l, &[&|m: &LazyCounter| { m.increment(); }], &|m| match Lazy::get(m) { Some(x) => at(x, V::C(x.value())), None => Own { enabled: false, ty: None, at: None, val: V::None } })
            }
            6 => check(r, s, pinned, owned, Custom { v: AtomicU64::new(0), big: [9; 40] }, &[&|m| m.v.store(1, SeqCst), &|m| m.v.store(2, SeqCst)], &|m| { let n = m.v.load(SeqCst); Own { enabled: n != 1, ..at(m, if n == 0 { V::None } else { V::C(n) }) } }),
            _ => check(r, s, pinned, owned, Custom { v: AtomicU64::new(2), big: [0; 40] }, &[&|m| m.v.store(1, SeqCst)], &|m| { let n = m.v.load(SeqCst); Own { enabled: n != 1, ty: None, at: None, val: V::C(n) } }),
        });
    } } });
}
