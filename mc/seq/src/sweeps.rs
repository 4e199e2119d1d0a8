//! Sweeps over magnitudes, lengths and sizes that the enumerations of call
//! sequences keep small.
use crate::ctx::*;
#[path = "../../common/sweep.rs"]
mod sweep;
pub use sweep::*;
use metriken::histogram::{Config, Histogram};
use metriken::{metric, metrics, AtomicHistogram, Counter, DynBoxedMetric, Format, Gauge, Metadata, Metric, MetricBuilder, MetricEntry, RwLockHistogram, Value};
use std::collections::BTreeMap;

#[metric(name = "sweep/counter")]
static SC: Counter = Counter::new();
#[metric(name = "sweep/gauge")]
static SG: Gauge = Gauge::new();

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what} is {got:?}, expected {want:?}")) } }
fn listed<T>(name: &str, f: impl Fn(&MetricEntry) -> T) -> Vec<T> { metrics().iter().filter(|e| e.name() == name).map(f).collect() }

pub fn c01(c: &mut Ctx) {
    let us = u64s();
    for place in 0..3 { for a in &us { c.case(|| format!("counter {} at {a}, every operand", ["bare", "dynamic", "static"][place]), |r| {
        let bare = Counter::with_value(*a);
        let dynamic = MetricBuilder::new("sweep/dyn").build(Counter::with_value(*a));
        SC.set(*a);
        let (m, name): (&Counter, &str) = [(&bare, ""), (&*dynamic, "sweep/dyn"), (&SC, "sweep/counter")][place];
        for b in &us {
            r.steps(4);
            same("initial value", m.value(), *a)?;
            same(&format!("value returned by adding {b}"), m.add(*b), *a)?;
            let v = a.wrapping_add(*b);
            same(&format!("value after adding {b}"), m.value(), v)?;
            if !matches!(Metric::value(m), Some(Value::Counter(x)) if x == v) { return Err(format!("type-erased value after adding {b} is wrong")) }
            if place > 0 { same("registry value", listed(name, |e| matches!(e.value(), Some(Value::Counter(x)) if x == v)), vec![true])? }
            same("value returned by increment", m.increment(), v)?;
            same(&format!("value returned by setting {b}"), m.set(*b), v.wrapping_add(1))?;
            same("value returned by reset", m.reset(), *b)?;
            same("value returned by setting", m.set(*a), 0)?;
        }
        Ok(format!("{a}"))
    }) } }
    for start in [0u64, u64::MAX - 35_000, (1 << 32) - 35_000] { c.case(|| format!("70000 increments from {start}"), |r| {
        let m = Counter::with_value(start);
        for i in 0..70_000u64 { r.step(); same("value returned by increment", m.increment(), start.wrapping_add(i))? }
        same("value", m.value(), start.wrapping_add(70_000))?;
        Ok("ok".into())
    }) }
}
pub fn c02(c: &mut Ctx) {
    let is = i64s();
    for place in 0..3 { for a in &is { c.case(|| format!("gauge {} at {a}, every operand", ["bare", "dynamic", "static"][place]), |r| {
        let bare = Gauge::with_value(*a);
        let dynamic = MetricBuilder::new("sweep/dyn").build(Gauge::with_value(*a));
        SG.set(*a);
        let (m, name): (&Gauge, &str) = [(&bare, ""), (&*dynamic, "sweep/dyn"), (&SG, "sweep/gauge")][place];
        for (i, b) in is.iter().enumerate() {
            r.steps(6);
            same("initial value", m.value(), *a)?;
            same(&format!("value returned by adding {b}"), m.add(*b), *a)?;
            let v = a.wrapping_add(*b);
            same(&format!("value after adding {b}"), m.value(), v)?;
            if !matches!(Metric::value(m), Some(Value::Gauge(x)) if x == v) { return Err(format!("type-erased value after adding {b} is wrong")) }
            if place > 0 && i % 4 == 0 { same("registry value", listed(name, |e| matches!(e.value(), Some(Value::Gauge(x)) if x == v)), vec![true])? }
            same("value returned by increment", m.increment(), v)?;
            same("value returned by decrement", m.decrement(), v.wrapping_add(1))?;
            same("value returned by decrement", m.decrement(), v)?;
            same(&format!("value returned by subtracting {b}"), m.sub(*b), v.wrapping_sub(1))?;
            same(&format!("value returned by setting {b}"), m.set(*b), a.wrapping_sub(1))?;
            same("value returned by reset", m.reset(), *b)?;
            same("value returned by setting", m.set(*a), 0)?;
        }
        Ok(format!("{a}"))
    }) } }
    for start in [-35_000i64, i64::MAX - 35_000, (1 << 32) - 35_000] { c.case(|| format!("70000 increments and decrements from {start}"), |r| {
        let m = Gauge::with_value(start);
        for i in 0..70_000i64 { r.step(); same("value returned by increment", m.increment(), start.wrapping_add(i))? }
        for i in 0..70_000i64 { r.step(); same("value returned by decrement", m.decrement(), start.wrapping_add(70_000 - i))? }
        same("value", m.value(), start)?;
        Ok("ok".into())
    }) }
}
/// The sum of all buckets and the count of the one that holds `v`.
fn counts_of(h: &Histogram, v: u64) -> (u64, u64) { h.into_iter().fold((0, 0), |(a, b), x| (a + x.count(), if x.range().contains(&v) { x.count() } else { b })) }
pub fn c03(c: &mut Ctx) {
    let n = if c.thorough { 300_000u64 } else { 70_000 };
    for (g, p) in [(0u8, 1u8), (1, 3), (7, 64)] { for v in [0u64, 1] { c.case(|| format!("{n} recordings of {v} into ({g},{p})"), |r| {
        let h = AtomicHistogram::new(g, p);
        for i in 1..=n {
            r.step();
            h.increment(v).map_err(|e| format!("recording {i}: {e}"))?;
            if i <= 300 || (i + 1) & i == 0 || i & (i - 1) == 0 || (i - 1) & (i - 2) == 0 || i == n { let l = h.load().ok_or("loads as nothing")?; same(&format!("count after {i} recordings"), counts_of(&l, v), (i, i))? }
        }
        Ok("ok".into())
    }) } }
    // alternating values: every bucket separately
    for (g, p) in [(0u8, 3u8), (2, 6)] { for k in 1..=20u64 { c.case(|| format!("{k} rounds over all values below {} into ({g},{p})", 1u64 << p), |r| {
        let h = AtomicHistogram::new(g, p);
        for round in 1..=k { for v in 0..1u64 << p { r.step(); h.increment(v).map_err(|e| e.to_string())? }
            let l = h.load().ok_or("loads as nothing")?;
            for b in &l { same(&format!("bucket {}..={}", b.start(), b.end()), b.count(), round * ((b.end().min((1 << p) - 1)) - b.start() + 1))? } }
        Ok("ok".into())
    }) } }
}
pub fn c05(c: &mut Ctx) {
    // every configuration, complete data of one update after another
    for g in 0..=7u8 { for p in g + 1..=64 { c.case(|| format!("bulk updates of ({g},{p})"), |r| {
        let h = RwLockHistogram::new(g, p);
        let n = Config::new(g, p).map_err(|e| e.to_string())?.total_buckets();
        for k in 0..6u64 {
            r.step();
            let data: Vec<u64> = (0..n as u64).map(|i| match k { 0 => i, 1 => 0, 2 => u64::MAX - i, 3 => (i == n as u64 - 1) as u64, 4 => (i == 0) as u64, _ => i.wrapping_mul(0x9e3779b97f4a7c15) }).collect();
            h.update_from(&data).map_err(|e| e.to_string())?;
            let l = h.load().ok_or("loads as nothing")?;
            if l.as_slice() != data { return Err(format!("after update {k} the load differs")) }
            if l.config() != h.config() || l.config().grouping_power() != g || l.config().max_value_power() != p { return Err("the load has another configuration".into()) }
        }
        Ok("ok".into())
    }) } }
    // long runs, each update different from all before
    for (g, p) in [(0u8, 2u8), (3, 8)] { for stride in 1..=4u64 { c.case(|| format!("5000 updates of ({g},{p}), a load after every {stride}"), |r| {
        let h = RwLockHistogram::new(g, p);
        let n = h.config().total_buckets() as u64;
        for k in 1..=5000u64 {
            r.step();
            let data: Vec<u64> = (0..n).map(|i| k * n + i).collect();
            h.update_from(&data).map_err(|e| e.to_string())?;
            if k % stride == 0 { if h.load().ok_or("loads as nothing")?.as_slice() != data { return Err(format!("after update {k} the load differs")) } }
        }
        Ok("ok".into())
    }) } }
    // the same data twice, returning to earlier data, one bucket different
    for (g, p) in [(0u8, 1u8), (0, 2), (1, 4)] { let n = Config::new(g, p).unwrap().total_buckets(); for i in 0..n { for x in [0u64, 1, 2, u64::MAX] { for y in [0u64, 1, 2, u64::MAX] { c.case(|| format!("({g},{p}): bucket {i} from {x} to {y} and back"), |r| {
        let h = RwLockHistogram::new(g, p);
        let (mut a, mut b) = (vec![1u64; n], vec![1u64; n]);
        a[i] = x; b[i] = y;
        for d in [&a, &b, &a, &a, &b, &b] {
            r.step();
            h.update_from(d).map_err(|e| e.to_string())?;
            same("load", h.load().map(|h| h.as_slice().to_vec()), Some(d.clone()))?;
        }
        Ok("ok".into())
    }) } } } }
}
pub fn c09(c: &mut Ctx) {
    let ss = strings();
    let check = |name: &str, desc: Option<&str>, meta: &BTreeMap<String, String>| -> Result<String, String> {
        let mut b = MetricBuilder::new(name.to_string());
        if let Some(d) = desc { b = b.description(d.to_string()) }
        for (k, v) in meta { b = b.metadata(k.clone(), v.clone()) }
        let h = b.build(Counter::with_value(3));
        let v = metrics();
        let e: Vec<&MetricEntry> = v.dynamic_metrics().filter(|e| e.is(&*h)).collect();
        if e.len() != 1 { return Err(format!("{} entries", e.len())) }
        let e = e[0];
        same("name", e.name(), name)?;
        same("description", e.description(), desc)?;
        same("simple format", e.formatted(Format::Simple), name.to_string())?;
        same("metadata", e.metadata().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>(), meta.clone())?;
        same("number of metadata entries", (e.metadata().len(), e.metadata().iter().count(), e.metadata().is_empty()), (meta.len(), meta.len(), meta.is_empty()))?;
        for (k, v) in meta { same(&format!("metadata {k:?}"), e.metadata().get(k), Some(v.as_str()))? }
        if !meta.contains_key("absent") && (e.metadata().contains_key("absent") || e.metadata().get("absent").is_some()) { return Err("an absent key is found".into()) }
        Ok("ok".into())
    };
    for s in &ss {
        c.case(|| format!("name {s:?}"), |_| check(s, None, &BTreeMap::new()));
        c.case(|| format!("description {s:?}"), |_| check("n", Some(s), &BTreeMap::new()));
        c.case(|| format!("metadata key {s:?}"), |_| check("n", Some("d"), &BTreeMap::from([(s.clone(), "v".to_string())])));
        c.case(|| format!("metadata value {s:?}"), |_| check("n", None, &BTreeMap::from([("k".to_string(), s.clone())])));
        c.case(|| format!("metadata key {s:?} next to others"), |_| check("n", None, &BTreeMap::from([("k".to_string(), "1".to_string()), (s.clone(), s.clone()), (format!("{s}x"), "2".to_string()), (format!("x{s}"), "3".to_string())])));
    }
    for n in counts(500) {
        c.case(|| format!("{n} metadata entries"), |_| check("n", Some("d"), &(0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect()));
        c.case(|| format!("{n} metadata entries given twice"), |_| {
            let mut b = MetricBuilder::new("n");
            for i in 0..n { b = b.metadata(format!("k{i}"), format!("old{i}")) }
            for i in (0..n).rev() { b = b.metadata(format!("k{i}"), format!("new{i}")) }
            let h = b.build(Gauge::new());
            let v = metrics();
            let e = v.dynamic_metrics().find(|e| e.is(&*h)).ok_or("entry missing")?;
            same("metadata", e.metadata().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>(), (0..n).map(|i| (format!("k{i}"), format!("new{i}"))).collect())?;
            Ok("ok".into())
        });
    }
    for n in [5_000usize, 70_000] { c.case(|| format!("{n} metadata entries"), |_| check("n", Some("d"), &(0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect())) }
    for x in ["k", "description", "a_b", "id", ""] { for y in near(x) { c.case(|| format!("metadata {x:?} beside {y:?}"), |_| check("n", None, &BTreeMap::from([(x.to_string(), "1".to_string()), (y.clone(), "2".to_string())]))) } }
    // keys and strings may be borrowed or owned
    for n in 0..=3usize { for owned in 0..1 << (2 * n) { c.case(|| format!("{n} metadata entries, ownership {owned:b}"), |_| {
        let ks = ["a", "b", "c"]; let vs = ["1", "2", "3"];
        let mut b = MetricBuilder::new("n");
        for i in 0..n { let (ko, vo) = (owned >> (2 * i) & 1 == 1, owned >> (2 * i + 1) & 1 == 1);
            b = match (ko, vo) { (false, false) => b.metadata(ks[i], vs[i]), (false, true) => b.metadata(ks[i], vs[i].to_string()), (true, false) => b.metadata(ks[i].to_string(), vs[i]), _ => b.metadata(ks[i].to_string(), vs[i].to_string()) } }
        let h = b.build(Gauge::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.is(&*h)).ok_or("entry missing")?;
        same("metadata", e.metadata().iter().collect::<BTreeMap<_, _>>(), (0..n).map(|i| (ks[i], vs[i])).collect())?;
        Ok("ok".into())
    }) } }
    // many items of different types
    c.case(|| "items of many types".into(), |_| {
        #[derive(Debug, PartialEq, Clone, Copy)] struct A(u8);
        #[derive(Debug, PartialEq, Clone, Copy)] struct B;
        let h = MetricBuilder::new("n").provide(1u8).provide(2u16).provide(3u32).provide(4u64).provide(-1i8).provide(-2i16).provide(-3i32).provide(-4i64).provide("s").provide(String::from("t")).provide(A(5)).provide(B).provide(()).provide([1u8; 100]).provide(vec![1u8, 2]).provide(Some(1u8)).provide(None::<u16>).provide('c').provide(true).provide(7u128).build(Counter::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.is(&*h)).ok_or("entry missing")?;
        macro_rules! has { ($t:ty, $x:expr) => { same(stringify!($t), e.request_ref::<$t>().cloned(), $x)? } }
        has!(u8, Some(1)); has!(u16, Some(2)); has!(u32, Some(3)); has!(u64, Some(4)); has!(i8, Some(-1)); has!(i16, Some(-2)); has!(i32, Some(-3)); has!(i64, Some(-4)); has!(&'static str, Some("s")); has!(String, Some("t".into())); has!(A, Some(A(5))); has!(B, Some(B)); has!((), Some(())); has!([u8; 100], Some([1; 100])); has!(Vec<u8>, Some(vec![1, 2])); has!(Option<u8>, Some(Some(1))); has!(Option<u16>, Some(None)); has!(char, Some('c')); has!(bool, Some(true)); has!(u128, Some(7));
        has!(i128, None); has!(usize, None); has!([u8; 99], None); has!(Option<u32>, None);
        Ok("ok".into())
    });
}
/// Lookups in metadata of every size, through the entry and standing alone.
pub fn c11(c: &mut Ctx) {
    use crate::iters_core::*;
    for n in counts(130) {
        let kv: BTreeMap<String, String> = (0..n).map(|i| (format!("k{i}"), format!("{}", i * i))).collect();
        let m = Metadata::from(kv.clone().into_iter().collect::<std::collections::HashMap<_, _>>());
        let order: Vec<(&str, &str)> = m.iter().collect();
        c.case(|| format!("metadata of {n}: contents"), |_| same("contents", order.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>(), kv.clone()).map(|_| format!("{n}")));
        if order.len() != n { c.case(|| format!("metadata of {n}: size"), |_| Err(format!("{} entries", order.len()))); continue }
        let mut ks: Vec<usize> = if n <= 40 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n, n + 1] };
        ks.push(usize::MAX);
        for a in &ks { for e in [End::Stop, End::Count, End::Fold, End::Last, End::Len, End::Clone, End::ForEach, End::Collect, End::Skip(3), End::StepBy(2), End::CloneRest(1)] {
            for o in [O::Find(*a), O::Any(*a), O::Position(*a), O::TryFold(*a)] { c.case(|| format!("metadata of {n}: {o:?} then {e:?}"), |r| drive(r, m.iter(), &order, &[o], e)) }
            c.case(|| format!("metadata of {n}: nth({a}) then {e:?}"), |r| drive(r, m.iter(), &order, &[O::Nth(*a)], e));
            if n <= 24 { for b in &ks { c.case(|| format!("metadata of {n}: nth({a}), nth({b}), next then {e:?}"), |r| drive(r, m.iter(), &order, &[O::Nth(*a), O::Nth(*b), O::Next], e)) } }
        } }
    }
}
/// Very many entries, walked in the ways that treat them together.
pub fn c11_large(c: &mut Ctx) {
    use crate::iters_core::*;
    for n in [5_000usize, 65_535, 65_536, 70_000, if c.thorough { 300_000 } else { 1_000 }] {
        let m = Metadata::from((0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect::<std::collections::HashMap<_, _>>());
        let mut order: Vec<(&str, &str)> = vec![];
        for x in m.iter() { order.push(x); if order.len() > n { break } }
        c.case(|| format!("metadata of {n}: contents"), |r| {
            r.steps(n);
            let mut o = order.clone(); o.sort(); o.dedup();
            if o.len() != n || order.len() != n { return Err(format!("{} entries, {} different ones", order.len(), o.len())) }
            for (k, v) in o { if k[1..] != v[1..] { return Err(format!("{k:?} has the value {v:?}")) } }
            same("length", m.len(), n)?;
            for i in 0..n { same("value", m.get(&format!("k{i}")), Some(format!("v{i}").as_str()))? }
            Ok(format!("{n}"))
        });
        if order.len() != n { continue }
        for a in [0usize, 255, 256, 65_534, 65_535, 65_536, n - 2, n - 1, n, usize::MAX] { for e in LARGE {
            for o in [O::Nth(a), O::Find(a)] { if e != End::Stop || o == O::Nth(0) { c.case(|| format!("metadata of {n}: {o:?} then {e:?}"), |r| drive(r, m.iter(), &order, &[o], e)) } }
        } }
    }
}
pub fn c13(c: &mut Ctx) {
    let run = |name: &str, meta: &BTreeMap<String, String>| -> Result<String, String> {
        let mut b = MetricBuilder::new(name.to_string()).description("d");
        for (k, v) in meta { b = b.metadata(k.clone(), v.clone()) }
        let h = b.build(Counter::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.is(&*h)).ok_or("entry missing")?;
        crate::format::verify(e, name, meta)
    };
    for s in strings() {
        c.case(|| format!("label value {s:?}"), |_| run("n", &BTreeMap::from([("a".to_string(), s.clone())])));
        c.case(|| format!("label value {s:?} between others"), |_| run("n", &BTreeMap::from([("a".to_string(), "1".to_string()), ("b".to_string(), s.clone()), ("c".to_string(), s.clone())])));
        // a name with a brace in it is not told apart from labels by the format
        if !s.contains('{') {
            c.case(|| format!("name {s:?}"), |_| run(&s, &BTreeMap::new()));
            c.case(|| format!("name {s:?} with a label"), |_| run(&s, &BTreeMap::from([("a".to_string(), "1".to_string())])));
        }
    }
    // pairs and triples of ASCII characters in one value
    for a in 0u8..128 { c.case(|| format!("label values with {:?} in pairs", a as char), |r| { for b in 0u8..128 { r.step(); run("n", &BTreeMap::from([("a".to_string(), format!("{}{}", a as char, b as char))]))?; } Ok(format!("{a}")) }) }
    for n in counts(300).into_iter().chain([5_000, 70_000]) { c.case(|| format!("{n} labels"), |_| run("n", &(0..n).map(|i| (format!("k{i}"), format!("v{i}\"\\\n"))).collect())) }
    for k in ["a", "Z", "_", "__name__", "le", "quantile", "job", "A_b9", "description", "name", "unit", "metric", "grouping_power", "x0"] { c.case(|| format!("label {k}"), |_| run("n", &BTreeMap::from([(k.to_string(), "v".to_string()), ("q".to_string(), "w".to_string())]))) }
    for n in lengths() { if n > 0 { c.case(|| format!("label name of {n} characters"), |_| run("n", &BTreeMap::from([("k".repeat(n), "v".to_string())]))) } }
}
/// Metrics registered over and over and in large numbers.
pub fn c07(c: &mut Ctx) {
    type Row = (String, Option<String>, u64);
    let rows = || { let v = metrics(); let mut r: Vec<Row> = v.dynamic_metrics().map(|e| (e.name().to_string(), e.description().map(|s| s.to_string()), match e.value() { Some(Value::Counter(x)) => x, _ => u64::MAX })).collect(); r.sort(); r };
    for n in counts(300) { for other in [false, true] { c.case(|| format!("a pinned metric registered {n} times{}", if other { " beside another" } else { "" }), |r| {
        let _o = if other { Some(MetricBuilder::new("other").build(Counter::with_value(9))) } else { None };
        let (p, e) = MetricBuilder::new("first").build_pinned(Counter::with_value(5));
        drop(e);
        let p = Box::pin(p);
        let mut want: Vec<Row> = if other { vec![("other".into(), None, 9)] } else { vec![] };
        for i in 0..n {
            r.step();
            p.as_ref().register(MetricBuilder::new(format!("p{i}")).description(format!("d{i}")).into_entry());
            let mut w = want.clone(); w.push((format!("p{i}"), Some(format!("d{i}")), 5)); w.sort();
            same("registry", rows(), w)?;
        }
        drop(p);
        same("registry after dropping it", rows(), std::mem::take(&mut want))?;
        Ok("ok".into())
    }) } }
    for n in counts(1000) { for order in 0..4usize { c.case(|| format!("{n} boxed metrics, dropped in order {order}"), |r| {
        let mut v: Vec<DynBoxedMetric<Counter>> = (0..n).map(|i| MetricBuilder::new(format!("m{i}")).build(Counter::with_value(i as u64))).collect();
        let mut live: Vec<Row> = (0..n).map(|i| (format!("m{i}"), None, i as u64)).collect();
        let mut k = 0;
        while !v.is_empty() {
            if n < 70 || k % 37 == 0 { let mut w = live.clone(); w.sort(); same("registry", rows(), w)? }
            k += 1;
            r.step();
            let i = match order { 0 => v.len() - 1, 1 => 0, 2 => v.len() / 2, _ => (k * 7919) % v.len() };
            live.remove(i);
            drop(v.remove(i));
        }
        same("registry at the end", rows(), vec![])?;
        Ok("ok".into())
    }) } }
    // very many at once: at every size all of them are there, and after dropping none
    let top = if c.thorough { 300_000usize } else { 70_000 };
    for step in [1usize, 3] { c.case(|| format!("{top} boxed metrics, looked at while they grow and shrink by {step}"), |r| {
        let look = |n: usize| n < 20 || [n - 1, n, n + 1, n + 2].iter().any(|k| k.is_power_of_two() || [1000, 10_000, 20_000, 50_000, 100_000].contains(k)) || dict().ints.iter().any(|d| *d == n as u64 || *d + 1 == n as u64);
        let see = |v: &[Option<DynBoxedMetric<Counter>>], n: usize| -> Result<(), String> {
            let m = metrics();
            let mut seen = vec![0u8; v.len()];
            let mut k = 0;
            for e in m.dynamic_metrics() { k += 1; match e.value() { Some(Value::Counter(i)) if (i as usize) < v.len() && e.name().strip_prefix('m').is_some_and(|s| s.parse() == Ok(i)) => seen[i as usize] += 1, _ => return Err(format!("an entry {:?} that is not one of them", e.name())) } }
            if k != n { return Err(format!("{k} entries instead of {n}")) }
            for (i, x) in v.iter().enumerate() { if seen[i] != x.is_some() as u8 { return Err(format!("of {n} metrics, number {i} is listed {} times", seen[i])) } }
            Ok(())
        };
        let mut v: Vec<Option<DynBoxedMetric<Counter>>> = vec![];
        for i in 0..top { r.step(); v.push(Some(MetricBuilder::new(format!("m{i}")).build(Counter::with_value(i as u64)))); if look(i + 1) { see(&v, i + 1)? } }
        see(&v, top)?;
        let mut n = top;
        for s in 0..step { for i in (s..top).step_by(step) { r.step(); v[i] = None; n -= 1; if look(n) { see(&v, n)? } } }
        same("registry at the end", rows(), vec![])?;
        Ok("ok".into())
    }) }
    // short-lived metrics one after another, with one that stays
    for n in [10usize, 1000, 5000] { c.case(|| format!("{n} metrics one after another"), |r| {
        let _keep = MetricBuilder::new("keep").build(Counter::with_value(1));
        for i in 0..n {
            r.step();
            let h = MetricBuilder::new(format!("t{i}")).build(Counter::with_value(i as u64));
            let mut w: Vec<Row> = vec![("keep".into(), None, 1), (format!("t{i}"), None, i as u64)]; w.sort();
            same("registry", rows(), w)?;
            drop(h);
            same("registry after dropping", rows(), vec![("keep".into(), None, 1)])?;
        }
        Ok("ok".into())
    }) }
    for s in strings() { c.case(|| format!("named {s:?}"), |_| {
        let h = MetricBuilder::new(s.clone()).description(s.clone()).build(Counter::with_value(4));
        same("registry", rows(), vec![(s.clone(), Some(s.clone()), 4)])?;
        let twin = MetricBuilder::new(s.clone()).build(Counter::with_value(5));
        same("registry", rows(), vec![(s.clone(), None, 5), (s.clone(), Some(s.clone()), 4)])?;
        drop(h);
        same("registry", rows(), vec![(s.clone(), None, 5)])?;
        drop(twin);
        same("registry", rows(), vec![])?;
        Ok("ok".into())
    }) }
}
