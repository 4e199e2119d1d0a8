//! C01 and C02: every sequence of calls over boundary operands.
use crate::ctx::*;
use metriken::{metric, metrics, Counter, DynBoxedMetric, Gauge, Metric, MetricBuilder, Value};

#[metric(name = "scalar/counter")]
static SC: Counter = Counter::new();
#[metric(name = "scalar/gauge")]
static SG: Gauge = Gauge::new();

#[derive(Clone, Copy, Debug)]
enum CO { Inc, Add(u64), Set(u64), Reset, Value }
#[derive(Clone, Copy, Debug)]
enum GO { Inc, Dec, Add(i64), Sub(i64), Set(i64), Reset, Value }

fn erased_counter(m: &dyn Metric) -> Result<u64, String> { match m.value() { Some(Value::Counter(c)) => Ok(c), Some(Value::Gauge(g)) => Err(format!("reports gauge {g}")), Some(_) => Err("reports another kind of value".into()), None => Err("reports no value".into()) } }
fn erased_gauge(m: &dyn Metric) -> Result<i64, String> { match m.value() { Some(Value::Gauge(c)) => Ok(c), Some(Value::Counter(g)) => Err(format!("reports counter {g}")), Some(_) => Err("reports another kind of value".into()), None => Err("reports no value".into()) } }
fn registered(name: &str) -> Vec<u128> {
    let v = metrics();
    v.iter().filter(|e| e.name() == name).map(|e| match e.value() { Some(Value::Counter(c)) => c as u128, Some(Value::Gauge(g)) => g as u64 as u128, _ => u128::MAX }).collect()
}
enum H<T: Metric + 'static> { Bare(T), Boxed(DynBoxedMetric<T>), Static(&'static T) }
impl<T: Metric> H<T> { fn get(&self) -> &T { match self { H::Bare(t) => t, H::Boxed(t) => t, H::Static(t) => t } } }

fn eq<T: PartialEq + std::fmt::Debug>(i: usize, what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("step {i}: {what} is {got:?}, expected {want:?}")) } }

pub fn c01(c: &mut Ctx) {
    let b = [0u64, 1, 1 << 63, u64::MAX];
    let mut ops = vec![CO::Inc, CO::Reset, CO::Value];
    for v in b { ops.push(CO::Add(v)); ops.push(CO::Set(v)) }
    let depth = if c.thorough { 6 } else { 5 };
    for place in 0..3 { for init in b {
        if place == 2 && init != 0 { continue }
        seqs_of(&ops, 0, if init == 0 && place == 0 { depth } else { depth - 1 }, |s| c.case(|| format!("counter {} from {init}: {s:?}", ["bare", "dynamic", "static"][place]), |r| {
            let name = if place == 2 { "scalar/counter" } else { "scalar/dyn" };
            let h = match place {
                0 => H::Bare(if init == 0 { Counter::new() } else { Counter::with_value(init) }),
                1 => H::Boxed(MetricBuilder::new(name).build(Counter::with_value(init))),
                _ => { SC.set(0); H::Static(&SC) }
            };
            let m = h.get();
            let mut v = init;
            for (i, o) in s.iter().enumerate() {
                r.step();
                let old = v;
                let got = match *o {
                    CO::Inc => { v = v.wrapping_add(1); m.increment() }
                    CO::Add(x) => { v = v.wrapping_add(x); m.add(x) }
                    CO::Set(x) => { v = x; m.set(x) }
                    CO::Reset => { v = 0; m.reset() }
                    CO::Value => m.value(),
                };
                r.state(&v);
                eq(i, "returned value", got, old)?;
                eq(i, "value", m.value(), v)?;
                eq(i, "type-erased value", erased_counter(m)?, v)?;
                if place > 0 { eq(i, "registry values", registered(name), vec![v as u128])?; }
            }
            eq(s.len(), "value", Counter::value(m), v)?;
            Ok(format!("{v}"))
        }));
    } }
}
pub fn c02(c: &mut Ctx) {
    let b = [0i64, 1, -1, i64::MIN, i64::MAX];
    let mut ops = vec![GO::Inc, GO::Dec, GO::Reset, GO::Value];
    for v in b { ops.push(GO::Add(v)); ops.push(GO::Sub(v)); ops.push(GO::Set(v)) }
    let depth = if c.thorough { 6 } else { 5 };
    for place in 0..3 { for init in b {
        if place == 2 && init != 0 { continue }
        seqs_of(&ops, 0, if init == 0 && place == 0 { depth } else { depth - 1 }, |s| c.case(|| format!("gauge {} from {init}: {s:?}", ["bare", "dynamic", "static"][place]), |r| {
            let name = if place == 2 { "scalar/gauge" } else { "scalar/dyn" };
            let h = match place {
                0 => H::Bare(if init == 0 { Gauge::new() } else { Gauge::with_value(init) }),
                1 => H::Boxed(MetricBuilder::new(name).build(Gauge::with_value(init))),
                _ => { SG.set(0); H::Static(&SG) }
            };
            let m = h.get();
            let mut v = init;
            for (i, o) in s.iter().enumerate() {
                r.step();
                let old = v;
                let got = match *o {
                    GO::Inc => { v = v.wrapping_add(1); m.increment() }
                    GO::Dec => { v = v.wrapping_sub(1); m.decrement() }
                    GO::Add(x) => { v = v.wrapping_add(x); m.add(x) }
                    GO::Sub(x) => { v = v.wrapping_sub(x); m.sub(x) }
                    GO::Set(x) => { v = x; m.set(x) }
                    GO::Reset => { v = 0; m.reset() }
                    GO::Value => m.value(),
                };
                r.state(&v);
                eq(i, "returned value", got, old)?;
                eq(i, "value", m.value(), v)?;
                eq(i, "type-erased value", erased_gauge(m)?, v)?;
                if place > 0 { eq(i, "registry values", registered(name), vec![v as u64 as u128])?; }
            }
            eq(s.len(), "value", Gauge::value(m), v)?;
            Ok(format!("{v}"))
        }));
    } }
}
