use std::any::{Any, TypeId};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
/// A metric of the user's own.
pub struct Own { v: AtomicU64 }
impl Own { pub const fn new(v: u64) -> Self { Own { v: AtomicU64::new(v) } } }
impl Metric for Own {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> { Some(Value::Counter(self.v.load(SeqCst))) }
    fn is_enabled(&self) -> bool { self.v.load(SeqCst) % 2 == 0 }
    // what it says of itself does not replace what its declaration says
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        static META: std::sync::OnceLock<metriken::Metadata> = std::sync::OnceLock::new();
        r.provide_ref(META.get_or_init(|| [("own".to_string(), "own".to_string())].into_iter().collect::<std::collections::HashMap<_, _>>().into()));
    }
}
pub struct Generic<M, const N: usize> { pad: [u64; N], m: M }
impl<M, const N: usize> Generic<M, N> { pub const fn new(m: M) -> Self { Generic { pad: [7; N], m } } }
impl<M: Metric, const N: usize> Metric for Generic<M, N> {
    fn as_any(&self) -> Option<&dyn Any> { None }
    fn value(&self) -> Option<Value<'_>> { if self.pad[N - 1] == 7 { self.m.value() } else { None } }
}
/// What a value is, comparably; `Other` by its type.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum V { None, C(u64), G(i64), Other(TypeId) }
pub fn v_of(m: &dyn Metric) -> V { match m.value() { None => V::None, Some(Value::Counter(c)) => V::C(c), Some(Value::Gauge(g)) => V::G(g), Some(Value::Other(a)) => V::Other(a.type_id()), _ => V::None } }
/// The value before and after each use of the static, which must show in the entry.
pub trait Poke: Metric + Sized + 'static { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)>; fn opaque() -> bool { false } }
fn c(n: u64) -> V { V::C(n) }
impl Poke for Counter { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let b = self.value(); vec![(Box::new(|| {}), c(b), true), (Box::new(|| { self.increment(); }), c(b + 1), true), (Box::new(|| { self.add(5); }), c(b + 6), true)] } }
impl Poke for Gauge { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let b = self.value(); vec![(Box::new(|| {}), V::G(b), true), (Box::new(|| { self.decrement(); }), V::G(b - 1), true)] } }
impl Poke for AtomicHistogram { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let o = V::Other(TypeId::of::<Self>()); vec![(Box::new(|| {}), o, true), (Box::new(|| { self.increment(3).unwrap(); }), o, true)] } }
impl Poke for RwLockHistogram { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let o = V::Other(TypeId::of::<Self>()); vec![(Box::new(|| {}), o, true), (Box::new(|| { self.update_from(&[1, 2, 3]).unwrap(); }), o, true)] } }
impl Poke for Lazy<Counter> { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { vec![(Box::new(|| {}), V::None, false), (Box::new(|| { self.increment(); }), c(1), true)] } }
impl Poke for Lazy<Gauge> { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { vec![(Box::new(|| {}), V::None, false), (Box::new(|| { self.add(2); }), V::G(5), true)] } }
impl Poke for Lazy<AtomicHistogram> { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { vec![(Box::new(|| {}), V::None, false), (Box::new(|| { self.increment(1).unwrap(); }), V::Other(TypeId::of::<AtomicHistogram>()), true)] } }
impl Poke for Own { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let b = self.v.load(SeqCst); vec![(Box::new(|| {}), c(b), b % 2 == 0), (Box::new(|| { self.v.fetch_add(1, SeqCst); }), c(b + 1), b % 2 == 1)] } }
impl<const N: usize> Poke for Generic<Gauge, N> { fn script(&'static self) -> Vec<(Box<dyn Fn()>, V, bool)> { let b = self.m.value(); vec![(Box::new(|| {}), V::G(b), false), (Box::new(|| { self.m.set(-9); }), V::G(-9), false)] } fn opaque() -> bool { true } }

/// A row of the table of expectations.
pub struct E { pub id: usize, pub metric: &'static dyn Metric, pub addr: usize, pub ty: Option<TypeId>, pub init: V, pub name: &'static str, pub desc: Option<&'static str>, pub meta: Vec<(&'static str, &'static str)>, pub fmt: Option<fn(&MetricEntry, Format) -> String>, pub script: Box<dyn Fn() -> Vec<(Box<dyn Fn()>, V, bool)>> }
pub fn e<M: Poke>(id: usize, m: &'static M, name: &'static str, desc: Option<&'static str>, meta: &[(&'static str, &'static str)], fmt: Option<fn(&MetricEntry, Format) -> String>) -> E {
    E { id, metric: m, addr: m as *const M as usize, ty: if M::opaque() { None } else { Some(m.as_any().map(|a| a.type_id()).unwrap_or(TypeId::of::<M>())) }, init: v_of(m), name, desc, meta: meta.to_vec(), fmt, script: Box::new(|| m.script()) }
}
pub use metriken::default_formatter;
pub fn statics() -> &'static [MetricEntry] { metriken::metrics().static_metrics() }
pub fn view_len() -> usize { metriken::metrics().iter().count() }
