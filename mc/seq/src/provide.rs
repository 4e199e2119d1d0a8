//! C12: every sequence of offers against every request.
use crate::ctx::*;
use metriken::{metric, metrics, DynBoxedMetric, DynPinnedMetric, Lazy, Metric, MetricBuilder, MetricEntry, Value};
use metriken_core::{request_ref, request_value, Request};
use std::any::Any;
use std::cell::Cell;
use std::pin::Pin;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Zst;
pub trait Tr: Send + Sync { fn id(&self) -> u32; }
impl Tr for u32 { fn id(&self) -> u32 { *self } }
/// Same layout as u32, another type.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Twin(u32);

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum T { U32, I32, Twin, String, Static, Zst, Str, Slice, Dyn, Unit }
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Req { V(T), R(T) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Offer { V(T, u32), W(T, u32), R(T, usize), RW(T, usize) }
impl Offer { fn req(&self) -> Req { match *self { Offer::V(t, _) | Offer::W(t, _) => Req::V(t), Offer::R(t, _) | Offer::RW(t, _) => Req::R(t) } } }

const REQS: [Req; 14] = [Req::V(T::U32), Req::V(T::I32), Req::V(T::Twin), Req::V(T::String), Req::V(T::Static), Req::V(T::Zst), Req::V(T::Unit),
    Req::R(T::U32), Req::R(T::Twin), Req::R(T::Zst), Req::R(T::Str), Req::R(T::Slice), Req::R(T::Dyn), Req::R(T::String)];

/// The script: what the metric offers, and what was observed while it did.
#[derive(Default)]
struct Script { offers: Vec<Offer>, ran: Vec<usize>, sat: Vec<Vec<Req>> }
static SCRIPT: Mutex<Script> = Mutex::new(Script { offers: Vec::new(), ran: Vec::new(), sat: Vec::new() });
fn script() -> std::sync::MutexGuard<'static, Script> { SCRIPT.lock().unwrap_or_else(|e| e.into_inner()) }

pub struct Scripted { a: [u32; 2], t: [Twin; 2], s: [String; 2], z: [Zst; 2], bytes: [[u8; 3]; 2] }
impl Scripted { fn new() -> Self { Scripted { a: [10, 11], t: [Twin(20), Twin(21)], s: ["s0".into(), "s1".into()], z: [Zst; 2], bytes: [[1, 2, 3], [4, 5, 6]] } } }
fn satisfied(r: &Request) -> Vec<Req> {
    REQS.iter().copied().filter(|q| match q {
        Req::V(T::U32) => r.would_be_satisfied_by_value_of::<u32>(), Req::V(T::I32) => r.would_be_satisfied_by_value_of::<i32>(), Req::V(T::Twin) => r.would_be_satisfied_by_value_of::<Twin>(),
        Req::V(T::String) => r.would_be_satisfied_by_value_of::<String>(), Req::V(T::Static) => r.would_be_satisfied_by_value_of::<&'static str>(), Req::V(T::Zst) => r.would_be_satisfied_by_value_of::<Zst>(), Req::V(_) => r.would_be_satisfied_by_value_of::<()>(),
        Req::R(T::U32) => r.would_be_satisfied_by_ref_of::<u32>(), Req::R(T::Twin) => r.would_be_satisfied_by_ref_of::<Twin>(), Req::R(T::Zst) => r.would_be_satisfied_by_ref_of::<Zst>(),
        Req::R(T::Str) => r.would_be_satisfied_by_ref_of::<str>(), Req::R(T::Slice) => r.would_be_satisfied_by_ref_of::<[u8]>(), Req::R(T::Dyn) => r.would_be_satisfied_by_ref_of::<dyn Tr>(), Req::R(_) => r.would_be_satisfied_by_ref_of::<String>(),
    }).collect()
}
/// What the metric reports of itself besides its offers: bit 0 disabled, bit 1 no concrete type, bit 2 no value;
/// bit 3 makes it ask others for all kinds of items while it is being asked.
static MODE: AtomicU8 = AtomicU8::new(0);
/// Whether the closures panic.
static PANICS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn mode(bit: u8) -> bool { MODE.load(Ordering::Relaxed) & bit != 0 }
struct Other(Twin);
impl Metric for Other {
    fn as_any(&self) -> Option<&dyn Any> { None }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut Request<'a>) { r.provide_value_with(|| { ask_others(2); 77u32 }).provide_ref(&self.0).provide_ref("other").provide_value(Twin(78)); }
}
/// Requests made while another is being answered, to `depth` levels.
fn ask_others(depth: u8) {
    thread_local!(static LEVEL: Cell<u8> = const { Cell::new(0) });
    if !mode(8) || LEVEL.with(|l| l.get()) >= depth { return }
    LEVEL.with(|l| l.set(l.get() + 1));
    let o = Other(Twin(79));
    let got = (request_value::<u32>(&o), request_ref::<str>(&o), request_ref::<Twin>(&o).copied(), request_value::<Twin>(&o), request_value::<String>(&o), request_ref::<u32>(&o).copied());
    LEVEL.with(|l| l.set(l.get() - 1));
    assert_eq!(got, (Some(77), Some("other"), Some(Twin(79)), Some(Twin(78)), None, None), "asked while another request is being answered");
}
impl Metric for Scripted {
    fn is_enabled(&self) -> bool { !mode(1) }
    fn as_any(&self) -> Option<&dyn Any> { if mode(2) { None } else { Some(self) } }
    fn value(&self) -> Option<Value> { if mode(4) { None } else { Some(Value::Counter(self.a[0] as u64)) } }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        let offers = script().offers.clone();
        let note = |i: usize| { script().ran.push(i); if PANICS.load(Ordering::Relaxed) { std::panic::resume_unwind(Box::new(())) } ask_others(2) };
        script().sat.push(satisfied(r));
        for (i, o) in offers.iter().enumerate() {
            ask_others(2);
            match *o {
                Offer::V(T::U32, x) => { r.provide_value(x); }
                Offer::V(T::I32, x) => { r.provide_value(x as i32); }
                Offer::V(T::Twin, x) => { r.provide_value(Twin(x)); }
                Offer::V(T::String, x) => { r.provide_value(format!("v{x}")); }
                Offer::V(T::Static, x) => { r.provide_value::<&'static str>(if x == 0 { "p0" } else { "p1" }); }
                Offer::V(T::Zst, _) => { r.provide_value(Zst); }
                Offer::V(_, _) => { r.provide_value(()); }
                Offer::W(T::U32, x) => { r.provide_value_with(|| { note(i); x }); }
                Offer::W(T::String, x) => { r.provide_value_with(|| { note(i); format!("v{x}") }); }
                Offer::W(_, _) => { r.provide_value_with(|| { note(i); Zst }); }
                Offer::R(T::U32, k) => { r.provide_ref::<u32>(&self.a[k]); }
                Offer::R(T::Twin, k) => { r.provide_ref::<Twin>(&self.t[k]); }
                Offer::R(T::Zst, k) => { r.provide_ref::<Zst>(&self.z[k]); }
                Offer::R(T::Str, k) => { r.provide_ref::<str>(&self.s[k]); }
                Offer::R(T::Slice, k) => { r.provide_ref::<[u8]>(&self.bytes[k]); }
                Offer::R(T::Dyn, k) => { r.provide_ref::<dyn Tr>(&self.a[k]); }
                Offer::R(_, k) => { r.provide_ref::<String>(&self.s[k]); }
                Offer::RW(T::U32, k) => { r.provide_ref_with::<u32>(|| { note(i); &self.a[k] }); }
                Offer::RW(_, k) => { r.provide_ref_with::<str>(|| { note(i); &self.s[k] }); }
            }
            script().sat.push(satisfied(r));
        }
    }
}
/// The answer to a request, in a comparable form.
fn ask(m: &dyn Metric, q: Req) -> Option<String> {
    match q {
        Req::V(T::U32) => request_value::<u32>(m).map(|x| x.to_string()), Req::V(T::I32) => request_value::<i32>(m).map(|x| x.to_string()), Req::V(T::Twin) => request_value::<Twin>(m).map(|x| x.0.to_string()),
        Req::V(T::String) => request_value::<String>(m), Req::V(T::Static) => request_value::<&'static str>(m).map(|x| x.to_string()), Req::V(T::Zst) => request_value::<Zst>(m).map(|_| "zst".into()), Req::V(_) => request_value::<()>(m).map(|_| "unit".into()),
        Req::R(T::U32) => request_ref::<u32>(m).map(|x| x.to_string()), Req::R(T::Twin) => request_ref::<Twin>(m).map(|x| x.0.to_string()), Req::R(T::Zst) => request_ref::<Zst>(m).map(|_| "zst".into()),
        Req::R(T::Str) => request_ref::<str>(m).map(|x| x.into()), Req::R(T::Slice) => request_ref::<[u8]>(m).map(|x| format!("{x:?}")), Req::R(T::Dyn) => request_ref::<dyn Tr>(m).map(|x| x.id().to_string()), Req::R(_) => request_ref::<String>(m).cloned(),
    }
}
fn ask_entry(e: &MetricEntry, q: Req) -> Option<String> {
    match q {
        Req::V(T::U32) => e.request_value::<u32>().map(|x| x.to_string()), Req::V(T::I32) => e.request_value::<i32>().map(|x| x.to_string()), Req::V(T::Twin) => e.request_value::<Twin>().map(|x| x.0.to_string()),
        Req::V(T::String) => e.request_value::<String>(), Req::V(T::Static) => e.request_value::<&'static str>().map(|x| x.to_string()), Req::V(T::Zst) => e.request_value::<Zst>().map(|_| "zst".into()), Req::V(_) => e.request_value::<()>().map(|_| "unit".into()),
        Req::R(T::U32) => e.request_ref::<u32>().map(|x| x.to_string()), Req::R(T::Twin) => e.request_ref::<Twin>().map(|x| x.0.to_string()), Req::R(T::Zst) => e.request_ref::<Zst>().map(|_| "zst".into()),
        Req::R(T::Str) => e.request_ref::<str>().map(|x| x.into()), Req::R(T::Slice) => e.request_ref::<[u8]>().map(|x| format!("{x:?}")), Req::R(T::Dyn) => e.request_ref::<dyn Tr>().map(|x| x.id().to_string()), Req::R(_) => e.request_ref::<String>().cloned(),
    }
}
fn shown(o: &Offer) -> String {
    match *o {
        Offer::V(T::String, x) | Offer::W(T::String, x) => format!("v{x}"),
        Offer::V(T::Static, x) => format!("p{x}"),
        Offer::V(T::Zst, _) | Offer::W(T::Zst, _) | Offer::R(T::Zst, _) => "zst".into(),
        Offer::V(T::Unit, _) => "unit".into(),
        Offer::V(_, x) | Offer::W(_, x) => x.to_string(),
        Offer::R(T::U32, k) | Offer::RW(T::U32, k) | Offer::R(T::Dyn, k) => (10 + k).to_string(),
        Offer::R(T::Twin, k) => (20 + k).to_string(),
        Offer::R(T::Slice, k) => format!("{:?}", [[1, 2, 3], [4, 5, 6]][k]),
        Offer::R(_, k) | Offer::RW(_, k) => format!("s{k}"),
    }
}

#[metric(name = "scripted/static", metadata = { a = "b" })]
static ST: Lazy<Scripted> = Lazy::new(Scripted::new);
#[metric(name = "scripted/const")]
static SD: Fixed = Fixed;
/// A static metric that forwards to the script without being lazy.
pub struct Fixed;
static INNER: std::sync::OnceLock<Scripted> = std::sync::OnceLock::new();
impl Metric for Fixed {
    fn is_enabled(&self) -> bool { !mode(1) }
    fn as_any(&self) -> Option<&dyn Any> { if mode(2) { None } else { Some(self) } }
    fn value(&self) -> Option<Value> { if mode(4) { None } else { Some(Value::Gauge(-1)) } }
    fn provide<'a>(&'a self, r: &mut Request<'a>) { INNER.get_or_init(Scripted::new).provide(r) }
}
enum H { Bare(Scripted), Static, StaticLazy, Boxed(DynBoxedMetric<Scripted>), Pinned(Pin<Box<DynPinnedMetric<Scripted>>>), BoxedLazy(DynBoxedMetric<Lazy<Scripted>>), Lazy(Lazy<Scripted>) }
const PLACES: [&str; 10] = ["bare", "static", "static lazy", "boxed", "pinned", "boxed lazy", "lazy", "boxed with attached values", "pinned with attached values", "uninitialised lazy"];

fn check(r: &mut Rec, offers: &[Offer], q: Req, place: usize) -> Result<String, String> {
    { let mut s = script(); s.offers = offers.to_vec(); s.ran.clear(); s.sat.clear(); }
    let attach = |b: MetricBuilder| b.provide(1u32).provide(900u32).provide(Zst).provide("attached".to_string());
    let h = match place {
        0 => H::Bare(Scripted::new()), 1 => H::Static, 2 => { Lazy::force(&ST); H::StaticLazy }
        3 => H::Boxed(MetricBuilder::new("scripted").build(Scripted::new())),
        4 => { let (p, e) = MetricBuilder::new("scripted").build_pinned(Scripted::new()); let p = Box::pin(p); p.as_ref().register(e); H::Pinned(p) }
        5 => { let b = MetricBuilder::new("scripted").build(Lazy::<Scripted>::new(Scripted::new)); Lazy::force(&b); H::BoxedLazy(b) }
        6 => { let l = Lazy::<Scripted>::new(Scripted::new); Lazy::force(&l); H::Lazy(l) }
        7 => H::Boxed(attach(MetricBuilder::new("scripted")).build(Scripted::new())),
        8 => { let (p, e) = attach(MetricBuilder::new("scripted")).build_pinned(Scripted::new()); let p = Box::pin(p); p.as_ref().register(e); H::Pinned(p) }
        _ => H::Lazy(Lazy::new(Scripted::new)),
    };
    let name = match h { H::Static => Some("scripted/const"), H::StaticLazy => Some("scripted/static"), H::Boxed(_) | H::Pinned(_) | H::BoxedLazy(_) => Some("scripted"), _ => None };
    let attached = if place == 7 || place == 8 { match q { Req::R(T::U32) => Some("900".to_string()), Req::R(T::Zst) => Some("zst".into()), Req::R(T::String) => Some("attached".into()), _ => None } } else { None };
    let first = if place == 9 { None } else { offers.iter().position(|o| o.req() == q) };
    let want = attached.clone().or(first.map(|i| shown(&offers[i])));
    let got = match (&h, name) {
        (H::Bare(m), _) => ask(m, q),
        (H::Lazy(m), _) => ask(m, q),
        (_, Some(n)) => {
            let v = metrics();
            let e = v.iter().find(|e| e.name() == n).ok_or("entry missing")?;
            let a = ask_entry(e, q);
            { let mut s = script(); s.ran.clear(); s.sat.clear(); }
            let b = ask(e.metric(), q);
            if a != b { return Err(format!("the entry answers {a:?}, its metric {b:?}")) }
            a
        }
        _ => unreachable!(),
    };
    if got != want { return Err(format!("answered {got:?}, expected {want:?}")) }
    let s = script();
    if place == 9 { return if s.sat.is_empty() { Ok("none".into()) } else { Err("an uninitialised lazy metric ran".into()) } }
    // closures run exactly when they fulfil the request
    let exp: Vec<usize> = match first { Some(i) if attached.is_none() && matches!(offers[i], Offer::W(..) | Offer::RW(..)) => vec![i], _ => vec![] };
    if s.ran != exp { return Err(format!("closures {:?} ran, expected {exp:?}", s.ran)) }
    // satisfaction queries before and after each offer
    // (a metric need not be asked once the request is fulfilled or if it offers nothing)
    if s.sat.is_empty() && (attached.is_some() || offers.is_empty()) { return Ok(format!("{want:?}")) }
    if s.sat.len() != offers.len() + 1 { return Err(format!("the metric was asked {} times", s.sat.len())) }
    for i in 0..=offers.len() {
        let open = attached.is_none() && !first.is_some_and(|f| f < i);
        let w: Vec<Req> = if open { vec![q] } else { vec![] };
        if s.sat[i] != w { return Err(format!("after {i} offers the satisfaction query holds for {:?}, expected {w:?}", s.sat[i])) }
    }
    r.steps(offers.len() + 1);
    r.state(&(q, first.map(|i| shown(&offers[i])), place));
    Ok(format!("{want:?}"))
}
pub fn c12(c: &mut Ctx) {
    let offers = [Offer::V(T::U32, 1), Offer::V(T::U32, 2), Offer::W(T::U32, 3), Offer::R(T::U32, 0), Offer::R(T::U32, 1), Offer::RW(T::U32, 0),
        Offer::V(T::I32, 4), Offer::V(T::Twin, 5), Offer::R(T::Twin, 0), Offer::V(T::String, 0), Offer::W(T::String, 1), Offer::R(T::String, 1), Offer::R(T::Str, 0), Offer::RW(T::Str, 1),
        Offer::V(T::Static, 0), Offer::V(T::Zst, 0), Offer::W(T::Zst, 0), Offer::R(T::Zst, 0), Offer::V(T::Unit, 0), Offer::R(T::Slice, 0), Offer::R(T::Slice, 1), Offer::R(T::Dyn, 0), Offer::R(T::Dyn, 1)];
    let depth = if c.thorough { 4 } else { 3 };
    for place in 0..PLACES.len() { seqs_of(&offers, 0, depth, |s| for q in REQS { c.case(|| format!("{}: request {q:?} of offers {s:?}", PLACES[place]), |r| check(r, s, q, place)) }) }
    // the same whatever the metric says about its enablement, type and value
    for m in 1..9u8 { for place in 0..PLACES.len() { seqs_of(&offers, 0, 2, |s| for q in REQS { c.case(|| format!("{}, reports {m}: request {q:?} of offers {s:?}", PLACES[place]), |r| { MODE.store(m, Ordering::Relaxed); let x = check(r, s, q, place); MODE.store(0, Ordering::Relaxed); x }) }) } }
    // an offer that panics leaves nothing behind
    for place in 0..PLACES.len() - 1 { for with in [Offer::W(T::U32, 3), Offer::RW(T::U32, 1), Offer::W(T::String, 1), Offer::RW(T::Str, 0)] { for o in offers { for q in REQS { c.case(|| format!("{}: request {q:?} of {o:?} after {with:?} panicked", PLACES[place]), |r| {
        PANICS.store(true, Ordering::Relaxed);
        let first = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = check(r, &[with], with.req(), place); }));
        PANICS.store(false, Ordering::Relaxed);
        let attached = (place == 7 || place == 8) && with.req() == Req::R(T::U32);
        if first.is_ok() != attached { return Err(format!("the closure of {with:?} ran: {}", first.is_err())) }
        check(r, &[o, with], q, place)
    }) } } } }
    // longer sequences over one type in its different kinds
    let few = [Offer::V(T::U32, 1), Offer::W(T::U32, 3), Offer::R(T::U32, 0), Offer::RW(T::U32, 1), Offer::R(T::Dyn, 0), Offer::V(T::Twin, 9)];
    for place in 0..PLACES.len() { seqs_of(&few, 3, 5 + c.thorough as usize, |s| for q in [Req::V(T::U32), Req::R(T::U32), Req::R(T::Dyn), Req::V(T::Twin)] { c.case(|| format!("{}: request {q:?} of offers {s:?}", PLACES[place]), |r| check(r, s, q, place)) }) }
    same_names(c, false);
}
thread_local!(static SEEN: std::cell::RefCell<Option<fn(&Request) -> (bool, bool)>> = const { std::cell::RefCell::new(None) });
thread_local!(static SAW: std::cell::RefCell<Vec<(bool, bool)>> = const { std::cell::RefCell::new(Vec::new()) });
/// A metric that forwards to another.
struct Fwd(Box<dyn Metric>);
impl Metric for Fwd {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut Request<'a>) { self.0.provide(r) }
}
/// Types that differ although their names, sizes and values are the same: declared
/// in different blocks of one function.
pub fn same_names(c: &mut Ctx, attached_only: bool) {
    type Made = (Box<dyn Fn() -> Box<dyn Metric>>, fn(&dyn Metric, &MetricEntry) -> [Option<u32>; 3], fn(&Request) -> (bool, bool), Box<dyn Fn(MetricBuilder, u32) -> MetricBuilder>);
    // one macro use per block, so that the types have the same path
    macro_rules! block { () => { {
        #[derive(Clone, Copy)] struct Local(u32);
        struct M(std::sync::Mutex<Local>, Local);
        impl Metric for M {
            fn as_any(&self) -> Option<&dyn Any> { Some(self) }
            fn value(&self) -> Option<Value> { None }
            fn provide<'a>(&'a self, r: &mut Request<'a>) { SEEN.with(|f| if let Some(f) = &*f.borrow() { let x = f(r); SAW.with(|s| s.borrow_mut().push(x)) }); r.provide_value(*self.0.lock().unwrap()); r.provide_ref(&self.1); }
        }
        let made: Made = (Box::new(|| Box::new(M(std::sync::Mutex::new(Local(7)), Local(8))) as Box<dyn Metric>), |m, e| [request_value::<Local>(m).map(|x| x.0), request_ref::<Local>(m).map(|x| x.0), e.request_ref::<Local>().map(|x| x.0)], |r| (r.would_be_satisfied_by_value_of::<Local>(), r.would_be_satisfied_by_ref_of::<Local>()), Box::new(|b, v| b.provide(Local(v))));
        made
    } } }
    let all: Vec<Made> = vec![block!(), block!(), block!()];
    for i in 0..all.len() { for j in 0..all.len() {
        if attached_only { break }
        c.case(|| format!("types of one name: {j} asked of a metric that offers {i}"), |_| {
            SEEN.with(|f| *f.borrow_mut() = Some(all[j].2));
            SAW.with(|s| s.borrow_mut().clear());
            let h = MetricBuilder::new("twin").build(Fwd(all[i].0()));
            let v = metrics();
            let e = v.dynamic_metrics().find(|e| e.name() == "twin").ok_or("entry missing")?;
            let got = all[j].1(e.metric(), e);
            let want = if i == j { [Some(7), Some(8), Some(8)] } else { [None; 3] };
            SEEN.with(|f| *f.borrow_mut() = None);
            if got != want { return Err(format!("answered {got:?}, expected {want:?}")) }
            drop(v); drop(h);
            Ok(format!("{got:?}"))
        });
        c.case(|| format!("types of one name: {j} asked, satisfaction queried for {i}"), |_| {
            SEEN.with(|f| *f.borrow_mut() = Some(all[i].2));
            SAW.with(|s| s.borrow_mut().clear());
            let h = MetricBuilder::new("twin").build(Fwd(all[0].0()));
            let v = metrics();
            let e = v.dynamic_metrics().find(|e| e.name() == "twin").ok_or("entry missing")?;
            all[j].1(e.metric(), e);
            SEEN.with(|f| *f.borrow_mut() = None);
            let saw = SAW.with(|s| s.borrow().clone());
            let want = if i == j { vec![(true, false), (false, true), (false, true)] } else { vec![(false, false); 3] };
            if saw != want { return Err(format!("queries say {saw:?}, expected {want:?}")) }
            drop(v); drop(h);
            Ok(format!("{saw:?}"))
        });
    } }
    // attached values of such types do not replace each other
    seqs_of(&[0usize, 1, 2], 0, if c.thorough { 5 } else { 4 }, |s| c.case(|| format!("values attached of types of one name: {s:?}"), |_| {
        let mut b = MetricBuilder::new("twin");
        for (k, i) in s.iter().enumerate() { b = all[*i].3(b, 100 + k as u32) }
        let h = b.build(metriken::Counter::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.name() == "twin").ok_or("entry missing")?;
        for i in 0..3 {
            let last = s.iter().rposition(|x| *x == i).map(|k| 100 + k as u32);
            let got = all[i].1(e.metric(), e);
            if got != [None, last, last] { return Err(format!("type {i} answered {got:?}, expected {last:?}")) }
        }
        drop(v); drop(h);
        Ok(format!("{s:?}"))
    }));
}

/// Very many types at once, so that any shortened identity of a type would collide.
struct K<const N: usize>;
struct P<A, B>(usize, std::marker::PhantomData<fn(A, B)>);
#[inline(never)]
fn attach<T: Any + Send + Sync>(b: &mut Option<MetricBuilder>, t: T) { *b = b.take().map(|b| b.provide(t)) }
#[inline(never)]
fn offer<T: 'static>(r: &mut Request, runs: &Cell<usize>, t: T) { r.provide_value_with(|| { runs.set(runs.get() + 1); t }); }
#[inline(never)]
fn find<T: 'static>(e: &MetricEntry, attached: bool, n: usize, id: fn(&T) -> usize) -> Result<(), String> {
    let got = (e.request_ref::<T>().map(id), e.request_value::<T>().map(|t| id(&t)));
    let want = if attached { (Some(n), None) } else { (None, Some(n)) };
    if got == want { Ok(()) } else { Err(format!("type {n} as reference and as value: {got:?}, expected {want:?}")) }
}
/// What to do for one type: attach it, offer it or ask for it.
enum Do<'a, 'b> { Attach(&'a mut Option<MetricBuilder>), Offer(&'a mut Request<'b>, &'a Cell<usize>), Ask(&'a MetricEntry, bool) }
#[inline(never)]
fn one<A: 'static, B: 'static>(d: &mut Do, n: usize) -> Result<(), String> {
    let t = P::<A, B>(n, std::marker::PhantomData);
    match d { Do::Attach(b) => attach(b, t), Do::Offer(r, runs) => offer(r, runs, t), Do::Ask(e, a) => return find::<P<A, B>>(e, *a, n, |p| p.0) }
    Ok(())
}
macro_rules! each { ($m:ident $($n:literal)+) => { [$( $m!($n) ),+] }; ($m:ident) => { each!($m 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31) } }
fn row<A: 'static>(d: &mut Do, i: usize) -> Result<(), String> {
    macro_rules! cell { ($n:literal) => { one::<A, K<$n>> as fn(&mut Do, usize) -> Result<(), String> } }
    for (j, f) in each!(cell).iter().enumerate() { f(d, i * 32 + j)? }
    Ok(())
}
const TYPES: usize = 32 * 32;
fn every(d: &mut Do) -> Result<(), String> {
    macro_rules! cell { ($n:literal) => { row::<K<$n>> as fn(&mut Do, usize) -> Result<(), String> } }
    for (i, f) in each!(cell).iter().enumerate() { f(d, i)? }
    Ok(())
}
struct Many(std::sync::atomic::AtomicUsize);
impl Metric for Many {
    fn as_any(&self) -> Option<&dyn Any> { None }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        let runs = Cell::new(0);
        let _ = every(&mut Do::Offer(r, &runs));
        self.0.fetch_add(runs.get(), Ordering::Relaxed);
    }
}
pub fn many_types(c: &mut Ctx, attached_only: bool) {
    c.case(|| format!("{TYPES} types attached"), |r| {
        r.steps(TYPES);
        let mut b = Some(MetricBuilder::new("many/types"));
        every(&mut Do::Attach(&mut b))?;
        let _h = b.unwrap().build(metriken::Counter::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.name() == "many/types").ok_or("not listed")?;
        let r = every(&mut Do::Ask(e, true));
        drop(v);
        r.map(|_| "ok".into())
    });
    if attached_only { return }
    c.case(|| format!("{TYPES} types offered by the metric"), |r| {
        r.steps(TYPES);
        let h = MetricBuilder::new("many/types").build(Many(Default::default()));
        {
            let v = metrics();
            let e = v.dynamic_metrics().find(|e| e.name() == "many/types").ok_or("not listed")?;
            every(&mut Do::Ask(e, false))?;
        }
        let runs = h.0.load(Ordering::Relaxed);
        if runs != TYPES { return Err(format!("{runs} closures were run for {TYPES} requests")) }
        Ok("ok".into())
    })
}
