//! C06: every sequence of accesses to a lazy metric.
use crate::ctx::*;
use metriken::{metrics, Counter, DynBoxedMetric, Format, Gauge, Lazy, Metric, MetricBuilder, Value};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq)]
enum O { Force, Deref, Bump, DerefMut, Get, GetMut, Value, Enabled, Any, Enumerate, Format, Request }
static RUNS: AtomicU64 = AtomicU64::new(0);
type F = fn() -> Counter;
fn ok() -> Counter { RUNS.fetch_add(1, SeqCst); Counter::with_value(7) }
fn bad() -> Counter { RUNS.fetch_add(1, SeqCst); panic!("initialiser") }
static NEXT: AtomicU64 = AtomicU64::new(0);
/// Panics only the first time it is called: it must not be called again.
fn once_bad() -> Counter { RUNS.fetch_add(1, SeqCst); if NEXT.fetch_add(1, SeqCst) == 0 { panic!("initialiser") } Counter::with_value(7) }

enum H { Bare(Lazy<Counter, F>), Boxed(DynBoxedMetric<Lazy<Counter, F>>) }
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum S { Fresh, Ready(u64), Poisoned }

pub fn c06(c: &mut Ctx) {
    let bare = [O::Force, O::Deref, O::Bump, O::DerefMut, O::Get, O::GetMut, O::Value, O::Enabled, O::Any, O::Request];
    let boxed = [O::Force, O::Deref, O::Bump, O::Get, O::Value, O::Enabled, O::Any, O::Enumerate, O::Format, O::Request];
    let depth = if c.thorough { 6 } else { 5 };
    for init in 0..3 { for b in [false, true] {
        seqs_of(if b { &boxed } else { &bare }, 1, depth, |s| c.case(|| format!("lazy {} {}: {s:?}", if b { "registered" } else { "bare" }, ["initialiser returns", "initialiser panics", "initialiser panics once"][init]), |r| {
            RUNS.store(0, SeqCst); NEXT.store(0, SeqCst);
            let l = Lazy::new([ok as F, bad, once_bad][init]);
            let mut h = if b { H::Boxed(MetricBuilder::new("lazy").metadata("k", "v").build(l)) } else { H::Bare(l) };
            let mut st = S::Fresh;
            for (i, o) in s.iter().enumerate() {
                r.step();
                let was = st;
                let forcing = matches!(o, O::Force | O::Deref | O::Bump | O::DerefMut);
                if forcing && st == S::Fresh { st = if init == 0 { S::Ready(7) } else { S::Poisoned } }
                let want = match st { S::Ready(v) => Some(v), _ => None };
                let e = |m: String| format!("step {i} {o:?} in {was:?}: {m}");
                if forcing {
                    let res = std::panic::catch_unwind(AssertUnwindSafe(|| match (&mut h, o) {
                        (H::Bare(l), O::Force) => Lazy::force(l).value(),
                        (H::Bare(l), O::DerefMut) => { let m: &mut Counter = l; let v = m.value(); *m = Counter::with_value(v + 10); v }
                        (H::Bare(l), O::Bump) => l.increment(),
                        (H::Bare(l), _) => Counter::value(l),
                        (H::Boxed(l), O::Force) => Lazy::force(&**l).value(),
                        (H::Boxed(l), O::Bump) => Lazy::force(l).increment(),
                        (H::Boxed(l), _) => { let l: &Lazy<Counter, F> = l; Counter::value(l) }
                    }));
                    match (res, want) {
                        (Ok(v), Some(w)) if v == w => {}
                        (Err(_), None) => {}
                        (Ok(v), w) => return Err(e(format!("gave {v}, expected {w:?}"))),
                        (Err(_), w) => return Err(e(format!("panicked, expected {w:?}: {}", last_panic()))),
                    }
                    if let S::Ready(v) = &mut st { match o { O::Bump => *v += 1, O::DerefMut => *v += 10, _ => {} } }
                } else {
                    let l: &mut Lazy<Counter, F>;
                    let got: Option<u64> = match (&mut h, o) {
                        (H::Bare(x), O::GetMut) => { l = x; Lazy::get_mut(l).map(|m| m.value()) }
                        (h, _) => {
                            let l: &Lazy<Counter, F> = match h { H::Bare(l) => l, H::Boxed(l) => l };
                            let m: &dyn Metric = l;
                            match o {
                                O::Get => Lazy::get(l).map(|m| m.value()),
                                O::Value => match m.value() { Some(Value::Counter(v)) => Some(v), None => None, _ => return Err(e("another kind of value".into())) },
                                O::Enabled => { if m.is_enabled() != want.is_some() { return Err(e(format!("enabled={}", m.is_enabled()))) } want }
                                O::Any => m.as_any().map(|a| a.downcast_ref::<Counter>().map(|c| c.value()).unwrap_or(u64::MAX)),
                                O::Request => { if metriken_core::request_ref::<u8>(m).is_some() { return Err(e("unexpected item".into())) } want }
                                O::Enumerate => {
                                    let v = metrics();
                                    let mut g = vec![];
                                    for x in &v { if x.name() == "lazy" { g.push((x.is_enabled(), x.as_any().is_some(), x.value().is_some())); let _ = x.metadata().len(); } }
                                    if g != vec![(want.is_some(), want.is_some(), want.is_some())] { return Err(e(format!("listed as {g:?}"))) }
                                    want
                                }
                                O::Format => {
                                    let v = metrics();
                                    for x in v.dynamic_metrics() { if x.name() == "lazy" && (x.formatted(Format::Simple) != "lazy" || !x.formatted(Format::Prometheus).starts_with("lazy")) { return Err(e(format!("formatted as {}", x.formatted(Format::Prometheus)))) } }
                                    want
                                }
                                _ => unreachable!(),
                            }
                        }
                    };
                    if got != want { return Err(e(format!("saw {got:?}, expected {want:?}"))) }
                }
                let runs = RUNS.load(SeqCst);
                if runs != (st != S::Fresh) as u64 { return Err(e(format!("the initialiser has run {runs} times"))) }
                r.state(&(init, b, st));
            }
            Ok(format!("{st:?}"))
        }));
    } }
    // default construction
    c.case(|| "defaults".into(), |_| {
        let l: Lazy<Counter> = Default::default();
        let g: metriken::LazyGauge = metriken::LazyGauge::new(Gauge::default);
        if Lazy::get(&l).is_some() || Metric::is_enabled(&g) { return Err("initialised by construction".into()) }
        if l.increment() != 0 || g.decrement() != 0 { return Err("not the default value".into()) }
        if Lazy::get(&l).map(|c| c.value()) != Some(1) || Lazy::get(&g).map(|c| c.value()) != Some(-1) { return Err("update lost".into()) }
        Ok("ok".into())
    });
}

// What an initialiser may do: look at its own metric, list all metrics, register others, use other lazy metrics.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Peek, List, Register, Next, PeekNext, Fail }
type G = Box<dyn FnOnce() -> Counter + Send>;
type N = DynBoxedMetric<Lazy<Counter, G>>;
struct Token(&'static AtomicU64);
impl Drop for Token { fn drop(&mut self) { self.0.fetch_add(1, SeqCst); } }
static FREED: AtomicU64 = AtomicU64::new(0);
fn unready(l: &Lazy<Counter, G>) -> Result<(), String> {
    let m: &dyn Metric = l;
    if Lazy::get(l).is_some() || m.is_enabled() || m.value().is_some() || m.as_any().is_some() { return Err("looks initialised before it is".into()) }
    Ok(())
}
pub fn nested(c: &mut Ctx) {
    use std::sync::{Arc, Mutex, OnceLock};
    let acts = [Act::Peek, Act::List, Act::Register, Act::Next, Act::PeekNext, Act::Fail];
    let mut scripts: Vec<Vec<Act>> = vec![];
    seqs_of(&acts, 0, 2, |s| if s.iter().position(|a| *a == Act::Fail).is_none_or(|i| i + 1 == s.len()) { scripts.push(s.to_vec()) });
    seqs_of(&scripts, 1, if c.thorough { 3 } else { 2 }, |chain| for entry in 0..4usize { c.case(|| format!("initialisers {chain:?}, used by {}", ["force", "deref", "force after a look", "force twice"][entry]), |r| {
        FREED.store(0, SeqCst);
        // the last one initialises plainly
        let k = chain.len() + 1;
        let all: Arc<Vec<OnceLock<N>>> = Arc::new((0..k).map(|_| OnceLock::new()).collect());
        let runs: Arc<Vec<AtomicU64>> = Arc::new((0..k).map(|_| AtomicU64::new(0)).collect());
        let errs: Arc<Mutex<Vec<String>>> = Arc::default();
        for i in 0..k {
            let (a, n, e, script, token) = (Arc::downgrade(&all), runs.clone(), errs.clone(), chain.get(i).cloned().unwrap_or_default(), Token(&FREED));
            let g: G = Box::new(move || {
                let _t = &token;
                n[i].fetch_add(1, SeqCst);
                let a = a.upgrade().unwrap();
                let see = |x: Result<(), String>| if let Err(x) = x { e.lock().unwrap().push(format!("initialiser {i}: {x}")) };
                for s in &script { match s {
                    Act::Peek => see(unready(a[i].get().unwrap())),
                    Act::List => { let mut found = 0; for m in &metrics() { if m.name() == format!("lazy{i}") { found += 1; if m.is_enabled() || m.value().is_some() { see(Err("listed as initialised before it is".into())) } } } if found != 1 { see(Err(format!("listed {found} times"))) } }
                    Act::Register => { let x = MetricBuilder::new("other").build(Counter::with_value(1)); if metrics().dynamic_metrics().filter(|m| m.name() == "other").count() != 1 { see(Err("registered metric not listed".into())) } drop(x); }
                    Act::Next => { let l: &Lazy<Counter, G> = a[i + 1].get().unwrap(); l.increment(); }
                    Act::PeekNext => { let l: &Lazy<Counter, G> = a[i + 1].get().unwrap(); if n[i + 1].load(SeqCst) == 0 { see(unready(l)); if n[i + 1].load(SeqCst) != 0 { see(Err("a look initialised another metric".into())) } } }
                    Act::Fail => std::panic::resume_unwind(Box::new(())),
                } }
                Counter::with_value(10 * (i as u64 + 1))
            });
            let _ = all[i].set(MetricBuilder::new(format!("lazy{i}")).build(Lazy::new(g)));
        }
        // what must come of it
        let mut want: Vec<(u64, Option<u64>)> = vec![(0, None); k];
        fn go(i: usize, chain: &[Vec<Act>], w: &mut Vec<(u64, Option<u64>)>) -> bool {
            if w[i].0 > 0 { return w[i].1.is_some() }
            w[i].0 = 1;
            if let Some(s) = chain.get(i) { for a in s { match a { Act::Next => { if !go(i + 1, chain, w) { return false } *w[i + 1].1.as_mut().unwrap() += 1 } Act::Fail => return false, _ => {} } } }
            w[i].1 = Some(10 * (i as u64 + 1));
            true
        }
        let ok = go(0, chain, &mut want);
        let l: &Lazy<Counter, G> = all[0].get().unwrap();
        if entry == 2 { unready(l)?; }
        for _ in 0..1 + (entry == 3) as usize {
            r.steps(chain.iter().map(|s| s.len() + 1).sum());
            let got = std::panic::catch_unwind(AssertUnwindSafe(|| if entry == 1 { Counter::value(l) } else { Lazy::force(l).value() })).ok();
            if got != if ok { Some(10) } else { None } { return Err(format!("gave {got:?}, initialised {ok}: {}", last_panic())) }
        }
        if let Some(e) = errs.lock().unwrap().first() { return Err(e.clone()) }
        for i in 0..k {
            let n = runs[i].load(SeqCst);
            let v = Lazy::get(all[i].get().unwrap()).map(|x| x.value());
            if (n, v) != want[i] { return Err(format!("metric {i}: initialiser ran {n} times, value {v:?}; expected {:?}", want[i])) }
        }
        // a metric whose initialiser did not run is dropped without running it, and nothing is dropped twice
        drop(all);
        for i in 0..k { let n = runs[i].load(SeqCst); if n != want[i].0 { return Err(format!("dropping metric {i} ran its initialiser")) } }
        let f = FREED.load(SeqCst);
        if f != k as u64 { return Err(format!("{f} of {k} initialisers dropped")) }
        r.state(&want);
        Ok(format!("{want:?}"))
    }) });
    // the instance lives as long as its metric and is dropped once
    #[allow(dead_code)]
    struct D(Token, u64);
    impl Metric for D { fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) } fn value(&self) -> Option<Value> { Some(Value::Counter(self.1)) } }
    for boxed in [false, true] { for used in [0usize, 1, 2] { c.case(|| format!("instance dropped with its metric, boxed={boxed}, forced {used} times"), |r| {
        r.steps(used + 1);
        FREED.store(0, SeqCst);
        let l: Lazy<D> = Lazy::new(|| D(Token(&FREED), 5));
        let after = |n: u64| { let f = FREED.load(SeqCst); if f == n { Ok(()) } else { Err(format!("{f} instances dropped, expected {n}")) } };
        if boxed { let b = MetricBuilder::new("dropped").build(l); for _ in 0..used { if Lazy::force(&b).1 != 5 { return Err("another instance".into()) } } after(0)?; drop(b) } else { for _ in 0..used { if Lazy::force(&l).1 != 5 { return Err("another instance".into()) } } after(0)?; let moved = l; if used > 0 && Lazy::get(&moved).map(|d| d.1) != Some(5) { return Err("lost by moving".into()) } after(0)?; drop(moved) }
        after((used > 0) as u64)?;
        Ok("once".into())
    }) } }
}
