//! C07: every sequence of creating, registering, moving and dropping dynamic metrics.
use crate::alloc::HOLD;
use crate::ctx::*;
use metriken::{metrics, Counter, DynBoxedMetric, DynPinnedMetric, MetricBuilder, MetricEntry, Value};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    /// Put a new boxed metric, registered under a name, into a slot; whatever
    /// was there is dropped afterwards.
    Box(usize, u8),
    /// The same through the older constructor.
    BoxNew(usize),
    /// Drop whatever is in the slot, then build a pinned metric in that place,
    /// not registered yet.
    Pin(usize),
    /// The same through the older constructor.
    PinNew(usize),
    /// Register (again) the pinned metric of the slot.
    Reg(usize, u8),
    Drop(usize),
    /// The same while its owner unwinds from a panic.
    DropUnwinding(usize),
    /// Move a boxed metric to another thread and drop it there.
    DropElsewhere(usize),
    /// The same, in the thread's local storage, so that it goes when the thread does.
    DropAtExit(usize),
    /// Another thread makes the boxed metric, and hands it over.
    BoxElsewhere(usize),
    /// Another thread registers the pinned metric.
    RegElsewhere(usize),
    /// Exchange the contents of two slots (never a registered pinned metric).
    Swap(usize, usize),
    /// Forget a builder's product without registering it, after a metric with
    /// the same name may already be registered.
    Unused(u8),
}
type P = DynPinnedMetric<Counter>;
enum Slot { Empty, Boxed(DynBoxedMetric<Counter>), Pinned }
/// A slot has its own storage, so a pinned metric in a slot always reuses one
/// address. The slots are next to each other or a power of two apart, so that
/// their addresses differ in few bits.
struct World { kind: Vec<Slot>, store: Vec<&'static mut MaybeUninit<P>> }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { Adjacent, Apart(u32) }
/// One mapping per place, made once.
fn place(p: Place, n: usize) -> Vec<&'static mut MaybeUninit<P>> {
    use std::sync::Mutex;
    static MAPS: Mutex<Vec<(u64, usize)>> = Mutex::new(Vec::new());
    let gap = match p { Place::Adjacent => std::mem::size_of::<P>(), Place::Apart(b) => 1usize << b };
    let key = match p { Place::Adjacent => 0, Place::Apart(b) => b as u64 };
    let mut maps = MAPS.lock().unwrap();
    let base = match maps.iter().find(|m| m.0 == key) {
        Some(m) => m.1,
        None => {
            // address space only, then the pages that are used
            let len = gap * 4 + 8192;
            let a = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
            if a == libc::MAP_FAILED { return vec![] }
            for i in 0..4 { unsafe { libc::mprotect(((a as usize + i * gap) & !4095) as *mut libc::c_void, 8192, libc::PROT_READ | libc::PROT_WRITE) }; }
            maps.push((key, a as usize));
            a as usize
        }
    };
    (0..n).map(|i| unsafe { &mut *((base + i * gap) as *mut MaybeUninit<P>) }).collect()
}
#[derive(Clone, Debug, PartialEq, Hash)]
enum M { Empty, Boxed(u64, u8), Pinned(u64, Option<u8>) }

const NAMES: [&str; 3] = ["dyn/a", "dyn/b", "dyn/new"];
const DESCS: [Option<&str>; 3] = [None, Some("second"), Some("third")];
fn builder(n: u8) -> MetricBuilder { let b = MetricBuilder::new(NAMES[n as usize]); match DESCS[n as usize] { Some(d) => b.description(d), None => b } }
fn entry(n: u8) -> MetricEntry { builder(n).into_entry() }

fn enabled(m: &[M], o: O) -> bool {
    match o {
        O::Box(..) | O::BoxNew(..) | O::BoxElsewhere(..) | O::Pin(..) | O::PinNew(..) | O::Unused(_) => true,
        O::Reg(s, _) | O::RegElsewhere(s) => matches!(m[s], M::Pinned(..)),
        O::Drop(s) | O::DropUnwinding(s) => m[s] != M::Empty,
        O::DropElsewhere(s) | O::DropAtExit(s) => matches!(m[s], M::Boxed(..)),
        O::Swap(a, b) => [a, b].iter().all(|s| !matches!(m[*s], M::Pinned(_, Some(_)))) && !(m[a] == M::Empty && m[b] == M::Empty),
    }
}
fn apply(m: &mut Vec<M>, o: O, id: u64) {
    match o {
        O::Box(s, n) => m[s] = M::Boxed(id, n),
        O::BoxNew(s) => m[s] = M::Boxed(id, 2),
        O::BoxElsewhere(s) => m[s] = M::Boxed(id, 1),
        O::RegElsewhere(s) => if let M::Pinned(_, r) = &mut m[s] { *r = Some(0) },
        O::Pin(s) | O::PinNew(s) => m[s] = M::Pinned(id, None),
        O::Reg(s, n) => if let M::Pinned(_, r) = &mut m[s] { *r = Some(n) },
        O::Drop(s) | O::DropUnwinding(s) | O::DropElsewhere(s) | O::DropAtExit(s) => m[s] = M::Empty,
        O::Swap(a, b) => m.swap(a, b),
        O::Unused(_) => {}
    }
}
impl World {
    fn new(n: usize, p: Place) -> Self { World { kind: (0..n).map(|_| Slot::Empty).collect(), store: place(p, n) } }
    fn clear(&mut self, s: usize) {
        match std::mem::replace(&mut self.kind[s], Slot::Empty) {
            Slot::Pinned => unsafe { self.store[s].assume_init_drop() },
            other => drop(other),
        }
    }
    #[allow(deprecated)]
    fn run(&mut self, o: O, id: u64) {
        match o {
            O::Box(s, n) => { let b = builder(n).build(Counter::with_value(id)); self.put(s, b) }
            O::BoxNew(s) => { let b = DynBoxedMetric::new(Counter::with_value(id), entry(2)); self.put(s, b) }
            O::BoxElsewhere(s) => { let b = std::thread::spawn(move || builder(1).build(Counter::with_value(id))).join().unwrap(); self.put(s, b) }
            O::RegElsewhere(s) => { let p = unsafe { self.store[s].assume_init_ref() }; std::thread::scope(|t| { t.spawn(|| unsafe { Pin::new_unchecked(p) }.register(entry(0))); }) }
            O::Pin(s) => { self.clear(s); self.store[s].write(builder(0).build_pinned(Counter::with_value(id)).0); self.kind[s] = Slot::Pinned }
            O::PinNew(s) => { self.clear(s); self.store[s].write(P::new(Counter::with_value(id))); self.kind[s] = Slot::Pinned }
            O::Reg(s, n) => unsafe { Pin::new_unchecked(self.store[s].assume_init_ref()).register(entry(n)) },
            O::Drop(s) => self.clear(s),
            O::DropUnwinding(s) => {
                struct Guard<'a>(&'a mut World, usize);
                impl Drop for Guard<'_> { fn drop(&mut self) { self.0.clear(self.1) } }
                let g = Guard(self, s);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _g = g; std::panic::resume_unwind(Box::new(())) }));
            }
            O::DropElsewhere(s) => { let x = self.take(s); std::thread::spawn(move || drop(x)).join().unwrap() }
            O::DropAtExit(s) => {
                thread_local!(static KEPT: std::cell::RefCell<Option<DynBoxedMetric<Counter>>> = const { std::cell::RefCell::new(None) });
                let x = self.take(s);
                std::thread::spawn(move || KEPT.with(|k| *k.borrow_mut() = x)).join().unwrap()
            }
            O::Swap(a, b) => {
                // pinned metrics that are not registered may still be moved
                self.kind.swap(a, b);
                unsafe { std::ptr::swap(self.store[a].as_mut_ptr(), self.store[b].as_mut_ptr()) }
            }
            O::Unused(n) => { let (p, e) = builder(n).build_pinned(Counter::with_value(id)); drop(e); drop(p) }
        }
    }
    fn take(&mut self, s: usize) -> Option<DynBoxedMetric<Counter>> { match std::mem::replace(&mut self.kind[s], Slot::Empty) { Slot::Boxed(b) => Some(b), _ => None } }
    fn put(&mut self, s: usize, b: DynBoxedMetric<Counter>) { self.clear(s); self.kind[s] = Slot::Boxed(b) }
}
impl Drop for World { fn drop(&mut self) { for s in 0..self.kind.len() { self.clear(s) } } }

type Row = (String, Option<String>, u64);
fn row(e: &MetricEntry) -> Row { (e.name().to_string(), e.description().map(|d| d.to_string()), match e.value() { Some(Value::Counter(c)) => c, _ => u64::MAX }) }
fn listed() -> (Vec<Row>, Vec<Row>) {
    let v = metrics();
    let mut a: Vec<Row> = v.dynamic_metrics().map(row).collect();
    let st: Vec<*const MetricEntry> = v.static_metrics().iter().map(|e| e as *const _).collect();
    let mut b: Vec<Row> = v.iter().filter(|e| !st.contains(&(*e as *const _))).map(row).collect();
    a.sort(); b.sort();
    (a, b)
}
fn expected(m: &[M]) -> Vec<Row> {
    let mut v: Vec<Row> = m.iter().filter_map(|x| match x { M::Boxed(id, n) | M::Pinned(id, Some(n)) => Some((NAMES[*n as usize].to_string(), DESCS[*n as usize].map(|d| d.to_string()), *id)), _ => None }).collect();
    v.sort();
    v
}
/// Counter values stand for identity and are unique within a history.
fn go(c: &mut Ctx, ops: &[O], slots: usize, hold: bool, at: Place, depth: usize, exact: usize, hist: &mut Vec<O>, m: &Vec<M>) {
    if depth == exact {
        let hist = hist.clone();
        c.case(|| format!("{} slots {at:?}, {}: {hist:?}", slots, if hold { "addresses not reused" } else { "addresses reused" }), |r| {
            HOLD.store(hold, SeqCst);
            let mut w = World::new(slots, at);
            let mut m = vec![M::Empty; slots];
            for (i, o) in hist.iter().enumerate() {
                r.step();
                w.run(*o, 100 + i as u64);
                apply(&mut m, *o, 100 + i as u64);
                let (a, b) = listed();
                let want = expected(&m);
                if a != want { return Err(format!("after step {i} {o:?} the registry lists {a:?}, expected {want:?}")) }
                if matches!(o, O::BoxElsewhere(_) | O::RegElsewhere(_) | O::DropElsewhere(_)) { let a = std::thread::spawn(|| listed().0).join().unwrap(); if a != want { return Err(format!("after step {i} {o:?} another thread sees {a:?}, expected {want:?}")) } }
                if b != want { return Err(format!("after step {i} {o:?} iterating lists {b:?}, expected {want:?}")) }
                let mut canon = m.clone();
                for x in &mut canon { match x { M::Boxed(id, _) | M::Pinned(id, _) => *id = 0, _ => {} } }
                r.state(&canon);
            }
            // update through the handle shows in the entry
            let probe = |c: &Counter| { c.increment(); };
            for (s, k) in w.kind.iter().enumerate() { match k { Slot::Boxed(b) => probe(b), Slot::Pinned => probe(unsafe { w.store[s].assume_init_ref() }), Slot::Empty => {} } }
            for x in &mut m { match x { M::Boxed(id, _) | M::Pinned(id, _) => *id += 1, _ => {} } }
            if listed().0 != expected(&m) { return Err(format!("after updating, the registry lists {:?}, expected {:?}", listed().0, expected(&m))) }
            drop(w);
            if !listed().0.is_empty() { return Err(format!("after dropping everything the registry lists {:?}", listed().0)) }
            HOLD.store(false, SeqCst);
            Ok(format!("{m:?}"))
        });
        return;
    }
    for o in ops {
        if !enabled(m, *o) { continue }
        // the first slot used is slot 0: slots are interchangeable
        if m.iter().all(|x| *x == M::Empty) && matches!(o, O::Box(s, _) | O::BoxNew(s) | O::BoxElsewhere(s) | O::Pin(s) | O::PinNew(s) if *s > 0) { continue }
        let mut n = m.clone();
        apply(&mut n, *o, 0);
        hist.push(*o);
        go(c, ops, slots, hold, at, depth + 1, exact, hist, &n);
        hist.pop();
    }
}
pub fn c07(c: &mut Ctx) {
    let mut two = vec![];
    for s in 0..2 { two.extend([O::Box(s, 0), O::Box(s, 1), O::Pin(s), O::Reg(s, 0), O::Reg(s, 1), O::Drop(s)]) }
    two.push(O::Swap(0, 1));
    let mut old = two.clone();
    for s in 0..2 { old.extend([O::BoxNew(s), O::PinNew(s)]) }
    old.push(O::Unused(0));
    let three: Vec<O> = (0..3).flat_map(|s| [O::Box(s, 0), O::Pin(s), O::Reg(s, 1), O::Drop(s)]).chain([O::Swap(0, 1), O::Swap(1, 2)]).collect();
    let t = c.thorough as usize;
    for hold in [false, true] {
        for (ops, slots, d) in [(&old, 2, 5 + t), (&two, 2, 6 + t), (&three, 3, 6 + t)] {
            let lo = if slots == 2 && d == 6 + t { d } else { 1 };
            for exact in lo..=d { go(c, ops, slots, hold, Place::Adjacent, 0, exact, &mut vec![], &vec![M::Empty; slots]) }
        }
    }
    // the ways a metric's owner can come to its end
    let mut ends: Vec<O> = vec![];
    for s in 0..2 { ends.extend([O::Box(s, 0), O::Pin(s), O::Reg(s, 1), O::Drop(s), O::DropUnwinding(s), O::DropElsewhere(s), O::DropAtExit(s), O::BoxElsewhere(s), O::RegElsewhere(s)]) }
    for hold in [false, true] { for exact in 1..=4 + t { go(c, &ends, 2, hold, Place::Adjacent, 0, exact, &mut vec![], &vec![M::Empty; 2]) } }
    // neighbours and addresses that differ in one bit only
    let pins: Vec<O> = (0..2).flat_map(|s| [O::Pin(s), O::Reg(s, 0), O::Reg(s, 1), O::Drop(s)]).collect();
    for b in [6u32, 7, 8, 10, 12, 16, 20, 24, 28, 31, 32, 33, 36] { if place(Place::Apart(b), 2).is_empty() { continue } for exact in 1..=5 + t { go(c, &pins, 2, false, Place::Apart(b), 0, exact, &mut vec![], &vec![M::Empty; 2]) } }
    // many live metrics at once: the registry keeps them apart
    for n in [8usize, 64, 300] { for stride in [1usize, 2, 3] {
        c.case(|| format!("{n} boxed metrics, dropping every {stride}"), |r| {
            let mut v: Vec<Option<DynBoxedMetric<Counter>>> = (0..n).map(|i| Some(MetricBuilder::new(format!("many/{i}")).build(Counter::with_value(i as u64)))).collect();
            for i in (0..n).step_by(stride) {
                v[i] = None;
                r.step();
                let mut want: Vec<Row> = v.iter().enumerate().filter(|x| x.1.is_some()).map(|(i, _)| (format!("many/{i}"), None, i as u64)).collect();
                want.sort();
                if listed().0 != want { return Err(format!("after dropping {i} the registry does not list exactly the rest")) }
            }
            drop(v);
            if listed().0.is_empty() { Ok(format!("{n}")) } else { Err("left over entries".into()) }
        });
        c.case(|| format!("{n} pinned metrics side by side, dropping every {stride}"), |r| {
            let (mut v, e): (Vec<Option<P>>, Vec<MetricEntry>) = (0..n).map(|i| { let (p, e) = MetricBuilder::new(format!("many/{i}")).build_pinned(Counter::with_value(i as u64)); (Some(p), e) }).unzip();
            for (p, e) in v.iter().zip(e) { unsafe { Pin::new_unchecked(p.as_ref().unwrap()) }.register(e) }
            for i in (0..n).step_by(stride) {
                let mut want: Vec<Row> = v.iter().enumerate().filter(|x| x.1.is_some()).map(|(i, _)| (format!("many/{i}"), None, i as u64)).collect();
                want.sort();
                if listed().0 != want { return Err(format!("before dropping {i} the registry does not list exactly the rest")) }
                v[i] = None;
                r.step();
            }
            drop(v);
            if listed().0.is_empty() { Ok(format!("{n}")) } else { Err("left over entries".into()) }
        });
    } }
    kinds(c)
}
/// Metrics of every type: the registry goes by what is registered, not by what it is.
fn kinds(c: &mut Ctx) {
    use metriken::{AtomicHistogram, Gauge, Lazy, Metric, RwLockHistogram};
    use std::any::Any;
    struct Unit;
    impl Metric for Unit { fn as_any(&self) -> Option<&dyn Any> { Some(self) } fn value(&self) -> Option<Value> { Some(Value::Counter(1)) } }
    struct Hidden(#[allow(dead_code)] u64);
    impl Metric for Hidden { fn as_any(&self) -> Option<&dyn Any> { None } fn value(&self) -> Option<Value> { None } fn is_enabled(&self) -> bool { false } }
    #[repr(align(256))] struct Wide([u8; 300]);
    impl Metric for Wide { fn as_any(&self) -> Option<&dyn Any> { Some(&self.0) } fn value(&self) -> Option<Value> { Some(Value::Gauge(1)) } }
    static SHARED: u8 = 0;
    struct Proxy;
    impl Metric for Proxy { fn as_any(&self) -> Option<&dyn Any> { Some(&SHARED) } fn value(&self) -> Option<Value> { Some(Value::Other(&SHARED)) } }
    type L = Lazy<Counter>;
    const K: usize = 9;
    const N: [&str; K] = ["counter", "gauge", "event histogram", "bulk histogram", "lazy", "unit", "hidden", "wide", "proxy"];
    // a handle of any type, and a change of its state
    struct Any1 { poke: Box<dyn Fn()>, _own: Box<dyn Any> }
    fn make(k: usize, name: String, pinned: bool) -> Any1 {
        fn put<M: Metric>(m: M, name: String, pinned: bool, poke: fn(&M)) -> Any1 {
            use std::rc::Rc;
            if pinned {
                let (p, e) = MetricBuilder::new(name).build_pinned(m);
                let p = Rc::pin(p);
                p.as_ref().register(e);
                let q = p.clone();
                Any1 { poke: Box::new(move || poke(&q)), _own: Box::new(p) }
            } else {
                let b = Rc::new(MetricBuilder::new(name).build(m));
                let q = b.clone();
                Any1 { poke: Box::new(move || poke(&q)), _own: Box::new(b) }
            }
        }
        match k {
            0 => put(Counter::new(), name, pinned, |m| { m.increment(); }),
            1 => put(Gauge::new(), name, pinned, |m| { m.increment(); }),
            2 => put(AtomicHistogram::new(0, 2), name, pinned, |m| m.increment(1).unwrap()),
            3 => put(RwLockHistogram::new(0, 2), name, pinned, |m| m.update_from(&[1, 2, 3]).unwrap()),
            4 => put(L::new(Counter::new), name, pinned, |m| { m.increment(); }),
            5 => put(Unit, name, pinned, |_| ()),
            6 => put(Hidden(1), name, pinned, |_| ()),
            7 => put(Wide([0; 300]), name, pinned, |_| ()),
            _ => put(Proxy, name, pinned, |_| ()),
        }
    }
    let names = || { let v = metrics(); let mut n: Vec<String> = v.dynamic_metrics().map(|e| e.name().to_string()).collect(); n.sort(); n };
    #[derive(Clone, Copy, Debug, PartialEq)] enum S { Make(usize), Poke(usize), Drop(usize) }
    let steps: Vec<S> = (0..2).flat_map(|i| [S::Make(i), S::Poke(i), S::Drop(i)]).collect();
    for a in 0..K { for b in 0..K { for pin in 0..4usize { seqs_of(&steps, 2, if c.thorough { 6 } else { 5 }, |s| {
        // valid ones only, with both metrics made
        let mut live = [false; 2];
        for o in s { match *o { S::Make(i) => { if live[i] { return } live[i] = true } S::Poke(i) => if !live[i] { return }, S::Drop(i) => { if !live[i] { return } live[i] = false } } }
        if !s.contains(&S::Make(0)) || s[0] != S::Make(0) { return }
        c.case(|| format!("{} and {} ({pin:02b} pinned): {s:?}", N[a], N[b]), |r| {
            let mut v: [Option<Any1>; 2] = [None, None];
            for (k, o) in s.iter().enumerate() {
                r.step();
                match *o { S::Make(i) => v[i] = Some(make([a, b][i], format!("n{i}"), pin >> i & 1 == 1)), S::Poke(i) => (v[i].as_ref().unwrap().poke)(), S::Drop(i) => v[i] = None }
                let want: Vec<String> = (0..2).filter(|i| v[*i].is_some()).map(|i| format!("n{i}")).collect();
                if names() != want { return Err(format!("after step {k} {o:?} the registry lists {:?}, expected {want:?}", names())) }
            }
            v = [None, None];
            drop(v);
            if names().is_empty() { Ok(format!("{a} {b} {pin} {}", s.len())) } else { Err(format!("left over entries {:?}", names())) }
        })
    }) } } }
}
/// Metrics, and values attached to metrics, that use the registry themselves when
/// they are dropped or read.
pub fn reentrant(c: &mut Ctx) {
    use metriken::Metric;
    use std::any::Any;
    use std::sync::Mutex;
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Act { List, Make, Leave, Panic }
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum At { Boxed, Pinned, Unregistered, Attached, AttachedPinned, Replaced, Unbuilt }
    static SEEN: Mutex<Vec<Vec<String>>> = Mutex::new(vec![]);
    static LEFT: Mutex<Vec<DynBoxedMetric<Counter>>> = Mutex::new(vec![]);
    fn names() -> Vec<String> { let v = metrics(); let mut n: Vec<String> = v.dynamic_metrics().map(|e| e.name().to_string()).collect(); n.sort(); n }
    fn clear() { SEEN.lock().unwrap().clear(); let l = std::mem::take(&mut *LEFT.lock().unwrap()); drop(l) }
    struct Agent(Act, #[allow(dead_code)] Vec<DynBoxedMetric<Counter>>);
    impl Drop for Agent {
        fn drop(&mut self) {
            SEEN.lock().unwrap().push(names());
            match self.0 {
                Act::List => {}
                Act::Make => { let t = MetricBuilder::new("tmp").build(Counter::new()); SEEN.lock().unwrap().push(names()); drop(t); SEEN.lock().unwrap().push(names()) }
                Act::Leave => LEFT.lock().unwrap().push(MetricBuilder::new("left").build(Counter::new())),
                Act::Panic => if !std::thread::panicking() { panic!("dropped") },
            }
        }
    }
    impl Metric for Agent {
        fn as_any(&self) -> Option<&dyn Any> { Some(self) }
        fn is_enabled(&self) -> bool { !names().is_empty() }
        fn value(&self) -> Option<Value> { Some(Value::Counter(names().len() as u64)) }
        fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) { let n = names().len() as u64; r.provide_value(n); }
    }
    let with = |a: &[&str], b: &[&str]| { let mut v: Vec<String> = a.iter().chain(b).map(|s| s.to_string()).collect(); v.sort(); v };
    for act in [Act::List, Act::Make, Act::Leave, Act::Panic] { for at in [At::Boxed, At::Pinned, At::Unregistered, At::Attached, At::AttachedPinned, At::Replaced, At::Unbuilt] {
    for near in 0..4usize { for own in 0..3usize { for hold in [false, true] { for elsewhere in [false, true] {
        c.case(|| format!("{act:?} when dropped, {at:?}, owning {own}, neighbours {near:02b}, addresses {}reused, {}", if hold { "not " } else { "" }, if elsewhere { "dropped by another thread" } else { "dropped here" }), |r| {
            clear();
            HOLD.store(hold, SeqCst);
            let _a = if near & 1 != 0 { Some(MetricBuilder::new("before").build(Counter::new())) } else { None };
            let agent = Agent(act, (0..own).map(|i| MetricBuilder::new(["own0", "own1"][i]).build(Counter::new())).collect());
            let b = MetricBuilder::new("it");
            type H = Box<dyn FnOnce() + Send>;
            let mut early = None;
            let h: H = match at {
                At::Boxed => { let m = b.build(agent); Box::new(move || drop(m)) }
                At::Pinned => { let (m, e) = b.build_pinned(agent); let m = Box::pin(m); m.as_ref().register(e); Box::new(move || drop(m)) }
                At::Unregistered => { let (m, e) = b.build_pinned(agent); drop(e); Box::new(move || drop(m)) }
                At::Attached => { let m = b.provide(agent).build(Counter::new()); Box::new(move || drop(m)) }
                At::AttachedPinned => { let (m, e) = b.provide(agent).build_pinned(Counter::new()); let m = Box::pin(m); m.as_ref().register(e); Box::new(move || drop(m)) }
                At::Replaced => { early = Some(()); let b = b.provide(agent); Box::new(move || drop(b.provide(Agent(Act::List, vec![])).build(Counter::new()))) }
                At::Unbuilt => { let b = b.provide(agent); Box::new(move || drop(b)) }
            };
            let _b = if near & 2 != 0 { Some(MetricBuilder::new("after").build(Counter::new())) } else { None };
            let mut others: Vec<&str> = vec![];
            if near & 1 != 0 { others.push("before") }
            if near & 2 != 0 { others.push("after") }
            let owned = &["own0", "own1"][..own];
            let it: &[&str] = if matches!(at, At::Boxed | At::Pinned | At::Attached | At::AttachedPinned) { &["it"] } else { &[] };
            let all = with(&with(&others, owned).iter().map(|s| s.as_str()).collect::<Vec<_>>(), it);
            r.step();
            if names() != all { return Err(format!("the registry lists {:?}, expected {all:?}", names())) }
            if !it.is_empty() && matches!(at, At::Boxed | At::Pinned) {
                // reading it takes a view while one is held
                let v = metrics();
                let e = v.dynamic_metrics().find(|e| e.name() == "it").unwrap();
                let n = all.len() as u64;
                if !e.is_enabled() || !matches!(e.value(), Some(Value::Counter(x)) if x == n) || e.request_value::<u64>() != Some(n) { return Err("an entry does not report what its metric reports".into()) }
            }
            r.step();
            let go = move || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(h)); };
            if elsewhere { std::thread::spawn(go).join().map_err(|_| "the thread panicked".to_string())? } else { go() }
            let mut during = vec![with(&others, owned)];
            if act == Act::Make { during.push(with(&others, &[owned, &["tmp"]].concat())); during.push(with(&others, owned)) }
            let seen = std::mem::take(&mut *SEEN.lock().unwrap());
            // what replaces the first value is dropped later, beside what was left
            if early.is_none() && seen != during || early.is_some() && seen[..during.len()] != during[..] { return Err(format!("while it is dropped the registry lists {seen:?}, expected {during:?}")) }
            let left = with(&others, if act == Act::Leave { &["left"] } else { &[] });
            if names() != left { return Err(format!("afterwards the registry lists {:?}, expected {left:?}", names())) }
            clear();
            let left = with(&others, &[]);
            if names() != left { return Err(format!("at the end the registry lists {:?}, expected {left:?}", names())) }
            HOLD.store(false, SeqCst);
            Ok(format!("{act:?} {at:?} {near} {own}"))
        })
    } } } } } }
}
