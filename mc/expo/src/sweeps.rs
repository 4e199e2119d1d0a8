//! Sweeps over magnitudes, lengths and sizes that the enumerations keep small.
use crate::convert::{convert, Cfg, Dir, Entry};
use crate::ctx::*;
use crate::model::*;
use crate::table::*;
#[path = "../../common/sweep.rs"]
pub mod sweep;
use metriken::*;
use metriken_exposition::{Snapshot, SnapshotterBuilder};
use sweep::*;

/// Every reading of a snapshot whose name is not that of a static metric of this program.
fn readings(s: &Snapshot) -> Snap { let mut s = Snap::of(s); let st = |n: &str| n.starts_with("st/") || n.starts_with("A<st/") || n == "UNNAMED"; s.c.retain(|x| !st(&x.name)); s.g.retain(|x| !st(&x.name)); s.h.retain(|x| !st(&x.name)); s.c.sort(); s.g.sort(); s.h.sort(); s }
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}").chars().take(2000).collect()) } }

pub fn c14(c: &mut Ctx) {
    let take = || readings(&SnapshotterBuilder::new().build().snapshot());
    let none = Map::new();
    for v in u64s() { c.case(|| format!("counter at {v}"), |_| { let _h = MetricBuilder::new("d").build(Counter::with_value(v)); let s = take(); same("counters", &s.c, &vec![r("d", v, &none)])?; same("others", &(s.g.len(), s.h.len()), &(0, 0))?; Ok("ok".into()) }) }
    for v in i64s() { c.case(|| format!("gauge at {v}"), |_| { let _h = MetricBuilder::new("d").build(Gauge::with_value(v)); let s = take(); same("gauges", &s.g, &vec![r("d", v, &none)])?; same("others", &(s.c.len(), s.h.len()), &(0, 0))?; Ok("ok".into()) }) }
    // every histogram configuration, unused and with one recording or update
    for g in 0..=8u8 { for n in g + 1..=64 { for bulk in [false, true] { c.case(|| format!("{} histogram ({g},{n})", if bulk { "bulk" } else { "event" }), |_| {
        let mut want = Hist::new(g, n, 0);
        let m = map(&[("grouping_power", &g.to_string()), ("max_value_power", &n.to_string()), ("unit", "x")]);
        if bulk {
            let h = MetricBuilder::new("d").metadata("unit", "x").build(RwLockHistogram::new(g, n));
            same("readings of an unused one", &take().h.len(), &0)?;
            for p in [1u8, 0, 2, 3] { want = Hist::new(g, n, p); h.update_from(&want.b).map_err(|e| e.to_string())?; same("histograms", &take().h, &vec![r("d", want.clone(), &m)])?; }
        } else {
            let h = MetricBuilder::new("d").metadata("unit", "x").build(AtomicHistogram::new(g, n));
            same("readings of an unused one", &take().h.len(), &0)?;
            for (v, i) in [(1u64, 1usize), (0, 0), (if n == 64 { u64::MAX } else { (1 << n) - 1 }, want.b.len() - 1)] { h.increment(v).map_err(|e| e.to_string())?; want.b[i] += 1; same("histograms", &take().h, &vec![r("d", want.clone(), &m)])?; }
        }
        Ok("ok".into())
    }) } } }
    for s in strings() { for kind in 0..3 { for place in 0..4 { c.case(|| format!("kind {kind}, {} {s:?}", ["name", "description", "metadata key", "metadata value"][place]), |_| {
        let (mut name, mut m) = ("d".to_string(), Map::new());
        if kind == 2 { m.insert("grouping_power".into(), "0".into()); m.insert("max_value_power".into(), "2".into()); }
        let b = MetricBuilder::new(if place == 0 { name = s.clone(); s.clone() } else { name.clone() });
        let b = match place { 1 => { m.insert("description".into(), s.clone()); b.description(s.clone()) } 2 => { if kind != 2 || (s != "grouping_power" && s != "max_value_power") { m.insert(s.clone(), "v".into()); } b.metadata(s.clone(), "v") } 3 => { m.insert("k".into(), s.clone()); b.metadata("k", s.clone()) } _ => b };
        if place == 0 && (s.starts_with("st/") || s == "UNNAMED") { return Ok("skipped".into()) }
        match kind {
            0 => { let _h = b.build(Counter::with_value(1)); same("counters", &take().c, &vec![r(&name, 1, &m)])? }
            1 => { let _h = b.build(Gauge::with_value(-1)); same("gauges", &take().g, &vec![r(&name, -1, &m)])? }
            _ => { let h = b.build(RwLockHistogram::new(0, 2)); h.update_from(&[1, 2, 3]).unwrap(); same("histograms", &take().h, &vec![r(&name, Hist { g: 0, n: 2, b: vec![1, 2, 3] }, &m)])? }
        }
        Ok("ok".into())
    }) } } }
    // names of metrics with labels are not affected by them
    for s in strings() { c.case(|| format!("snapshotter metadata {s:?}"), |_| { let x = Snap::of(&SnapshotterBuilder::new().metadata(s.clone(), "v".into()).metadata("k".into(), s.clone()).build().snapshot()); let mut w = Map::new(); w.insert(s.clone(), "v".into()); w.insert("k".into(), s.clone()); same("metadata", &x.meta, &w)?; Ok("ok".into()) }) }
    for n in counts(300) {
        c.case(|| format!("{n} metadata entries and a description"), |_| {
            let mut m = Map::new();
            let mut b = MetricBuilder::new("d").description("e");
            for i in 0..n { b = b.metadata(format!("k{i}"), format!("v{i}")); m.insert(format!("k{i}"), format!("v{i}")); }
            m.insert("description".into(), "e".into());
            let _h = b.build(Gauge::with_value(3));
            same("gauges", &take().g, &vec![r("d", 3, &m)])?;
            Ok("ok".into())
        });
        c.case(|| format!("snapshotter with {n} metadata entries"), |_| {
            let mut b = SnapshotterBuilder::new();
            for i in 0..n { b = b.metadata(format!("k{i}"), format!("v{i}")) }
            let s = b.build();
            let w: Map = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
            for _ in 0..2 { same("metadata", &Snap::of(&s.snapshot()).meta, &w)? }
            Ok("ok".into())
        });
        for kind in 0..3 { c.case(|| format!("{n} metrics of kind {kind}"), |_| {
            let (mut cs, mut gs, mut hs) = (vec![], vec![], vec![]);
            for i in 0..n { let b = MetricBuilder::new(format!("m{i:04}")); match kind { 0 => cs.push(b.build(Counter::with_value(i as u64))), 1 => gs.push(b.build(Gauge::with_value(-(i as i64)))), _ => { let h = b.build(AtomicHistogram::new(0, 1)); h.increment(i as u64 % 2).unwrap(); hs.push(h) } } }
            for _ in 0..2 {
                let s = take();
                let name = |i: usize| format!("m{i:04}");
                same("counters", &s.c, &(0..cs.len()).map(|i| r(&name(i), i as u64, &none)).collect())?;
                same("gauges", &s.g, &(0..gs.len()).map(|i| r(&name(i), -(i as i64), &none)).collect())?;
                same("histograms", &s.h, &(0..hs.len()).map(|i| r(&name(i), Hist { g: 0, n: 1, b: vec![(i % 2 == 0) as u64, (i % 2) as u64] }, &map(&[("grouping_power", "0"), ("max_value_power", "1")]))).collect())?;
            }
            Ok("ok".into())
        }) }
    }
    // very many metrics
    let top = if c.thorough { 300_000usize } else { 70_000 };
    for kind in 0..3 { c.case(|| format!("{top} metrics of kind {kind}"), |_| {
        let (mut cs, mut gs, mut hs) = (vec![], vec![], vec![]);
        for i in 0..top { let b = MetricBuilder::new(format!("m{i}")); match kind { 0 => cs.push(b.build(Counter::with_value(i as u64))), 1 => gs.push(b.build(Gauge::with_value(-(i as i64)))), _ => { let h = b.build(AtomicHistogram::new(0, 1)); h.increment(i as u64 % 2).unwrap(); hs.push(h) } } }
        let s = take();
        let mut seen = vec![0u8; top];
        let mut see = |name: &str, ok: &dyn Fn(usize) -> bool| -> Result<(), String> { match name.strip_prefix('m').and_then(|x| x.parse::<usize>().ok()) { Some(i) if i < top && ok(i) => { seen[i] += 1; Ok(()) } _ => Err(format!("unexpected or wrong reading of {name}")) } };
        for x in &s.c { see(&x.name, &|i| kind == 0 && x.value == i as u64 && x.meta.is_empty())? }
        for x in &s.g { see(&x.name, &|i| kind == 1 && x.value == -(i as i64) && x.meta.is_empty())? }
        for x in &s.h { see(&x.name, &|i| kind == 2 && x.value.b == [(i % 2 == 0) as u64, (i % 2) as u64] && x.meta.len() == 2)? }
        match seen.iter().position(|n| *n != 1) { None => Ok("ok".into()), Some(i) => Err(format!("{} readings of metric {i} of {top}", seen[i])) }
    }) }
    // metadata with keys that are nearly the same
    for x in ["k", "description", "grouping_power", "max_value_power", "metric", "unit"] { for y in near(x) { for kind in 0..3 { c.case(|| format!("kind {kind}, metadata {x:?} beside {y:?}"), |_| {
        let mut m = map(&[(&y, "2")]);
        let b = MetricBuilder::new("d").metadata(y.clone(), "2").metadata(x, "1").description("text");
        m.insert("description".into(), "text".into());
        if x != "description" && (kind != 2 || !x.ends_with("_power")) { m.insert(x.into(), "1".into()); }
        if kind == 2 { m.insert("grouping_power".into(), "0".into()); m.insert("max_value_power".into(), "2".into()); }
        match kind {
            0 => { let _h = b.build(Counter::with_value(1)); same("counters", &take().c, &vec![r("d", 1, &m)])? }
            1 => { let _h = b.build(Gauge::with_value(-1)); same("gauges", &take().g, &vec![r("d", -1, &m)])? }
            _ => { let h = b.build(RwLockHistogram::new(0, 2)); h.update_from(&[1, 2, 3]).unwrap(); same("histograms", &take().h, &vec![r("d", Hist { g: 0, n: 2, b: vec![1, 2, 3] }, &m)])? }
        }
        Ok("ok".into())
    }) } } }
    // many snapshots by one snapshotter
    c.case(|| "2000 snapshots by one snapshotter".into(), |rec| {
        let h = MetricBuilder::new("d").build(Counter::new());
        let s = SnapshotterBuilder::new().metadata("a".into(), "b".into()).build();
        for i in 0..2000u64 { rec.step(); let x = readings(&s.snapshot()); same("counters", &x.c, &vec![r("d", i, &none)])?; same("metadata", &x.meta, &map(&[("a", "b")]))?; h.increment(); }
        Ok("ok".into())
    });
}
pub fn c16(c: &mut Ctx, check: fn(&mut Rec, &[Snap]) -> Result<String, String>) {
    let one = |c: &mut Ctx, w: String, s: Snap| c.case(|| w, |r| check(r, std::slice::from_ref(&s)));
    let none = Map::new();
    for v2 in [None, Some(3u64)] {
        for v in u64s() {
            let mut s = Snap::new(v, v2.map(|_| v)); s.c.push(r("c", v, &none)); s.h.push(r("h", Hist { g: 0, n: 2, b: vec![v, 0, v] }, &none));
            one(c, format!("v2={} unsigned {v}", v2.is_some()), s);
        }
        for v in i64s() { let mut s = Snap::new(7, v2); s.g.push(r("g", v, &none)); one(c, format!("v2={} signed {v}", v2.is_some()), s) }
        for x in strings() {
            let m = Map::from([(x.clone(), "v".to_string()), ("k".to_string(), x.clone())]);
            let mut s = Snap::new(7, v2); s.meta = m.clone(); s.c.push(r(&x, 1, &m)); s.g.push(r(&x, -1, &m)); s.h.push(r(&x, Hist::new(0, 2, 1), &m));
            one(c, format!("v2={} string {x:?}", v2.is_some()), s);
        }
        for g in 0..=7u8 { for n in g + 1..=64 { for p in [0u8, 1, 3] { if p > 0 && n % 8 != 0 && n > g + 2 { continue } let mut s = Snap::new(7, v2); s.h.push(r("h", Hist::new(g, n, p), &none)); one(c, format!("v2={} histogram ({g},{n}) pattern {p}", v2.is_some()), s) } } }
        for n in counts(1100) {
            let mut s = Snap::new(7, v2);
            for i in 0..n { s.c.push(r(&format!("c{}", i % 7), i as u64, &none)); s.g.push(r("same", -(i as i64), &none)); if n <= 300 { s.h.push(r("same", Hist { g: 0, n: 1, b: vec![i as u64, 1] }, &none)) } }
            one(c, format!("v2={} {n} readings of each kind", v2.is_some()), s);
            let m: Map = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
            let mut s = Snap::new(7, v2); s.meta = m.clone(); s.g.push(r("g", 0, &m));
            one(c, format!("v2={} {n} metadata entries", v2.is_some()), s);
        }
    }
    for v2 in [None, Some(3u64)] { for what in 0..4usize {
        let n = if c.thorough { 200_000usize } else { 70_000 };
        let mut s = Snap::new(7, v2);
        match what { 0 => s.c = (0..n).map(|i| r("c", i as u64, &none)).collect(), 1 => s.g = (0..n).map(|i| r("g", -(i as i64), &none)).collect(), 2 => s.h = (0..n).map(|i| r("h", Hist { g: 0, n: 1, b: vec![i as u64, 1] }, &none)).collect(), _ => { s.meta = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect(); s.c.push(r("c", 1, &s.meta.clone())) } }
        one(c, format!("v2={} {n} {}", v2.is_some(), ["counters", "gauges", "histograms", "metadata entries"][what]), s);
    } }
    for x in ["k", "description", "a_b", "id"] { for y in near(x) { for v2 in [None, Some(3u64)] {
        let m = Map::from([(x.to_string(), "1".to_string()), (y.clone(), "2".to_string())]);
        let mut s = Snap::new(7, v2); s.meta = m.clone(); s.c.push(r(x, 1, &m)); s.c.push(r(&y, 2, &none)); s.g.push(r(&y, -1, &m)); s.g.push(r(x, -1, &m)); s.h.push(r(x, Hist::new(0, 2, 1), &m)); s.h.push(r(&y, Hist::new(0, 2, 2), &m));
        one(c, format!("v2={} {x:?} beside {y:?}", v2.is_some()), s);
    } } }
    for n in counts(300).into_iter().chain([5_000, 70_000]) { c.case(|| format!("stream of {n} snapshots"), |rec| check(rec, &(0..n).map(|i| { let mut s = Snap::new(i as u64, if i % 3 == 0 { None } else { Some(i as u64) }); if i % 2 == 0 { s.c.push(r("c", i as u64, &none)) } else { s.g.push(r("g", -(i as i64), &none)) } s }).collect::<Vec<_>>())) }
}
fn table(rec: &mut Rec, s: &[Snap], cfg: Cfg, dir: &Dir) -> Result<String, String> {
    rec.steps(s.len());
    let t = convert(s, cfg, &Map::new(), dir)?;
    let want = expected(s, cfg.sparse);
    diff("columns", &data(&t.cols), &data(&want)).map_err(|e| e.chars().take(2000).collect::<String>())?;
    Ok(format!("{} rows {} columns", t.rows, t.cols.len()))
}
const PLAIN: Cfg = Cfg { sparse: false, zstd: 0, batch: 0, entry: Entry::Direct };
/// A name that does not collide with another column of the output.
fn column(s: &str) -> bool { s != "timestamp" && s != "duration" }
pub fn c17(c: &mut Ctx) {
    let dir = Dir::new();
    let none = Map::new();
    for (k, vs) in u64s().chunks(8).enumerate() { for sparse in [false, true] { for entry in [Entry::Direct, Entry::Handle] { c.case(|| format!("unsigned values {vs:?}, sparse={sparse}, {entry:?}"), |rec| {
        let s: Vec<Snap> = vs.iter().map(|v| { let mut s = Snap::new(*v, if k % 2 == 0 { Some(*v) } else { None }); s.c.push(r("c", *v, &none)); s.h.push(r("h", Hist { g: 0, n: 2, b: vec![*v, 1, *v] }, &none)); s }).collect();
        table(rec, &s, Cfg { sparse, entry, ..PLAIN }, &dir)
    }) } } }
    for vs in i64s().chunks(16) { c.case(|| format!("signed values {vs:?}"), |rec| { let s: Vec<Snap> = vs.iter().map(|v| { let mut s = Snap::new(1, None); s.g.push(r("g", *v, &none)); s }).collect(); table(rec, &s, PLAIN, &dir) }) }
    for g in 0..=7u8 { for n in g + 1..=64 { for sparse in [false, true] { if n % 4 != 0 && n > g + 3 { continue } c.case(|| format!("histogram ({g},{n}), sparse={sparse}"), |rec| {
        let s: Vec<Snap> = (0..4u8).map(|p| { let mut s = Snap::new(p as u64, None); s.h.push(r("h", Hist::new(g, n, p), &none)); s }).collect();
        table(rec, &s, Cfg { sparse, entry: if n % 2 == 0 { Entry::Handle } else { Entry::Direct }, ..PLAIN }, &dir)
    }) } } }
    // histograms with every single bucket in use, and every prefix and suffix
    for i in 0..12usize { for len in 1..=12 - i { for sparse in [false, true] { c.case(|| format!("buckets {i}..{} in use, sparse={sparse}", i + len), |rec| {
        let h = Hist { g: 2, n: 4, b: (0..12).map(|k| if k >= i && k < i + len { k as u64 + 1 } else { 0 }).collect() };
        let s: Vec<Snap> = [h.clone(), Hist::new(2, 4, 0), h].into_iter().map(|h| { let mut s = Snap::new(1, None); s.h.push(r("h", h, &none)); s }).collect();
        table(rec, &s, Cfg { sparse, ..PLAIN }, &dir)
    }) } } }
    // metrics of different kinds, and the columns of the snapshot itself, that share a name
    const SHARED: [&str; 9] = ["x", "timestamp", "duration", "x:buckets", "x:bucket_indices", "x:bucket_counts", "X", "x ", ""];
    for a in SHARED { for b in SHARED { for d in SHARED { for sparse in [false, true] { c.case(|| format!("counter {a:?}, gauge {b:?}, histogram {d:?}, sparse={sparse}"), |rec| {
        let s: Vec<Snap> = (0..4u64).map(|i| { let mut s = Snap::new(i + 50, Some(i + 60)); if i != 1 { s.c.push(r(a, i, &none)); } if i != 2 { s.g.push(r(b, -(i as i64), &none)); } if i != 3 { s.h.push(r(d, Hist { g: 0, n: 1, b: vec![i, 1] }, &none)) } s }).collect();
        table(rec, &s, Cfg { sparse, entry: if a.len() % 2 == 0 { Entry::Direct } else { Entry::Handle }, ..PLAIN }, &dir)
    }) } } } }
    for x in strings() { for (kind, sparse) in [(0, false), (1, false), (2, false), (2, true)] { c.case(|| format!("kind {kind} named {x:?}, sparse={sparse}"), |rec| {
        let s: Vec<Snap> = (0..3u64).map(|i| { let mut s = Snap::new(i, None); if i != 1 { match kind { 0 => s.c.push(r(&x, i, &none)), 1 => s.g.push(r(&x, i as i64, &none)), _ => s.h.push(r(&x, Hist { g: 0, n: 1, b: vec![i, 1] }, &none)) } } match kind { 0 => s.c.push(r(&format!("{x}z"), i + 7, &none)), 1 => s.g.push(r(&format!("{x}z"), i as i64 + 7, &none)), _ => s.h.push(r(&format!("{x}z"), Hist { g: 0, n: 1, b: vec![i + 7, 1] }, &none)) } s }).collect();
        table(rec, &s, Cfg { sparse, entry: if x.len() % 2 == 0 { Entry::Direct } else { Entry::Handle }, ..PLAIN }, &dir)
    }) } }
    // numbers of rows around powers of two and around the default batch size; the metric comes and goes
    let mut rows: Vec<usize> = counts(1100);
    rows.extend([2048, 4096, 8191, 8192, 8193, 49_999, 50_000, 50_001, 65_536, 100_001]);
    for n in rows { for (sparse, batch, entry) in [(false, 0usize, Entry::Handle), (true, 0, Entry::Direct), (false, 16, Entry::Direct), (true, 10, Entry::Handle), (false, 1000, Entry::Handle)] {
        if n > 9000 && (batch != 0 || (sparse && !c.thorough)) { continue }
        if n > 1100 && batch == 10 { continue }
        c.case(|| format!("{n} rows, batch size {batch}, sparse={sparse}, {entry:?}"), |rec| {
            let s: Vec<Snap> = (0..n as u64).map(|i| { let mut s = Snap::new(i, if i % 5 == 1 { None } else { Some(i * 3) }); if i % 3 != 0 { s.c.push(r("c", i, &none)) } if i % 1024 != 5 { s.g.push(r("g", -(i as i64), &none)) } if i % 7 == 0 { s.h.push(r("h", Hist { g: 0, n: 1, b: vec![i, 0] }, &none)) } s }).collect();
            table(rec, &s, Cfg { sparse, batch, entry, zstd: if n > 40_000 { -1 } else { 0 } }, &dir)
        })
    } }
    // first and last occurrence of a metric at every position
    for n in 1..=9usize { for a in 0..n { for b in a..n { for batch in [0usize, 3] { for kind in 0..3 { c.case(|| format!("kind {kind} present in rows {a}..={b} of {n}, batch {batch}"), |rec| {
        let s: Vec<Snap> = (0..n).map(|i| { let mut s = Snap::new(i as u64, None); if i >= a && i <= b { match kind { 0 => s.c.push(r("x", i as u64, &none)), 1 => s.g.push(r("x", i as i64, &none)), _ => s.h.push(r("x", Hist { g: 0, n: 1, b: vec![i as u64, 2] }, &none)) } } s.c.push(r("always", i as u64, &none)); s }).collect();
        table(rec, &s, Cfg { sparse: n % 2 == 0, batch, ..PLAIN }, &dir)
    }) } } } } }
    // snapshots of every size: many metrics in one
    for n in counts(1100) { c.case(|| format!("{n} metrics of each kind"), |rec| {
        let s: Vec<Snap> = (0..2u64).map(|k| { let mut s = Snap::new(k, Some(1)); for i in 0..n { let i = if k == 0 { i } else { n - 1 - i }; s.c.push(r(&format!("c{i}"), i as u64 + k, &none)); s.g.push(r(&format!("g{i}"), i as i64 - 5, &none)); if n <= 130 { s.h.push(r(&format!("h{i}"), Hist { g: 0, n: 1, b: vec![i as u64, k] }, &none)) } } s }).collect();
        table(rec, &s, Cfg { entry: if n % 2 == 0 { Entry::Direct } else { Entry::Handle }, sparse: n % 3 == 0, ..PLAIN }, &dir)
    }) }
    // very many metrics, all from the start or more with every snapshot
    let top = if c.thorough { 20_000usize } else { 6_000 };
    for (kind, n) in [(0, top), (1, top), (2, top / 3)] { for grow in [false, true] { c.case(|| format!("{n} metrics of kind {kind}, growing={grow}"), |rec| {
        let k = 4usize;
        let s: Vec<Snap> = (0..k).map(|t| { let mut s = Snap::new(t as u64, None); for i in 0..n { if grow && i * k / n > t { continue } match kind { 0 => s.c.push(r(&format!("c{i}"), (i + t) as u64, &none)), 1 => s.g.push(r(&format!("g{i}"), -((i + t) as i64), &none)), _ => s.h.push(r(&format!("h{i}"), Hist { g: 0, n: 1, b: vec![i as u64, t as u64] }, &none)) } } s }).collect();
        table(rec, &s, Cfg { entry: if grow { Entry::Direct } else { Entry::Handle }, sparse: grow, ..PLAIN }, &dir)
    }) } }
}
/// Positions in a stream at which something could change: powers of two and constants of the sources.
fn marks(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (5..17).map(|k| 1usize << k).chain([100, 500, 1000, 5000, 10_000, 20_000, 50_000]).collect();
    v.extend(dict().ints.iter().filter(|n| **n > 12).map(|n| *n as usize));
    v.retain(|n| *n <= max);
    v.sort(); v.dedup();
    v
}
pub fn c17_long(c: &mut Ctx) {
    let dir = Dir::new();
    let none = Map::new();
    // metrics that occur in one snapshot only, around every mark
    for m in marks(if c.thorough { 140_000 } else { 70_000 }) { for entry in [Entry::Direct, Entry::Handle] { c.case(|| format!("metrics of their own in rows around {m}, {entry:?}"), |rec| {
        let s: Vec<Snap> = (0..m + 5).map(|i| { let mut s = Snap::new(i as u64, None); if i + 3 >= m { s.c.push(r(&format!("c{i}"), i as u64, &none)); s.g.push(r(&format!("g{i}"), -(i as i64), &none)); s.h.push(r(&format!("h{i}"), Hist { g: 0, n: 1, b: vec![i as u64, 1] }, &none)) } else if i % 2 == 0 { s.c.push(r("c", i as u64, &none)) } s }).collect();
        table(rec, &s, Cfg { entry, sparse: m % 2 == 1, zstd: -1, batch: 0 }, &dir)
    }) } }
    // one row group with very many rows
    for n in [65_535usize, 65_536, 65_537, if c.thorough { 300_000 } else { 70_001 }] { for entry in [Entry::Direct, Entry::Handle, Entry::Path] { c.case(|| format!("{n} rows in one group, {entry:?}"), |rec| {
        let s: Vec<Snap> = (0..n as u64).map(|i| { let mut s = Snap::new(i, None); if i % 2 == 0 { s.c.push(r("c", i, &none)) } s }).collect();
        table(rec, &s, Cfg { entry, batch: 1 << 20, sparse: false, zstd: -1 }, &dir)
    }) } }
    // large snapshots and long inputs
    for (n, big) in [(1usize, 3_000_000usize), (2, 9_000_000), (5, 4_200_000)] { for entry in [Entry::Handle, Entry::Path] { c.case(|| format!("{n} snapshots of {big} bytes, {entry:?}"), |rec| {
        let s: Vec<Snap> = (0..n as u64).map(|i| { let mut s = Snap::new(i, Some(i)); s.c.push(r("c", i, &Map::from([("k".to_string(), "x".repeat(big))]))); s.g.push(r("g", 4, &none)); s }).collect();
        table(rec, &s, Cfg { entry, ..PLAIN }, &dir)
    }) } }
    c.case(|| "histograms of 7424 buckets in 300 snapshots".into(), |rec| {
        let s: Vec<Snap> = (0..300u64).map(|i| { let mut s = Snap::new(i, Some(i)); let mut h = Hist::new(7, 64, 0); for (k, b) in h.b.iter_mut().enumerate() { *b = u64::MAX - (i << 20) - k as u64 } s.h.push(r("h", h, &none)); s }).collect();
        table(rec, &s, Cfg { entry: Entry::Handle, ..PLAIN }, &dir)
    });
}
pub fn c20_long(c: &mut Ctx, check: fn(&mut Rec, &[Snap], Cfg, &Map, &Dir) -> Result<String, String>) {
    let dir = Dir::new();
    // metadata that first occurs late, in the file and in columns
    for m in marks(if c.thorough { 70_000 } else { 22_000 }) { for off in [-1i64, 0, 1, 2] { for entry in [Entry::Direct, Entry::Handle] {
        if off != 1 && m > 5000 && !c.thorough { continue }
        let at = (m as i64 + off) as usize;
        c.case(|| format!("first metadata in row {at}, {entry:?}"), |rec| {
            let s: Vec<Snap> = (0..at + 3).map(|i| { let mut s = Snap::new(i as u64, None); if i >= at { let m = map(&[("row", &i.to_string())]); s.meta = m.clone(); s.c.push(r("c", 1, &m)); s.g.push(r("g", 1, &m)); s.h.push(r("h", Hist { g: 0, n: 1, b: vec![1, 2] }, &m)) } s }).collect();
            check(rec, &s, Cfg { entry, ..PLAIN }, &map(&[("given", "x")]), &dir)
        });
    } } }
}
pub fn c19(c: &mut Ctx) {
    let dir = Dir::new();
    let names = |s: &[Snap], e: Entry| -> Result<Vec<(String, Vec<Option<Cell>>)>, String> { let t = convert(s, Cfg { entry: e, ..PLAIN }, &Map::new(), &dir)?; let mut v: Vec<_> = t.cols.into_iter().filter(|c| c.name != "timestamp" && c.name != "duration").map(|c| (c.name, c.cells)).collect(); v.sort(); Ok(v) };
    let put = |kind: usize, s: &mut Snap, n: &str, v: u64, m: &Map| match kind { 0 => s.c.push(r(n, v, m)), 1 => s.g.push(r(n, v as i64, m)), _ => s.h.push(r(n, Hist { g: 0, n: 1, b: vec![v, 0] }, m)) };
    let cell = |kind: usize, v: u64| Some(match kind { 0 => Cell::U(v), 1 => Cell::I(v as i64), _ => Cell::L(vec![v, 0]) });
    let col = |kind: usize, n: String| if kind == 2 { format!("{n}:buckets") } else { n };
    // label keys that are close to the special ones or sort in unusual places
    const KEYS: [&str; 14] = ["Name", "ID", "names", "nam", "ops", "Op", "id2", "idx", "Unit", "units", "", "\u{e9}", "B", "a b"];
    const MORE: [&str; 8] = ["state", "id", "cpu", "cpu1", "cpu_", "CPU", "metrics", "_"];
    for kind in 0..3 { for (set, keys) in [(0, &KEYS[..]), (1, &MORE[..])] {
        let subs = subsets(keys.len());
        for (chunk, part) in subs.chunks(256).enumerate() { c.case(|| format!("kind {kind}, unusual labels {set}, sets {}..", chunk * 256), |rec| {
            let mut s = [Snap::new(1, None), Snap::new(2, None)];
            let mut want = vec![];
            for (i, sub) in part.iter().enumerate() {
                rec.step();
                let mut m: Map = sub.iter().map(|k| (keys[*k].to_string(), format!("v{}", (keys.len() - k) * 7 % 16))).collect();
                m.insert("metric".into(), format!("m{i}"));
                put(kind, &mut s[0], &format!("o{i}"), i as u64, &m);
                m.insert("unit".into(), "u".into());
                put(kind, &mut s[1], &format!("p{}", i * 31 % 256), 1000 + i as u64, &m);
                want.push((col(kind, column_name("", &m)), vec![cell(kind, i as u64), cell(kind, 1000 + i as u64)]));
                rec.state(&column_name("", &m));
            }
            s[1].c.reverse(); s[1].g.reverse(); s[1].h.reverse();
            want.sort();
            let got = names(&s, if chunk % 2 == 0 { Entry::Direct } else { Entry::Handle })?;
            diff("columns", &got, &want)?;
            Ok(format!("{}", got.len()))
        }) }
    } }
    // label values and names of every kind
    let ss = strings();
    for kind in 0..3 { for place in 0..6 { for (chunk, part) in ss.chunks(64).enumerate() { c.case(|| format!("kind {kind}, {}, strings {}..", ["plain name", "metric label", "op label", "id label", "other label", "all labels"][place], chunk * 64), |rec| {
        let mut s = [Snap::new(1, None), Snap::new(2, None)];
        let mut want = vec![];
        for (i, x) in part.iter().enumerate() {
            rec.step();
            if place == 0 && !column(x) { continue }
            let tag = format!("t{i}");
            let m = match place { 0 => Map::new(), 1 => map(&[("metric", x), ("op", &tag)]), 2 => map(&[("metric", "m"), ("op", x), ("state", &tag)]), 3 => map(&[("metric", "m"), ("id", x), ("state", &tag)]), 4 => map(&[("metric", "m"), ("zone", x), ("state", &tag)]), _ => map(&[("metric", x), ("op", x), ("zone", x), ("id", x), ("state", &tag)]) };
            let n = if place == 0 { x.clone() } else { format!("o{}", i % 3) };
            put(kind, &mut s[0], &n, i as u64, &m);
            let n2 = if place == 0 { x.clone() } else { format!("p{i}") };
            put(kind, &mut s[1], &n2, 500 + i as u64, &m);
            want.push((col(kind, column_name(&n, &m)), vec![cell(kind, i as u64), cell(kind, 500 + i as u64)]));
        }
        // some of them are made of parts with slashes and may then coincide with another
        let mut u = want.clone(); u.sort_by(|a, b| a.0.cmp(&b.0)); u.dedup_by(|a, b| a.0 == b.0);
        if u.len() != want.len() || u.iter().any(|w| !column(&w.0)) { return Err("the test is wrong".into()) }
        want.sort();
        let got = names(&s, if chunk % 2 == 0 { Entry::Direct } else { Entry::Handle })?;
        diff("columns", &got, &want).map_err(|e| e.chars().take(2000).collect::<String>())?;
        Ok(format!("{}", got.len()))
    }) } } }
    // label keys of every kind: two metrics that differ in the value of that label only
    let keys: Vec<String> = ss.iter().filter(|k| *k != "metric").cloned().collect();
    for kind in 0..3 { for (chunk, part) in keys.chunks(64).enumerate() { c.case(|| format!("kind {kind}, label keys {}..", chunk * 64), |rec| {
        let mut s = [Snap::new(1, None), Snap::new(2, None)];
        let mut want = std::collections::BTreeMap::new();
        for (i, x) in part.iter().enumerate() { for v in ["1", "2"] {
            rec.step();
            let mut m = map(&[("metric", &format!("m{i}")), ("name", "n"), ("zone", "z"), ("id", "7")]);
            m.insert(x.clone(), v.into());
            // a label that does not identify the metric: both are one, and the last reading counts
            let (a, b) = (2 * i as u64 + (v == "2") as u64, 900 + 2 * i as u64 + (v == "2") as u64);
            put(kind, &mut s[0], &format!("o{i}"), a, &m);
            put(kind, &mut s[1], &format!("p{i}"), b, &m);
            want.insert(col(kind, column_name("", &m)), vec![cell(kind, a), cell(kind, b)]);
        } }
        let got = names(&s, if chunk % 2 == 0 { Entry::Direct } else { Entry::Handle })?;
        diff("columns", &got, &want.into_iter().collect::<Vec<_>>()).map_err(|e| e.chars().take(2000).collect::<String>())?;
        Ok(format!("{}", got.len()))
    }) } }
    // labels whose keys are nearly the same, with their values exchanged
    for base in ["a", "cpu", "node_id", "k-1", "name", "op", "state", "direction", "id", "unit", "metric", "zone"] { for kind in 0..3 { c.case(|| format!("kind {kind}, labels like {base:?}"), |rec| {
        let mut s = [Snap::new(1, None), Snap::new(2, None)];
        let mut want = std::collections::BTreeMap::new();
        for (i, x) in near(base).iter().enumerate() { for (u, v) in [("1", "2"), ("2", "1")] {
            if base == "metric" || x == "metric" { continue }
            rec.step();
            let m = map(&[("metric", &format!("m{i}")), (base, u), (x, v)]);
            let k = 2 * i as u64 + (u == "2") as u64;
            put(kind, &mut s[0], &format!("o{i}"), k, &m);
            put(kind, &mut s[1], &format!("p{i}"), 900 + k, &m);
            want.insert(col(kind, column_name("", &m)), vec![cell(kind, k), cell(kind, 900 + k)]);
        } }
        let got = names(&s, Entry::Direct)?;
        diff("columns", &got, &want.into_iter().collect::<Vec<_>>()).map_err(|e| e.chars().take(2000).collect::<String>())?;
        Ok(format!("{}", got.len()))
    }) } }
    // numbers of labels
    for n in counts(130) { for kind in 0..3 { c.case(|| format!("kind {kind} with {n} labels"), |_| {
        let mut m: Map = (0..n).map(|i| (format!("l{i}"), format!("v{}", n - i))).collect();
        m.insert("metric".into(), "m".into()); m.insert("id".into(), "9".into()); m.insert("direction".into(), "tx".into());
        let mut s = [Snap::new(1, None), Snap::new(2, Some(1))];
        put(kind, &mut s[0], "a", 1, &m); put(kind, &mut s[1], "b", 2, &m);
        let got = names(&s, Entry::Direct)?;
        same("columns", &got, &vec![(col(kind, column_name("", &m)), vec![cell(kind, 1), cell(kind, 2)])])?;
        Ok("ok".into())
    }) } }
}
pub fn c20(c: &mut Ctx, check: fn(&mut Rec, &[Snap], Cfg, &Map, &Dir) -> Result<String, String>) {
    let dir = Dir::new();
    for x in strings() { for entry in [Entry::Direct, Entry::Handle] {
        // the Parquet library keeps its own entry under this key
        if x == "ARROW:schema" { continue }
        c.case(|| format!("{entry:?}, metadata with {x:?}"), |rec| {
            let m = Map::from([(x.clone(), "v".to_string()), ("k".to_string(), x.clone())]);
            let mut s = Snap::new(1, Some(1)); s.meta = m.clone();
            // the column of a metric with this label has another name; the metadata is kept
            s.c.push(r("c", 1, &m)); s.g.push(r("g", 1, &m)); s.h.push(r("h", Hist::new(0, 1, 1), &m));
            if s.c.iter().any(|y| !column(&column_name(&y.name, &y.meta))) { return Ok("skipped".into()) }
            if x == "metric" { s.g.clear(); s.h.clear() }
            check(rec, &[Snap::new(0, None), s], Cfg { entry, sparse: x.len() % 2 == 0, ..PLAIN }, &Map::from([(format!("{x}+"), x.clone())]), &dir)
        });
        c.case(|| format!("{entry:?}, converter metadata {x:?} over the snapshot's"), |rec| {
            let mut s = Snap::new(1, None); s.meta = Map::from([(x.clone(), "old".to_string()), ("other".to_string(), "o".to_string())]);
            check(rec, &[s], Cfg { entry, ..PLAIN }, &Map::from([(x.clone(), "new".to_string())]), &dir)
        });
    } }
    // keys that are nearly the same stay apart
    for x in ["source", "Source", "k", "sampling_interval_ms", "version", "metric_type", "unit", "description", "a.b", "a-b", ""] { let n = near(x); for (i, y) in n.iter().enumerate() { c.case(|| format!("metadata {x:?} beside {y:?}"), |rec| {
        let m = Map::from([(x.to_string(), "1".to_string()), (y.clone(), "2".to_string())]);
        let mut s = Snap::new(1, None); s.meta = m.clone(); s.c.push(r("c", 1, &m)); s.g.push(r("g", 1, &m)); s.h.push(r("h", Hist::new(0, 1, 1), &m));
        let (a, b) = (s.clone(), { let mut t = s.clone(); t.meta = Map::from([(y.clone(), "2".to_string())]); t });
        for (s, given) in [(a.clone(), Map::from([(x.to_string(), "new".to_string())])), (a, Map::from([(y.clone(), "new".to_string())])), (b, Map::from([(x.to_string(), "new".to_string())]))] {
            check(rec, &[s], Cfg { entry: if i % 2 == 0 { Entry::Direct } else { Entry::Handle }, sparse: i % 3 == 0, ..PLAIN }, &given, &dir)?;
        }
        Ok("ok".into())
    }) } }
    for n in counts(300) { for entry in [Entry::Direct, Entry::Handle] { c.case(|| format!("{entry:?}, {n} entries everywhere"), |rec| {
        let m: Map = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
        let mut s = Snap::new(1, None); s.meta = m.clone(); s.c.push(r("c", 1, &m)); s.g.push(r("g", 1, &m)); s.h.push(r("h", Hist::new(0, 1, 1), &m));
        let given: Map = (n / 2..n + 3).map(|i| (format!("k{i}"), format!("w{i}"))).collect();
        check(rec, &[s.clone(), s], Cfg { entry, sparse: n % 2 == 1, ..PLAIN }, &given, &dir)
    }) } }
    // row groups: every number of rows with every batch size up to a bound, and the default
    for n in 0..=30usize { for batch in 1..=31usize { c.case(|| format!("{n} rows, batch size {batch}"), |rec| {
        let s: Vec<Snap> = (0..n).map(|i| { let mut s = Snap::new(i as u64, None); s.c.push(r("c", i as u64, &Map::new())); s }).collect();
        check(rec, &s, Cfg { batch, entry: if (n + batch) % 2 == 0 { Entry::Direct } else { Entry::Handle }, ..PLAIN }, &Map::new(), &dir)
    }) } }
    for n in [49_999usize, 50_000, 50_001, 100_001, 150_000] { for batch in [0usize, 50_000, 25_000, 65_536, 1 << 20] { c.case(|| format!("{n} rows, batch size {batch}"), |rec| {
        let s: Vec<Snap> = (0..n).map(|i| { let mut s = Snap::new(i as u64, None); s.c.push(r("c", i as u64, &Map::new())); s }).collect();
        check(rec, &s, Cfg { batch, ..PLAIN }, &Map::new(), &dir)
    }) } }
    // the metadata of the first occurrence, wherever it is
    for n in 1..=12usize { for first in 0..n { for kind in 0..3 { for sparse in [false, true] { if sparse && kind != 2 { continue } c.case(|| format!("kind {kind} first in row {first} of {n}, sparse={sparse}"), |rec| {
        let s: Vec<Snap> = (0..n).map(|i| { let mut s = Snap::new(i as u64, None); if i >= first { let m = map(&[("n", &format!("{i}")), (&format!("only{i}"), "x")]); match kind { 0 => s.c.push(r("x", 1, &m)), 1 => s.g.push(r("x", 1, &m)), _ => s.h.push(r("x", Hist::new(0, 1, 1), &m)) } } if i == first { s.meta = map(&[("s", &format!("{i}"))]) } s }).collect();
        check(rec, &s, Cfg { sparse, batch: 5, ..PLAIN }, &Map::new(), &dir)
    }) } } } }
}
