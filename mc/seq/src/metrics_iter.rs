//! C11: iteration over all metrics and over dynamic metrics.
use crate::ctx::*;
use crate::iters_core::*;
use crate::probe_back;
use metriken::{metrics, Counter, DynBoxedMetric, DynMetricsIter, MetricBuilder, MetricEntry, MetricsIter};

impl<'a> Probe for MetricsIter<'a> {
    type K = *const MetricEntry;
    fn key(x: Self::Item) -> Self::K { x }
    probe_back!();
    fn special(self, e: End) -> Vec<Self::K> { both(self, e) }
}
impl<'a> Probe for DynMetricsIter<'a> {
    type K = *const MetricEntry;
    fn key(x: Self::Item) -> Self::K { x }
    probe_back!();
    fn rposition_(&mut self, f: &mut dyn FnMut(Self::K) -> bool) -> Option<usize> { self.rposition(|x| f(x)) }
    fn special(self, e: End) -> Vec<Self::K> { exactly(self, e) }
    fn exact(&self) -> Option<usize> { Some(self.len()) }
}

pub fn run(c: &mut Ctx, statics: usize) {
    let (ops, ends) = alphabet(true, c.thorough);
    let mut dends = ends.clone();
    dends.push(End::Len);
    let depth = if c.thorough { 5 } else { 4 };
    for d in 0..=if c.thorough { 4 } else { 3 } {
        let held: Vec<DynBoxedMetric<Counter>> = (0..d).map(|i| MetricBuilder::new(format!("dyn/{i}")).build(Counter::with_value(100 + i as u64))).collect();
        let v = metrics();
        let order = |mut i: Box<dyn Iterator<Item = &MetricEntry> + '_>| { let mut o: Vec<*const MetricEntry> = vec![]; while let Some(e) = i.next() { o.push(e); if o.len() > 100 { break } } o };
        let all = order(Box::new(v.iter()));
        let dynamic = order(Box::new(v.dynamic_metrics()));
        c.case(|| format!("{statics} static and {d} dynamic metrics: contents"), |_| {
            let names = |o: &[*const MetricEntry]| { let mut n: Vec<String> = o.iter().map(|e| unsafe { (**e).name().to_string() }).collect(); n.sort(); n };
            let mut want: Vec<String> = (0..d).map(|i| format!("dyn/{i}")).collect();
            if names(&dynamic) != want { return Err(format!("dynamic metrics are {:?}", names(&dynamic))) }
            want.extend((0..statics).map(|i| format!("static/{i}")));
            want.sort();
            if names(&all) != want { return Err(format!("all metrics are {:?}, expected {want:?}", names(&all))) }
            if order(Box::new((&v).into_iter())) != all { return Err("two iterations differ".into()) }
            if v.static_metrics().len() != statics { return Err("wrong number of static metrics".into()) }
            Ok(format!("{want:?}"))
        });
        seqs_of(&ops, 0, depth, |s| {
            for e in &ends { c.case(|| format!("{statics} static and {d} dynamic metrics: {s:?} then {e:?}"), |r| drive(r, v.iter(), &all, s, *e)) }
            for e in &dends { if statics == 0 || s.len() < depth { c.case(|| format!("{d} dynamic metrics of {statics} static ones: {s:?} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, s, *e)) } }
        });
        let (ops, ends) = extended(true, false);
        seqs_of(&ops, 0, if c.thorough { 3 } else { 2 }, |s| for e in &ends { c.case(|| format!("{statics} static and {d} dynamic metrics: {s:?} then {e:?}"), |r| drive(r, v.iter(), &all, s, *e)) });
        let (ops, ends) = extended(true, true);
        if statics == 0 || c.thorough { seqs_of(&ops, 0, 2, |s| for e in &ends { c.case(|| format!("{d} dynamic metrics of {statics} static ones: {s:?} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, s, *e)) }) }
        drop(v);
        drop(held);
    }
    // more metrics: every position reached by skipping, from either end
    for d in [5usize, 8, 16, 17, 33, 64, 100, 300] {
        let held: Vec<DynBoxedMetric<Counter>> = (0..d).map(|i| MetricBuilder::new(format!("dyn/{i}")).build(Counter::with_value(100 + i as u64))).collect();
        let v = metrics();
        let (mut all, mut dynamic): (Vec<*const MetricEntry>, Vec<*const MetricEntry>) = (vec![], vec![]);
        let mut i = v.iter();
        while let Some(e) = i.next() { all.push(e); if all.len() > 1000 { break } }
        let mut i = v.dynamic_metrics();
        while let Some(e) = i.next() { dynamic.push(e); if dynamic.len() > 1000 { break } }
        c.case(|| format!("{statics} static and {d} dynamic metrics: contents"), |_| {
            let mut n: Vec<String> = all.iter().map(|e| unsafe { (**e).name().to_string() }).collect();
            let mut w: Vec<String> = (0..d).map(|i| format!("dyn/{i}")).chain((0..statics).map(|i| format!("static/{i}"))).collect();
            n.sort(); w.sort();
            if n != w || dynamic.len() != d { return Err(format!("all metrics are {n:?} with {} dynamic ones", dynamic.len())) }
            Ok(format!("{}", n.len()))
        });
        let n = d + statics;
        let ks: Vec<usize> = if n <= 20 { (0..=n + 1).collect() } else { vec![0, 1, statics, statics + 1, n / 2, d - 1, d, d + 1, n - 2, n - 1, n, n + 1, usize::MAX] };
        let (_, xe) = extended(true, false);
        let (_, xd) = extended(true, true);
        for a in &ks {
            for s in [vec![O::Find(*a)], vec![O::Any(*a), O::Back], vec![O::Position(*a), O::Rfind(1)], vec![O::TryFold(*a)], vec![O::Rfind(*a)], vec![O::TryRfold(*a), O::Next], vec![O::All(*a)], vec![O::Nth(*a)], vec![O::NthBack(*a)]] {
                for e in &xe { c.case(|| format!("{statics} static and {d} dynamic metrics: {s:?} then {e:?}"), |r| drive(r, v.iter(), &all, &s, *e)) }
                for e in &xd { c.case(|| format!("{d} dynamic metrics of {statics} static ones: {s:?} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, &s, *e)) }
            }
            for e in &xd { c.case(|| format!("{d} dynamic metrics of {statics} static ones: rposition {a} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, &[O::Rposition(*a)], *e)) }
        }
        for a in &ks { for b in &ks { for s in [vec![O::Nth(*a), O::NthBack(*b)], vec![O::NthBack(*a), O::Nth(*b)], vec![O::Nth(*a), O::Nth(*b), O::Back], vec![O::NthBack(*a), O::NthBack(*b), O::Next]] { for e in &dends {
            if *e != End::Len { c.case(|| format!("{statics} static and {d} dynamic metrics: {s:?} then {e:?}"), |r| drive(r, v.iter(), &all, &s, *e)) }
            c.case(|| format!("{d} dynamic metrics of {statics} static ones: {s:?} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, &s, *e));
        } } } }
        drop(v);
        drop(held);
    }
    // very many
    for d in [5_000usize, 65_535, 65_536, 70_000, if c.thorough { 300_000 } else { 1_000 }] {
        if statics > 1 && !c.thorough && d != 65_536 { continue }
        let held: Vec<DynBoxedMetric<Counter>> = (0..d).map(|i| MetricBuilder::new(format!("dyn/{i}")).build(Counter::with_value(i as u64))).collect();
        let v = metrics();
        let (mut all, mut dynamic): (Vec<*const MetricEntry>, Vec<*const MetricEntry>) = (vec![], vec![]);
        let mut i = v.iter();
        while let Some(e) = i.next() { all.push(e); if all.len() > 2 * d { break } }
        let mut i = v.dynamic_metrics();
        while let Some(e) = i.next() { dynamic.push(e); if dynamic.len() > 2 * d { break } }
        c.case(|| format!("{statics} static and {d} dynamic metrics: contents"), |r| {
            r.steps(d);
            let n = |v: &[*const MetricEntry]| { let mut v = v.to_vec(); v.sort(); v.dedup(); v.len() };
            if all.len() != d + statics || dynamic.len() != d || n(&all) != d + statics || n(&dynamic) != d { return Err(format!("{} metrics and {} dynamic ones, {} and {} different ones", all.len(), dynamic.len(), n(&all), n(&dynamic))) }
            Ok(format!("{d}"))
        });
        let ok = all.len() == d + statics && dynamic.len() == d;
        for a in [0usize, statics, 255, 256, 65_534, 65_535, 65_536, d - 2, d - 1, d, d + statics - 1, d + statics, usize::MAX] { for e in LARGE_BACK { if !ok { continue } for o in [O::Nth(a), O::Find(a), O::NthBack(a), O::Rfind(a)] {
            if e == End::Stop && o != O::Nth(0) { continue }
            if e != End::Len { c.case(|| format!("{statics} static and {d} dynamic metrics: {o:?} then {e:?}"), |r| drive(r, v.iter(), &all, &[o], e)) }
            c.case(|| format!("{d} dynamic metrics of {statics} static ones: {o:?} then {e:?}"), |r| drive(r, v.dynamic_metrics(), &dynamic, &[o], e));
        } } }
        drop(v);
        drop(held);
    }
}
