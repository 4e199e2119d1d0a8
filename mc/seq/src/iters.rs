//! C11: iteration over metadata.
use crate::ctx::*;
use crate::iters_core::*;
use metriken::{metric, metrics, Counter, Metadata, MetadataIter};
#[metric(name = "it/0")]
static M0: Counter = Counter::new();
#[metric(name = "it/1", metadata = { a = "1" })]
static M1: Counter = Counter::new();
#[metric(name = "it/2", metadata = { a = "1", b = "2" })]
static M2: Counter = Counter::new();
#[metric(name = "it/3", metadata = { a = "1", b = "2", c = "" })]
static M3: Counter = Counter::new();
#[metric(name = "it/5", metadata = { a = "1", b = "2", c = "", d = "4", e = "5" })]
static M5: Counter = Counter::new();

impl<'a> Probe for MetadataIter<'a> {
    type K = (&'a str, &'a str);
    fn key(x: Self::Item) -> Self::K { x }
    fn exact(&self) -> Option<usize> { Some(self.len()) }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn ordered(self, rest: &[Self::K]) -> Result<(), String> {
        let all = |i: Self| -> Vec<String> { vec![
            format!("{:?}", i.clone().max()), format!("{:?}", i.clone().min()), format!("{}", i.clone().eq(rest.iter().copied())), format!("{}", i.clone().ne(rest.iter().copied())),
            format!("{:?}", i.clone().cmp(rest.iter().copied())), format!("{:?}", i.clone().partial_cmp(rest.iter().copied())), format!("{}", i.clone().lt(rest.iter().copied())), format!("{}", i.clone().le(rest.iter().copied())), format!("{}", i.clone().gt(rest.iter().copied())), format!("{}", i.clone().ge(rest.iter().copied())),
            format!("{}", i.clone().is_sorted()),
        ] };
        let eq = std::cmp::Ordering::Equal;
        let want = vec![format!("{:?}", rest.iter().max()), format!("{:?}", rest.iter().min()), "true".into(), "false".into(), format!("{eq:?}"), format!("{:?}", Some(eq)), "false".into(), "true".into(), "false".into(), "true".into(), format!("{}", rest.is_sorted())];
        let got = all(self);
        if got == want { Ok(()) } else { Err(format!("comparisons gave {got:?}, expected {want:?}")) }
    }
}
pub fn metadata(c: &mut Ctx) {
    let (ops, mut ends) = alphabet(false, c.thorough);
    ends.extend([End::Len, End::Clone]);
    let v = metrics();
    let mut all: Vec<(String, Metadata, Vec<(String, String)>)> = vec![];
    let keys = ["a", "b", "c", "d", "e"];
    let vals = ["1", "2", "", "4", "5"];
    for n in 0..=5usize {
        let kv: Vec<(String, String)> = (0..n).map(|i| (keys[i].to_string(), vals[i].to_string())).collect();
        if let Some(e) = v.static_metrics().iter().find(|e| e.name() == format!("it/{n}")) { all.push((format!("static metadata of {n}"), e.metadata().clone(), kv.clone())) }
        all.push((format!("dynamic metadata of {n}"), Metadata::from(kv.iter().cloned().collect::<std::collections::HashMap<_, _>>()), kv));
    }
    let depth = if c.thorough { 5 } else { 4 };
    for (name, m, kv) in &all {
        let mut order = vec![];
        let mut it = m.iter();
        while let Some(x) = it.next() { order.push(x); if order.len() > 100 { break } }
        c.case(|| format!("{name}: contents"), |_| {
            let mut s: Vec<(String, String)> = order.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            s.sort();
            if s != *kv || m.len() != kv.len() || m.into_iter().count() != kv.len() || m.is_empty() != kv.is_empty() { return Err(format!("yields {s:?}, expected {kv:?}")) }
            for (k, x) in kv { if m.get(k) != Some(x.as_str()) || !m.contains_key(k) { return Err(format!("lookup of {k} fails")) } }
            if m.get("z").is_some() || m.contains_key("z") { return Err("lookup of an absent key succeeds".into()) }
            Ok("ok".into())
        });
        seqs_of(&ops, 0, depth, |s| for e in &ends { c.case(|| format!("{name}: {s:?} then {e:?}"), |r| drive(r, m.iter(), &order, s, *e)) });
        let (ops, ends) = extended(false, true);
        seqs_of(&ops, 0, if c.thorough { 3 } else { 2 }, |s| for e in &ends { c.case(|| format!("{name}: {s:?} then {e:?}"), |r| drive(r, m.iter(), &order, s, *e)) });
    }
}
