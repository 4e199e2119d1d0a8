//! Snapshots as plain data.
#![allow(dead_code)]
use metriken_exposition as ex;
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

pub type Map = BTreeMap<String, String>;
pub fn map(kv: &[(&str, &str)]) -> Map { kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
pub fn hmap(m: &Map) -> HashMap<String, String> { m.iter().map(|(a, b)| (a.clone(), b.clone())).collect() }
pub fn bmap(m: &HashMap<String, String>) -> Map { m.iter().map(|(a, b)| (a.clone(), b.clone())).collect() }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Hist { pub g: u8, pub n: u8, pub b: Vec<u64> }
impl Hist {
    /// Pattern 0 is empty, 1 has distinct counts, 2 large ones, 3 a single count.
    pub fn new(g: u8, n: u8, pat: u8) -> Hist {
        let len = histogram::Config::new(g, n).unwrap().total_buckets() as u64;
        Hist { g, n, b: (0..len).map(|i| match pat { 0 => 0, 1 => i + 1, 2 => if i % 2 == 0 { u64::MAX - i } else { 0 }, _ => (i == len - 1) as u64 }).collect() }
    }
    pub fn to(&self) -> histogram::Histogram { histogram::Histogram::from_buckets(self.g, self.n, self.b.clone()).unwrap() }
    pub fn of(h: &histogram::Histogram) -> Hist { Hist { g: h.config().grouping_power(), n: h.config().max_value_power(), b: h.as_slice().to_vec() } }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct R<T> { pub name: String, pub value: T, pub meta: Map }
pub fn r<T>(name: &str, value: T, meta: &Map) -> R<T> { R { name: name.into(), value, meta: meta.clone() } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap { pub ts: Duration, pub dur: Option<Duration>, pub meta: Map, pub c: Vec<R<u64>>, pub g: Vec<R<i64>>, pub h: Vec<R<Hist>> }
impl Snap {
    pub fn new(ts: u64, dur: Option<u64>) -> Snap { Snap { ts: Duration::from_nanos(ts), dur: dur.map(Duration::from_nanos), meta: Map::new(), c: vec![], g: vec![], h: vec![] } }
    pub fn to(&self) -> ex::Snapshot {
        let systemtime = SystemTime::UNIX_EPOCH + self.ts;
        let metadata = hmap(&self.meta);
        let counters = self.c.iter().map(|x| ex::Counter { name: x.name.clone(), value: x.value, metadata: hmap(&x.meta) }).collect();
        let gauges = self.g.iter().map(|x| ex::Gauge { name: x.name.clone(), value: x.value, metadata: hmap(&x.meta) }).collect();
        let histograms = self.h.iter().map(|x| ex::Histogram { name: x.name.clone(), value: x.value.to(), metadata: hmap(&x.meta) }).collect();
        match self.dur {
            None => ex::Snapshot::V1(ex::SnapshotV1 { systemtime, metadata, counters, gauges, histograms }),
            Some(duration) => ex::Snapshot::V2(ex::SnapshotV2 { systemtime, duration, metadata, counters, gauges, histograms }),
        }
    }
    fn parts(t: SystemTime, dur: Option<Duration>, m: &HashMap<String, String>, c: &[ex::Counter], g: &[ex::Gauge], h: &[ex::Histogram]) -> Snap {
        Snap {
            ts: t.duration_since(SystemTime::UNIX_EPOCH).unwrap(), dur, meta: bmap(m),
            c: c.iter().map(|x| R { name: x.name.clone(), value: x.value, meta: bmap(&x.metadata) }).collect(),
            g: g.iter().map(|x| R { name: x.name.clone(), value: x.value, meta: bmap(&x.metadata) }).collect(),
            h: h.iter().map(|x| R { name: x.name.clone(), value: Hist::of(&x.value), meta: bmap(&x.metadata) }).collect(),
        }
    }
    /// From the public fields.
    pub fn of(s: &ex::Snapshot) -> Snap {
        match s {
            ex::Snapshot::V1(s) => Snap::parts(s.systemtime, None, &s.metadata, &s.counters, &s.gauges, &s.histograms),
            ex::Snapshot::V2(s) => Snap::parts(s.systemtime, Some(s.duration), &s.metadata, &s.counters, &s.gauges, &s.histograms),
        }
    }
    /// Through the accessors, in the given order.
    pub fn via(s: &mut ex::Snapshot, order: &[usize]) -> Snap {
        let (mut m, mut c, mut g, mut h) = (None, None, None, None);
        let t = s.systemtime();
        let d = s.duration();
        for o in order { match o { 0 => m = Some(s.metadata()), 1 => c = Some(s.counters()), 2 => g = Some(s.gauges()), _ => h = Some(s.histograms()) } }
        Snap::parts(t, d, &m.unwrap_or_default(), &c.unwrap_or_default(), &g.unwrap_or_default(), &h.unwrap_or_default())
    }
}
/// Whether its times fit the columns of a Parquet file, which hold nanoseconds in 64 bits.
pub fn fits(s: &Snap) -> bool { s.ts.as_nanos() <= u64::MAX as u128 && s.dur.is_none_or(|d| d.as_nanos() <= u64::MAX as u128) }
pub fn stream(s: &[Snap]) -> Vec<u8> { s.iter().flat_map(|x| ex::Snapshot::to_msgpack(&x.to()).unwrap()).collect() }
