//! C19: column identity.
use crate::convert::*;
use crate::ctx::*;
use crate::model::*;
use crate::table::*;
use metriken_exposition as ex;
use std::collections::{HashMap, HashSet};

const KEYS: [&str; 11] = ["name", "op", "state", "direction", "id", "unit", "grouping_power", "max_value_power", "cpu", "zone", "aardvark"];
fn cfg(e: Entry) -> Cfg { Cfg { sparse: false, zstd: 0, batch: 0, entry: e } }
fn name_of(kind: usize, n: &str) -> String { if kind == 2 { format!("{n}:buckets") } else { n.to_string() } }
fn with(kind: usize, s: &mut Snap, name: &str, v: u64, m: &Map) { match kind { 0 => s.c.push(r(name, v, m)), 1 => s.g.push(r(name, v as i64, m)), _ => s.h.push(r(name, Hist { g: 0, n: 1, b: vec![v, 0] }, m)) } }
fn cell(kind: usize, v: u64) -> Option<Cell> { Some(match kind { 0 => Cell::U(v), 1 => Cell::I(v as i64), _ => Cell::L(vec![v, 0]) }) }

pub fn c19(c: &mut Ctx) {
    let dir = Dir::new();
    let kinds = [0usize, 1, 2];
    // every set of label keys, with one value per key and with one shared value
    for kind in kinds { for style in 0..3 { for metric in [true, false] {
        // one conversion for all sets of labels: the metric label keeps them apart
        let sets = subsets(KEYS.len());
        for (chunk, part) in sets.chunks(64).enumerate() { c.case(|| format!("kind {kind}, value style {style}, metric label {metric}, label sets {}..", chunk * 64), |rec| {
            let mut s = [Snap::new(1, None), Snap::new(2, None)];
            let mut want: Vec<(String, Vec<Option<Cell>>)> = vec![];
            for (i, set) in part.iter().enumerate() {
                rec.step();
                let mut m: Map = set.iter().map(|k| (KEYS[*k].to_string(), match style { 0 => format!("v{k}"), 1 => "same".into(), _ => format!("{}", (b'z' - *k as u8) as char) })).collect();
                if metric { m.insert("metric".into(), format!("m{i}")); }
                // the opaque name differs between snapshots only if it is not the identity
                let n = |t: usize| if metric { format!("opaque{t}/{}", 997 * i % 64) } else { format!("plain{i}") };
                with(kind, &mut s[0], &n(0), 10 + i as u64, &m);
                with(kind, &mut s[1], &n(1), 1000 + i as u64, &m);
                want.push((name_of(kind, &column_name(&n(0), &m)), vec![cell(kind, 10 + i as u64), cell(kind, 1000 + i as u64)]));
                rec.state(&column_name(&n(0), &m));
            }
            s[1].c.reverse(); s[1].g.reverse(); s[1].h.reverse();
            let e = if chunk % 2 == 0 { Entry::Direct } else { Entry::Handle };
            let t = convert(&s, cfg(e), &Map::new(), &dir)?;
            let mut got: Vec<(String, Vec<Option<Cell>>)> = t.cols.iter().filter(|c| c.name != "timestamp" && c.name != "duration").map(|c| (c.name.clone(), c.cells.clone())).collect();
            got.sort(); want.sort();
            diff("columns", &got, &want)?;
            Ok(format!("{} columns, e.g. {}", got.len(), got[got.len() / 2].0))
        }) }
    } } }
    // pairs with the same label keys and different slash-free identifying values never share a column
    let vals = ["a", "b", "ab", ""];
    let ident = ["name", "op", "state", "direction", "cpu", "id"];
    for kind in kinds { for ks in subsets(ident.len()) { if ks.is_empty() || ks.len() > 3 { continue }
        c.case(|| format!("kind {kind}: all values of labels {:?}", ks.iter().map(|k| ident[*k]).collect::<Vec<_>>()), |rec| {
            let mut s = [Snap::new(1, None), Snap::new(2, None)];
            let mut want = vec![];
            let mut i = 0u64;
            seqs_of(&vals, ks.len() + 1, ks.len() + 1, |v| {
                let mut m: Map = ks.iter().zip(v).map(|(k, x)| (ident[*k].to_string(), x.to_string())).collect();
                m.insert("metric".into(), format!("m{}", v[ks.len()]));
                m.insert("unit".into(), "u".into());
                i += 1;
                with(kind, &mut s[0], "x", i, &m);
                m.insert("unit".into(), "other".into());
                m.insert("grouping_power".into(), "5".into());
                with(kind, &mut s[1], "y", 5000 + i, &m);
                want.push((name_of(kind, &column_name("x", &m)), vec![cell(kind, i), cell(kind, 5000 + i)]));
            });
            rec.steps(want.len());
            let t = convert(&s, cfg(Entry::Direct), &Map::new(), &dir)?;
            let mut got: Vec<_> = t.cols.iter().filter(|c| c.name != "timestamp" && c.name != "duration").map(|c| (c.name.clone(), c.cells.clone())).collect();
            got.sort(); want.sort();
            diff("columns", &got, &want)?;
            Ok(format!("{} columns", got.len()))
        })
    } }
    // every iteration order of the label map, built in every insertion order
    let labels: [(&str, &str); 5] = [("metric", "m"), ("op", "read"), ("zone", "z"), ("cpu", "3"), ("id", "9")];
    for kind in kinds { c.case(|| format!("kind {kind}: map orders"), |rec| {
        let want = name_of(kind, "m/read/3/z/9");
        let mut orders: HashSet<Vec<String>> = HashSet::new();
        for p in perms(&labels) { for _ in 0..3 {
            rec.step();
            let mut m: HashMap<String, String> = HashMap::new();
            for (k, v) in &p { m.insert(k.to_string(), v.to_string()); }
            orders.insert(m.keys().cloned().collect());
            let sn = |m: HashMap<String, String>| { let mut s = Snap::new(1, None); with(kind, &mut s, "x", 1, &Map::new()); let mut s = s.to(); match &mut s { ex::Snapshot::V1(s) => { for c in &mut s.counters { c.metadata = m.clone() } for c in &mut s.gauges { c.metadata = m.clone() } for c in &mut s.histograms { c.metadata = m.clone() } } _ => {} } s };
            let sink = Sink::default();
            let mut sc = ex::ParquetSchema::new();
            sc.push(sn(m.clone()));
            let mut w = sc.finalize(sink.clone(), cfg(Entry::Direct).options(), None).map_err(|e| e.to_string())?;
            let mut m2: HashMap<String, String> = HashMap::with_capacity(100);
            for (k, v) in p.iter().rev() { m2.insert(k.to_string(), v.to_string()); }
            orders.insert(m2.keys().cloned().collect());
            w.push(sn(m)).map_err(|e| e.to_string())?;
            w.push(sn(m2)).map_err(|e| e.to_string())?;
            w.finalize().map_err(|e| e.to_string())?;
            let t = read(sink.take())?;
            let got: Vec<_> = t.cols.iter().skip(2).map(|c| (c.name.clone(), c.cells.clone())).collect();
            if got != vec![(want.clone(), vec![cell(kind, 1), cell(kind, 1)])] { return Err(format!("columns {got:?}, expected {want}")) }
        } }
        Ok(format!("{} map orders", orders.len()))
    }) }
    // snapshot order does not matter
    for kind in kinds { for p in perms(&[0usize, 1, 2]) { c.case(|| format!("kind {kind}: snapshot order {p:?}"), |_| {
        let all: Vec<Snap> = (0..3).map(|i| { let mut s = Snap::new(i, None); let mut m = map(&[("metric", "m"), ("op", "r")]); if i == 1 { m.insert("unit".into(), "s".into()); } with(kind, &mut s, &format!("n{i}"), 100 + i, &m); m.insert("op".into(), "w".into()); if i != 2 { with(kind, &mut s, &format!("n{i}"), 200 + i, &m) } s }).collect();
        let s: Vec<Snap> = p.iter().map(|i| all[*i].clone()).collect();
        let t = convert(&s, cfg(Entry::Handle), &Map::new(), &dir)?;
        diff("columns", &data(&t.cols), &data(&expected(&s, false)))?;
        if t.cols.len() != 4 { return Err(format!("{} columns", t.cols.len())) }
        Ok(format!("{:?}", t.cols.iter().map(|c| &c.name).collect::<Vec<_>>()))
    }) } }
}
