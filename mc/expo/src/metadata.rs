//! C20: column and file metadata, row groups.
use crate::convert::*;
use crate::ctx::*;
use crate::model::*;
use crate::table::*;

pub fn check(rec: &mut Rec, s: &[Snap], cfg: Cfg, given: &Map, dir: &Dir) -> Result<String, String> {
    rec.steps(s.len() + 1);
    rec.state(&(s, given));
    verdict(s, cfg, given, convert(s, cfg, given, dir)?)
}
fn verdict(s: &[Snap], cfg: Cfg, given: &Map, t: Table) -> Result<String, String> {
    let mut want = expected(s, cfg.sparse);
    let mut got = t.cols.clone();
    for c in want.iter_mut().chain(got.iter_mut()) { c.cells.clear() }
    got.sort(); want.sort();
    diff("columns with metadata", &got, &want)?;
    let mut kv: Map = s.iter().map(|x| &x.meta).find(|m| !m.is_empty()).cloned().unwrap_or_default();
    kv.extend(given.clone());
    let kv: Vec<(String, Option<String>)> = kv.into_iter().map(|(k, v)| (k, Some(v))).collect();
    diff("file metadata", &t.kv, &kv)?;
    let batch = if cfg.batch == 0 { 50_000 } else { cfg.batch };
    if t.groups.iter().any(|g| *g > batch as i64) { return Err(format!("row groups of {:?} rows with batch size {batch}", t.groups)) }
    if s.len() > 0 && cfg.zstd >= 0 && t.codecs != vec![if cfg.zstd == 0 { "UNCOMPRESSED".to_string() } else { format!("ZSTD(ZstdLevel(1))") }] && !(cfg.zstd > 0 && t.codecs.len() == 1 && t.codecs[0].starts_with("ZSTD")) { return Err(format!("compression is {:?}", t.codecs)) }
    Ok(format!("{kv:?} {:?} {:?}", t.groups, want.iter().map(|c| c.meta.len()).collect::<Vec<_>>()))
}
pub fn c20(c: &mut Ctx) {
    let dir = Dir::new();
    let maps = [map(&[]), map(&[("k", "1")]), map(&[("k", "2"), ("l", "")]), map(&[("", "e"), ("\u{e9}\"", "\n")])];
    let gens = |f: &mut dyn FnMut(Cfg)| for sparse in [false, true] { for entry in [Entry::Direct, Entry::Handle, Entry::Path] { f(Cfg { sparse, zstd: 0, batch: 0, entry }) } };
    // file metadata: every history of snapshot metadata, every converter metadata
    seqs(4, 0, 3, |ix| for g in &maps { for e in [Entry::Direct, Entry::Handle] { for v2 in [None, Some(1)] {
        let s: Vec<Snap> = ix.iter().enumerate().map(|(i, k)| { let mut s = Snap::new(i as u64, v2); s.meta = maps[*k].clone(); s }).collect();
        c.case(|| format!("{e:?} snapshot metadata {ix:?} converter metadata {g:?} v2={}", v2.is_some()), |r| check(r, &s, Cfg { sparse: false, zstd: 0, batch: 0, entry: e }, g, &dir))
    } } });
    // column metadata: every history of metadata (or absence) of a metric of each kind
    let mm = [None, Some(map(&[])), Some(map(&[("k", "1")])), Some(map(&[("k", "2"), ("l", "x")])), Some(map(&[("metric_type", "other"), ("unit", "s")])), Some(map(&[("grouping_power", "9")]))];
    seqs(mm.len(), 1, if c.thorough { 3 } else { 2 }, |ix| for kind in 0..4 { gens(&mut |cfg| {
        if kind != 2 && kind != 3 && cfg.sparse { return }
        let s: Vec<Snap> = ix.iter().enumerate().map(|(i, k)| { let mut s = Snap::new(i as u64, None); s.meta = maps[i].clone();
            if let Some(m) = &mm[*k] { if kind == 0 || kind == 3 { s.c.push(r("x", 1, m)) } if kind == 1 || kind == 3 { s.g.push(r("y", 1, m)) } if kind >= 2 { s.h.push(r("z", Hist::new(0, 1, 1), m)) } } s }).collect();
        c.case(|| format!("{cfg:?} kind {kind} metric metadata {ix:?}"), |r| check(r, &s, cfg, &maps[1], &dir))
    }) });
    // metrics named by their labels
    seqs(3, 1, 3, |ix| for kind in 0..3 { for sparse in [false, true] {
        let ms = [map(&[("metric", "m"), ("unit", "a")]), map(&[("metric", "m"), ("unit", "b"), ("grouping_power", "1")]), map(&[("metric", "m"), ("op", "r")])];
        let s: Vec<Snap> = ix.iter().enumerate().map(|(i, k)| { let mut s = Snap::new(i as u64, None); match kind { 0 => s.c.push(r("a", 1, &ms[*k])), 1 => s.g.push(r("a", 1, &ms[*k])), _ => s.h.push(r("a", Hist::new(0, 1, 1), &ms[*k])) } s }).collect();
        c.case(|| format!("labelled kind {kind} {ix:?} sparse={sparse}"), |r| check(r, &s, Cfg { sparse, zstd: 0, batch: 0, entry: Entry::Direct }, &Map::new(), &dir))
    } });
    // row groups and compression
    for n in 0..=if c.thorough { 20usize } else { 12 } { for batch in [0usize, 1, 2, 3, 4, 5, 7, 11, 100] { for zstd in [0, 1, 3, -1] { for entry in [Entry::Direct, Entry::Handle] { for sparse in [false, true] {
        let s: Vec<Snap> = (0..n).map(|i| { let mut s = Snap::new(i as u64, None); s.c.push(r("c", i as u64, &Map::new())); if i % 2 == 0 { s.h.push(r("h", Hist::new(0, 2, 1), &Map::new())) } s }).collect();
        c.case(|| format!("{n} rows, batch size {batch}, compression {zstd}, {entry:?}, sparse={sparse}"), |r| check(r, &s, Cfg { sparse, zstd, batch, entry }, &Map::new(), &dir))
    } } } } }
    // large maps
    for n in [10usize, 100] { for entry in [Entry::Direct, Entry::Handle, Entry::Path] { c.case(|| format!("{n} metadata entries {entry:?}"), |rec| {
        let m: Map = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect();
        let g: Map = (n / 2..n + n / 2).map(|i| (format!("k{i}"), format!("w{i}"))).collect();
        let mut s = Snap::new(1, Some(2)); s.meta = m.clone(); s.c.push(r("c", 1, &g)); s.g.push(r("g", 1, &m)); s.h.push(r("h", Hist::new(0, 1, 1), &g));
        check(rec, &[Snap::new(0, None), s.clone(), s], Cfg { sparse: true, zstd: 0, batch: 0, entry }, &g, &dir)
    }) } }
    // every order and repetition of the option calls
    let h: Vec<Snap> = (0..7).map(|i| { let mut s = Snap::new(i as u64, None); s.meta = maps[i % 4].clone(); s.c.push(r("c", i as u64, &maps[1])); s.h.push(r("h", Hist::new(0, 2, 1), &maps[2])); s }).collect();
    seqs_of(&SETS, 0, if c.thorough { 5 } else { 4 }, |calls| for entry in [Entry::Direct, Entry::Handle] { c.case(|| format!("{entry:?} options {calls:?}"), |rec| {
        rec.steps(calls.len() + h.len());
        rec.state(&format!("{calls:?}"));
        verdict(&h, effect(calls, entry), &maps[1], convert_with(&h, entry, options(calls), &[("k".into(), "1".into())], &dir)?)
    }) });
    // metadata given to the converter piece by piece, keys repeated: the last value counts
    let pairs: Vec<(String, String)> = ["k", "l", "K"].iter().flat_map(|k| ["1", "2", ""].iter().map(|v| (k.to_string(), v.to_string()))).collect();
    seqs_of(&pairs, 1, if c.thorough { 4 } else { 3 }, |given| for entry in [Entry::Handle, Entry::Path] { for own in [0, 2] {
        if entry == Entry::Path && given.len() > 2 { continue }
        c.case(|| format!("{entry:?} given {given:?}, snapshot metadata {own}"), |rec| {
            rec.steps(given.len() + 1);
            let mut s = Snap::new(1, None); s.meta = maps[own].clone();
            let cfg = Cfg { sparse: false, zstd: 0, batch: 0, entry };
            verdict(&[s.clone()], cfg, &given.iter().cloned().collect(), convert_with(&[s], entry, cfg.options(), given, &dir)?)
        })
    } });
}
