//! C17: the data in the Parquet output.
use crate::ctx::*;
use crate::model::*;
use crate::table::*;
use metriken_exposition::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry { Direct, Handle, Path }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg { pub sparse: bool, pub zstd: i32, pub batch: usize, pub entry: Entry }
impl Cfg {
    pub fn options(&self) -> ParquetOptions {
        // zero stands for "not set"
        let mut o = ParquetOptions::new();
        if self.sparse { o = o.histogram_type(ParquetHistogramType::Sparse) }
        if self.zstd == 0 { o = o.compression(ParquetCompression::none()) } else if self.zstd > 0 { o = o.compression(ParquetCompression::zstd(self.zstd).unwrap()) }
        if self.batch > 0 { o = o.max_batch_size(self.batch) }
        o
    }
}
/// A private directory for the entry point that takes paths.
pub struct Dir(pub std::path::PathBuf);
impl Dir { pub fn new() -> Dir { let p = std::env::temp_dir().join(format!("vp-expo-{}", std::process::id())); std::fs::create_dir_all(&p).unwrap(); Dir(p) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn convert(s: &[Snap], cfg: Cfg, meta: &Map, dir: &Dir) -> Result<Table, String> {
    convert_with(s, cfg.entry, cfg.options(), &meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), dir)
}
/// With any options, and metadata given in any order.
pub fn convert_with(s: &[Snap], entry: Entry, opts: ParquetOptions, meta: &[(String, String)], dir: &Dir) -> Result<Table, String> {
    let rows: i64;
    let bytes;
    match entry {
        Entry::Direct => {
            let sink = Sink::default();
            let mut schema = ParquetSchema::new();
            for x in s { schema.push(x.to()) }
            let mut w = schema.finalize(sink.clone(), opts, if meta.is_empty() { None } else { Some(meta.iter().cloned().collect()) }).map_err(|e| format!("schema: {e}"))?;
            for x in s { w.push(x.to()).map_err(|e| format!("push: {e}"))? }
            rows = w.finalize().map_err(|e| format!("finalize: {e}"))?.num_rows;
            bytes = sink.take();
        }
        Entry::Handle => {
            let sink = Sink::default();
            let mut c = MsgpackToParquet::with_options(opts);
            for (k, v) in meta { c = c.metadata(k.clone(), v.clone()) }
            rows = c.convert_file_handle(std::io::Cursor::new(stream(s)), sink.clone()).map_err(|e| format!("convert: {e}"))?;
            bytes = sink.take();
        }
        Entry::Path => {
            let (i, o) = (dir.0.join("in"), dir.0.join("out"));
            std::fs::write(&i, stream(s)).unwrap();
            // an older, longer output file is replaced
            std::fs::write(&o, vec![7u8; 20000]).unwrap();
            let mut c = MsgpackToParquet::with_options(opts);
            for (k, v) in meta { c = c.metadata(k.clone(), v.clone()) }
            rows = c.convert_file_path(&i, &o).map_err(|e| format!("convert: {e}"))?;
            bytes = std::fs::read(&o).unwrap();
        }
    }
    if rows != s.len() as i64 { return Err(format!("reports {rows} rows for {} snapshots", s.len())) }
    let t = read(bytes)?;
    if t.rows != s.len() { return Err(format!("{} rows for {} snapshots", t.rows, s.len())) }
    Ok(t)
}
fn check(rec: &mut Rec, s: &[Snap], cfg: Cfg, dir: &Dir) -> Result<String, String> {
    rec.steps(s.len());
    rec.state(&s);
    let t = convert(s, cfg, &Map::new(), dir)?;
    let want = expected(s, cfg.sparse);
    diff("columns", &data(&t.cols), &data(&want))?;
    Ok(format!("{} rows {} columns {} bytes of cells", t.rows, t.cols.len(), want.iter().map(|c| c.cells.iter().flatten().count()).sum::<usize>()))
}
const US: [u64; 4] = [u64::MAX, 0, 1 << 63, 1];
const IS: [i64; 4] = [i64::MIN, 0, -1, i64::MAX];
/// A snapshot with a subset of four metrics; values depend on its position.
fn letter(mask: usize, v2: bool, pos: usize) -> Snap {
    let mut s = Snap::new([5, 0, 18446744073709551615, 1700000000123456789][pos % 4], if v2 { Some([0, 7, u64::MAX, 1][pos % 4]) } else { None });
    let m = Map::new();
    if mask & 1 != 0 { s.c.push(r("c1", US[pos % 4], &m)) }
    if mask & 2 != 0 { s.c.insert(0, r("c2", US[(pos + 1) % 4], &m)) }
    if mask & 4 != 0 { s.g.push(r("g", IS[pos % 4], &m)) }
    if mask & 8 != 0 { s.h.push(r("h", Hist::new(1, 3, (pos % 4) as u8), &m)) }
    s
}
pub fn c17(c: &mut Ctx) {
    let dir = Dir::new();
    let mut cfgs = vec![];
    for sparse in [false, true] { for zstd in [0, 1, -1] { for batch in [1usize, 2, 0] { for entry in [Entry::Direct, Entry::Handle, Entry::Path] { cfgs.push(Cfg { sparse, zstd, batch, entry }) } } } }
    let alpha: Vec<(usize, bool)> = (0..16).flat_map(|m| [(m, false), (m, true)]).collect();
    let build = |s: &[(usize, bool)]| s.iter().enumerate().map(|(i, (m, v))| letter(*m, *v, i)).collect::<Vec<_>>();
    // all histories of up to one snapshot in every configuration, two in half of them per history parity
    seqs_of(&alpha, 0, 1, |s| for cfg in &cfgs { let h = build(s); c.case(|| format!("{cfg:?} {h:?}"), |r| check(r, &h, *cfg, &dir)) });
    let mut n = 0usize;
    seqs_of(&alpha, 2, 2, |s| { n += 1; for (i, cfg) in cfgs.iter().enumerate() {
        if !c.thorough && (i + n) % 6 != 0 { continue }
        let h = build(s);
        c.case(|| format!("{cfg:?} {h:?}"), |r| check(r, &h, *cfg, &dir))
    } });
    // histories of three, with one configuration each in turn
    seqs_of(&alpha, 3, 3, |s| { n += 1; let cfg = cfgs[n * 7 % cfgs.len()]; if cfg.entry == Entry::Path && !c.thorough { return } let h = build(s); c.case(|| format!("{cfg:?} {h:?}"), |r| check(r, &h, cfg, &dir)) });
    // every order and selection of metrics of one kind, so that one replaces another or only their order changes
    let lists = |names: usize, max: usize| { let mut v: Vec<Vec<usize>> = vec![]; seqs_of(&(0..names).collect::<Vec<_>>(), 0, max, |s| if (0..s.len()).all(|i| !s[..i].contains(&s[i])) { v.push(s.to_vec()) }); v };
    let snap = |kind: usize, names: &[usize], pos: usize| {
        let mut s = Snap::new(pos as u64, None);
        for k in names {
            let (m, v) = (if *k == 2 { map(&[("metric", "n2"), ("id", "1")]) } else { Map::new() }, pos * 10 + k);
            match kind { 0 => s.c.push(r(&format!("n{k}"), v as u64, &m)), 1 => s.g.push(r(&format!("n{k}"), -(v as i64), &m)), _ => s.h.push(r(&format!("n{k}"), Hist { g: 0, n: 1, b: vec![v as u64, 1] }, &m)) }
        }
        s
    };
    for kind in 0..3 { for (len, max) in [(2usize, 3usize), (3, 2)] { seqs_of(&lists(6 - len, max), len, len, |s| { n += 1;
        let cfg = Cfg { sparse: n % 2 == 0, zstd: 0, batch: n % 3, entry: if n % 4 == 0 { Entry::Handle } else { Entry::Direct } };
        let h: Vec<Snap> = s.iter().enumerate().map(|(i, l)| snap(kind, l, i)).collect();
        c.case(|| format!("{cfg:?} {h:?}"), |r| check(r, &h, cfg, &dir))
    }) } }
    // a metric that comes and goes over longer histories, with every batch size
    seqs_of(&[0usize, 1, 4, 8, 15], 4, if c.thorough { 6 } else { 5 }, |s| { n += 1;
        let cfg = Cfg { sparse: n % 2 == 0, zstd: 0, batch: 1 + n % 6, entry: if n % 3 == 0 { Entry::Handle } else { Entry::Direct } };
        let h = build(&s.iter().map(|m| (*m, n % 5 == 0)).collect::<Vec<_>>());
        c.case(|| format!("{cfg:?} {h:?}"), |r| check(r, &h, cfg, &dir)) });
    // boundary values in pairs
    let plain = |entry, sparse| Cfg { sparse, zstd: 0, batch: 0, entry };
    let us = [0u64, 1, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
    let is = [0i64, 1, -1, -32, -33, -128, -129, 128, -32769, i32::MIN as i64 - 1, 1 << 53, i64::MIN, i64::MAX];
    for e in [Entry::Direct, Entry::Handle] {
        for i in 0..us.len() { for j in 0..us.len() {
            let m = Map::new();
            let mut a = Snap::new(us[i], Some(us[j])); a.c.push(r("c", us[i], &m)); a.g.push(r("g", is[i], &m)); a.h.push(r("h", Hist { g: 0, n: 2, b: vec![us[i], us[j], 0] }, &m));
            let mut b = Snap::new(us[j], Some(us[i])); b.c.push(r("c", us[j], &m)); b.g.push(r("g", is[j], &m)); b.h.push(r("h", Hist { g: 0, n: 2, b: vec![0, us[j], us[i]] }, &m));
            for sparse in [false, true] { c.case(|| format!("{e:?} sparse={sparse} values {i} {j}"), |r| check(r, &[a.clone(), b.clone()], plain(e, sparse), &dir)) }
        } }
        // histogram configurations that differ between metrics and over time
        for (g, n) in [(0u8, 1u8), (1, 2), (2, 8), (3, 64)] { for (g2, n2) in [(0u8, 1u8), (2, 8)] { for p in 0..4u8 { for q in 0..4u8 { for sparse in [false, true] {
            let m = Map::new();
            let mut a = Snap::new(1, None); a.h.push(r("h1", Hist::new(g, n, p), &m)); a.h.push(r("h2", Hist::new(g2, n2, q), &m));
            let mut b = Snap::new(2, None); b.h.push(r("h1", Hist::new(g2, n2, q), &m));
            c.case(|| format!("{e:?} sparse={sparse} histograms ({g},{n},{p}) ({g2},{n2},{q})"), |r| check(r, &[a, b], plain(e, sparse), &dir))
        } } } } }
    }
    // many metrics and many rows
    for (metrics, rows) in [(1usize, 200usize), (200, 3), (40, 40)] { for e in [Entry::Direct, Entry::Handle, Entry::Path] { for batch in [0usize, 7, 64] { for sparse in [false, true] {
        c.case(|| format!("{metrics} metrics of each kind, {rows} snapshots, {e:?}, batch {batch}, sparse={sparse}"), |r| {
            let s: Vec<Snap> = (0..rows).map(|i| { let m = Map::new(); let mut s = Snap::new(i as u64, if i % 3 == 0 { None } else { Some(i as u64) });
                for k in 0..metrics { if (i + k) % 5 != 0 { s.c.push(crate::model::r(&format!("c{k}"), (i * 1000 + k) as u64, &m)) } if (i + k) % 7 != 0 { s.g.push(crate::model::r(&format!("g{k}"), -((i * 1000 + k) as i64), &m)) } if (i + k) % 3 != 0 { s.h.push(crate::model::r(&format!("h{k}"), Hist { g: 0, n: 1, b: vec![i as u64, k as u64] }, &m)) } }
                s }).collect();
            check(r, &s, Cfg { sparse, zstd: -1, batch, entry: e }, &dir)
        })
    } } } }
}

/// One call on `ParquetOptions`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Set { Sparse(bool), Zstd(i32), Batch(usize) }
pub fn options(calls: &[Set]) -> ParquetOptions {
    let mut o = ParquetOptions::new();
    for x in calls { o = match x {
        Set::Sparse(b) => o.histogram_type(if *b { ParquetHistogramType::Sparse } else { ParquetHistogramType::Standard }),
        Set::Zstd(l) => o.compression(if *l == 0 { ParquetCompression::none() } else { ParquetCompression::zstd(*l).unwrap() }),
        Set::Batch(n) => o.max_batch_size(*n),
    } }
    o
}
/// What these calls amount to: the last of each kind counts.
pub fn effect(calls: &[Set], entry: Entry) -> Cfg {
    let mut c = Cfg { sparse: false, zstd: -1, batch: 0, entry };
    for x in calls { match x { Set::Sparse(b) => c.sparse = *b, Set::Zstd(l) => c.zstd = *l, Set::Batch(n) => c.batch = *n } }
    c
}
pub const SETS: [Set; 6] = [Set::Sparse(true), Set::Sparse(false), Set::Zstd(0), Set::Zstd(1), Set::Batch(1), Set::Batch(3)];
/// Every order and repetition of the option calls.
pub fn c17_options(c: &mut Ctx) {
    let dir = Dir::new();
    let h: Vec<Snap> = (0..5).map(|i| letter([15, 8, 5, 0, 10][i], i % 2 == 0, i)).collect();
    seqs_of(&SETS, 0, if c.thorough { 5 } else { 3 }, |calls| for entry in [Entry::Direct, Entry::Handle] { c.case(|| format!("{entry:?} options {calls:?}"), |rec| {
        rec.steps(calls.len() + h.len());
        rec.state(&format!("{calls:?}"));
        let t = convert_with(&h, entry, options(calls), &[], &dir)?;
        diff("columns", &data(&t.cols), &data(&expected(&h, effect(calls, entry).sparse)))?;
        Ok(format!("{} columns", t.cols.len()))
    }) });
}
/// Times at and beyond the largest that a column can hold, and before 1970.
pub fn c17_times(c: &mut Ctx) {
    use std::time::Duration;
    let dir = Dir::new();
    let top = Duration::from_nanos(u64::MAX);
    let ts = [Duration::ZERO, Duration::from_nanos(1), top - Duration::from_nanos(1), top, top + Duration::from_nanos(1), top + Duration::from_secs(1), Duration::new(1 << 35, 0), Duration::new(i64::MAX as u64, 999_999_999)];
    let ds: Vec<Option<Duration>> = [None, Some(Duration::MAX)].into_iter().chain(ts.iter().map(|t| Some(*t))).collect();
    for entry in [Entry::Direct, Entry::Handle, Entry::Path] { for t in ts { for d in &ds { for at in 0..3usize { for batch in [1usize, 0] { c.case(|| format!("{entry:?} time {t:?} duration {d:?} in row {at}, batch size {batch}"), |rec| {
        let mut s: Vec<Snap> = (0..3).map(|i| letter(15, i == 1, i)).collect();
        s[at].ts = t; s[at].dur = *d;
        let cfg = Cfg { sparse: false, zstd: 0, batch, entry };
        if fits(&s[at]) { return check(rec, &s, cfg, &dir) }
        rec.steps(at);
        match no_panic("conversion", || convert(&s, cfg, &Map::new(), &dir))? { Err(e) if e.starts_with("push") || e.starts_with("convert") => Ok("error".into()), Err(e) => Err(e), Ok(t) => Err(format!("a time that does not fit is written as {:?}", t.cols.iter().filter(|c| c.name == "timestamp" || c.name == "duration").collect::<Vec<_>>())) }
    }) } } } } }
    // before 1970, which only a snapshot that is handed over directly can be
    for ago in [Duration::from_nanos(1), Duration::from_secs(1), Duration::from_secs(1 << 33)] { for v2 in [false, true] { for at in 0..3usize { c.case(|| format!("{ago:?} before 1970 in row {at}, v2={v2}"), |rec| {
        rec.steps(at);
        let s: Vec<Snapshot> = (0..3).map(|i| { let mut x = letter(15, v2, i).to(); if i == at { let t = std::time::SystemTime::UNIX_EPOCH - ago; match &mut x { Snapshot::V1(x) => x.systemtime = t, Snapshot::V2(x) => x.systemtime = t, } } x }).collect();
        let r = no_panic("writing", || -> Result<i64, String> {
            let mut schema = ParquetSchema::new();
            for x in &s { schema.push(x.clone()) }
            let mut w = schema.finalize(Sink::default(), ParquetOptions::new(), None).map_err(|e| e.to_string())?;
            for x in s { w.push(x).map_err(|e| e.to_string())? }
            w.finalize().map(|m| m.num_rows).map_err(|e| e.to_string())
        })?;
        match r { Err(_) => Ok("error".into()), Ok(n) => Err(format!("written as {n} rows")) }
    }) } } }
}
