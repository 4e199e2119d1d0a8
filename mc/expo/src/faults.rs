//! C18: damaged input, failing and irregular input/output.
use crate::convert::*;
use crate::ctx::*;
use crate::model::*;
use crate::sweeps::sweep::dict;
use crate::table::*;
use metriken_exposition as ex;
use metriken_exposition::*;
use std::io::{Error, ErrorKind, Read, Result as Io, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Read, Seek, Write, Flush }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// Fails once.
    Once(ErrorKind),
    /// Fails from here on.
    Always(ErrorKind),
    /// Interrupted, `n` times in a row.
    Intr(u8),
    /// Transfers a single byte.
    Short,
    /// A write that accepts nothing.
    Zero,
}
const BUDGET: usize = 200_000;
/// The environment of one conversion: numbers its operations and decides what they do.
#[derive(Default)]
struct Env { ops: Vec<Op>, plan: Vec<(usize, Fault)>, dead: Option<ErrorKind>, intr: u8, chunk: usize, wchunk: usize, out: Vec<u8>, hung: bool }
impl Env {
    /// None: proceed normally; Some(Ok(n)): transfer at most n bytes.
    fn op(&mut self, op: Op) -> Io<usize> {
        let i = self.ops.len();
        if i >= BUDGET { self.hung = true; return Err(Error::other("budget")) }
        let lim = match op { Op::Read => self.chunk, Op::Write => self.wchunk, _ => 0 };
        if self.intr > 0 { self.intr -= 1; return Err(ErrorKind::Interrupted.into()) }
        self.ops.push(op);
        if let Some(k) = self.dead { return Err(k.into()) }
        match self.plan.iter().find(|p| p.0 == i).map(|p| p.1) {
            None => Ok(lim),
            Some(Fault::Once(k)) => Err(k.into()),
            Some(Fault::Always(k)) => { self.dead = Some(k); Err(k.into()) }
            Some(Fault::Intr(n)) => { self.intr = n - 1; Err(ErrorKind::Interrupted.into()) }
            Some(Fault::Short) => Ok(1),
            Some(Fault::Zero) => Ok(usize::MAX),
        }
    }
}
#[derive(Clone)]
struct In { env: Arc<Mutex<Env>>, data: Arc<Vec<u8>>, pos: u64 }
impl Read for In {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        let lim = self.env.lock().unwrap().op(Op::Read)?;
        let rest = &self.data[(self.pos as usize).min(self.data.len())..];
        let n = rest.len().min(buf.len()).min(if lim == 0 { usize::MAX } else { lim });
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for In {
    fn seek(&mut self, to: SeekFrom) -> Io<u64> {
        self.env.lock().unwrap().op(Op::Seek)?;
        let p = match to { SeekFrom::Start(p) => p as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128 };
        if p < 0 { return Err(ErrorKind::InvalidInput.into()) }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
#[derive(Clone)]
struct Out(Arc<Mutex<Env>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> Io<usize> {
        let mut e = self.0.lock().unwrap();
        let lim = e.op(Op::Write)?;
        if lim == usize::MAX { return Ok(0) }
        let n = b.len().min(if lim == 0 { usize::MAX } else { lim });
        e.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Io<()> { self.0.lock().unwrap().op(Op::Flush).map(|_| ()) }
}
struct Run { result: Result<i64, String>, ops: Vec<Op>, out: Vec<u8> }
struct Setup { cfg: Cfg, chunk: usize, wchunk: usize, pos: u64 }
const PLAIN: Setup = Setup { cfg: Cfg { sparse: false, zstd: 0, batch: 0, entry: Entry::Handle }, chunk: 0, wchunk: 0, pos: 0 };
fn run(data: &[u8], st: &Setup, plan: &[(usize, Fault)]) -> Result<Run, String> {
    let env = Arc::new(Mutex::new(Env { plan: plan.to_vec(), chunk: st.chunk, wchunk: st.wchunk, ..Default::default() }));
    let i = In { env: env.clone(), data: Arc::new(data.to_vec()), pos: st.pos };
    let o = Out(env.clone());
    let result = no_panic("conversion", || MsgpackToParquet::with_options(st.cfg.options()).convert_file_handle(i, o))?.map_err(|e| e.to_string());
    let mut e = env.lock().unwrap();
    if e.hung { return Err(format!("conversion does not end: over {BUDGET} operations")) }
    Ok(Run { result, ops: std::mem::take(&mut e.ops), out: std::mem::take(&mut e.out) })
}
/// What the bytes mean: all snapshots, if they decode completely.
fn decode(b: &[u8]) -> Option<Vec<Snap>> {
    let mut cur = std::io::Cursor::new(b);
    let mut v = vec![];
    while (cur.position() as usize) < b.len() { match rmp_serde::from_read::<_, ex::Snapshot>(&mut cur) { Ok(s) => v.push(Snap::of(&s)), Err(_) => return None } }
    Some(v)
}
fn good(run: &Run, s: &[Snap], sparse: bool) -> Result<(), String> {
    match &run.result {
        Err(e) => return Err(format!("conversion fails: {e}")),
        Ok(n) if *n != s.len() as i64 => return Err(format!("reports {n} rows for {} snapshots", s.len())),
        _ => {}
    }
    let t = read(run.out.clone())?;
    diff("columns", &data(&t.cols), &data(&expected(s, sparse)))
}
fn by_meaning(b: &[u8], st: &Setup, rec: &mut Rec) -> Result<String, String> {
    let rest = &b[(st.pos as usize).min(b.len())..];
    let r = run(b, st, &[])?;
    rec.steps(r.ops.len());
    rec.state(&rest);
    match decode(rest) {
        Some(s) if !s.iter().all(fits) => match r.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("a time that does not fit its column is converted without error; {n} rows")) },
        Some(s) => { good(&r, &s, st.cfg.sparse)?; Ok(format!("{} rows", s.len())) }
        None => match r.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("damaged input is converted without error to {n} rows")) },
    }
}
const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::BrokenPipe, ErrorKind::OutOfMemory];

fn samples() -> Vec<Snap> {
    let mut a = Snap::new(1_700_000_000_000_000_001, None);
    a.meta = map(&[("s", "x")]);
    a.c.push(r("c", 300, &map(&[("k", "v")])));
    let mut b = Snap::new(1_700_000_001_000_000_002, Some(1_000_000_001));
    b.g.push(r("g", -70000, &Map::new()));
    b.h.push(r("h", Hist::new(0, 2, 1), &Map::new()));
    let mut d = Snap::new(2_000_000_000, Some(3));
    d.c.push(r("c", u64::MAX, &map(&[("metric", "m"), ("id", "1")])));
    vec![a, b, d]
}
pub fn c18(c: &mut Ctx) {
    let s = samples();
    let full = stream(&s);
    let bounds: Vec<usize> = (0..=s.len()).map(|n| stream(&s[..n]).len()).collect();
    let configs = [PLAIN.cfg, Cfg { sparse: true, zstd: 1, batch: 1, entry: Entry::Handle }, Cfg { sparse: false, zstd: -1, batch: 2, entry: Entry::Handle }];
    // truncation at every byte, read in pieces of several sizes
    for cfg in configs { for chunk in [0usize, 1, 7] { for n in 0..=full.len() {
        c.case(|| format!("truncated to {n} of {} bytes, reads of {chunk}, {cfg:?}", full.len()), |rec| {
            let st = Setup { cfg, chunk, ..PLAIN };
            let r = run(&full[..n], &st, &[])?;
            rec.steps(r.ops.len());
            match bounds.iter().position(|b| *b == n) {
                Some(k) => { good(&r, &s[..k], cfg.sparse)?; Ok(format!("{k} rows")) }
                None => match r.result { Err(_) => Ok("error".into()), Ok(k) => Err(format!("input cut inside a snapshot is converted without error to {k} rows")) },
            }
        })
    } } }
    // the same around the sizes where buffered reading refills
    let big: Vec<Snap> = (0..40).map(|i| { let mut x = s[i % 3].clone(); x.c.push(r(&"n".repeat(400), i as u64, &map(&[("p", &"q".repeat(i))]))); x }).collect();
    let bigb = stream(&big);
    let bigbounds: Vec<usize> = (0..=big.len()).map(|n| stream(&big[..n]).len()).collect();
    let near: Vec<usize> = (0..=bigb.len()).filter(|n| c.thorough || [4096usize, 8192, 16384].iter().any(|k| n.abs_diff(*k) < 40) || bigbounds.iter().any(|b| n.abs_diff(*b) <= 1)).collect();
    for n in near { c.case(|| format!("{n} of {} bytes", bigb.len()), |rec| {
        let r = run(&bigb[..n], &PLAIN, &[])?;
        rec.steps(r.ops.len());
        match bigbounds.iter().position(|b| *b == n) {
            Some(k) => { good(&r, &big[..k], false)?; Ok(format!("{k} rows")) }
            None => match r.result { Err(_) => Ok("error".into()), Ok(k) => Err(format!("input cut inside a snapshot is converted without error to {k} rows")) },
        }
    }) }
    // every byte replaced, removed, doubled or preceded by something else
    let marks = [0x00u8, 0x01, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x92, 0x95, 0x96, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc6, 0xc7, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd3, 0xd4, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff];
    for at in 0..full.len() { for v in 0..=255u8 {
        if v == full[at] || (!c.thorough && !marks.contains(&v) && v != full[at].wrapping_add(1) && v != full[at].wrapping_sub(1)) { continue }
        let mut b = full.clone(); b[at] = v;
        for sparse in [false, true] { if sparse && !c.thorough && v % 4 != 0 { continue } c.case(|| format!("byte {at} = {v:#04x}, sparse={sparse}"), |r| by_meaning(&b, &Setup { cfg: Cfg { sparse, ..PLAIN.cfg }, ..PLAIN }, r)) }
    } }
    for at in 0..full.len() {
        let mut b = full.clone(); b.remove(at); c.case(|| format!("without byte {at}"), |r| by_meaning(&b, &PLAIN, r));
        for v in [full[at], 0x00, 0xc0, 0xff] { let mut b = full.clone(); b.insert(at, v); c.case(|| format!("{v:#04x} before byte {at}"), |r| by_meaning(&b, &PLAIN, r)) }
    }
    for v in 0..=255u8 { let mut b = full.clone(); b.push(v); c.case(|| format!("{v:#04x} at the end"), |r| by_meaning(&b, &PLAIN, r)); c.case(|| format!("only {v:#04x}"), |r| by_meaning(&[v], &PLAIN, r)) }
    // anything short after, before, between or instead of the snapshots: every two bytes, up to
    // four of those that commonly end or begin files, and every string the source mentions
    let mut junk: Vec<Vec<u8>> = vec![];
    seqs_of(&[0x00u8, 0x09, 0x0a, 0x0d, 0x1a, 0x20, 0x90, 0xc0, 0xff], 3, if c.thorough { 5 } else { 4 }, |t| junk.push(t.to_vec()));
    junk.extend([&b"\xef\xbb\xbf"[..], b"\x1f\x8b", b"\x28\xb5\x2f\xfd", b"PAR1", b"null", b"{}", b"[]", b"EOF"].map(|t| t.to_vec()));
    junk.extend(dict().strs.iter().map(|t| t.as_bytes().to_vec()));
    for a in 0..=255u8 { for b in 0..=255u8 { junk.push(vec![a, b]) } }
    for t in &junk { for at in [None, Some(full.len()), Some(0), Some(bounds[1])] {
        let text = t.iter().take_while(|v| [0x00u8, 0x09, 0x0a, 0x0d, 0x1a, 0x20, 0x80, 0x90, 0xc0, 0xc1, 0xff].contains(v)).count() == t.len();
        if !c.thorough && t.len() != 3 && !text && at.is_some_and(|n| n != full.len()) { continue }
        c.case(|| format!("{t:02x?} {}", at.map_or("alone".into(), |n| format!("at {n}"))), |r| {
            let b = match at { None => t.clone(), Some(n) => [&full[..n], &t[..], &full[n..]].concat() };
            by_meaning(&b, &PLAIN, r)
        })
    } }
    // every header that announces more than there is
    for h in [vec![0xdcu8, 0xff, 0xff], vec![0xdd, 0xff, 0xff, 0xff, 0xff], vec![0xde, 0xff, 0xff], vec![0xdf, 0xff, 0xff, 0xff, 0xff], vec![0xda, 0xff, 0xff], vec![0xdb, 0xff, 0xff, 0xff, 0xff], vec![0xc6, 0xff, 0xff, 0xff, 0xff], vec![0xc9, 0xff, 0xff, 0xff, 0xff, 1]] {
        for b in &bounds { let mut x = full[..*b].to_vec(); x.extend(&h); c.case(|| format!("{} bytes and the header {h:02x?}", b), |r| by_meaning(&x, &PLAIN, r)) }
    }
    // nesting
    for n in [1usize, 10, 100, 1000, 1024, 1025, 5000, 100_000] { for v in [0x91u8, 0x81, 0x95] { c.case(|| format!("{n} nested {v:#04x}"), |rec| { rec.step(); match run(&vec![v; n], &PLAIN, &[])?.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("converted to {n} rows")) } }) } }
    // every start position
    for chunk in [0usize, 1, 13] { for pos in 0..=full.len() as u64 + 2 { c.case(|| format!("positioned at {pos} of {}, reads of {chunk}", full.len()), |r| by_meaning(&full, &Setup { chunk, pos, ..PLAIN }, r)) } }
    for k in [1usize, 7, 16, 17, 39] { c.case(|| format!("positioned at snapshot {k} of a large input"), |r| by_meaning(&bigb, &Setup { pos: bigbounds[k] as u64, ..PLAIN }, r)) }
    // every size of reads and writes
    for cfg in configs { for n in 1..=full.len() + 1 { c.case(|| format!("reads of {n}, {cfg:?}"), |rec| { let r = run(&full, &Setup { cfg, chunk: n, ..PLAIN }, &[])?; rec.steps(r.ops.len()); good(&r, &s, cfg.sparse)?; Ok("same".into()) }) }
        for n in (1..=64).chain([100, 255, 512, 1000, 4095, 4096]) { c.case(|| format!("writes of {n}, {cfg:?}"), |rec| { let r = run(&full, &Setup { cfg, wchunk: n, ..PLAIN }, &[])?; rec.steps(r.ops.len()); good(&r, &s, cfg.sparse)?; Ok("same".into()) }) } }
    // a fault at every operation
    let mut setups: Vec<(&str, &Vec<u8>, &Vec<Snap>, Setup)> = vec![];
    for cfg in configs { for chunk in [0usize, 1, 7, bounds[1], bounds[2]] { setups.push(("small", &full, &s, Setup { cfg, chunk, wchunk: if chunk == 7 { 100 } else { 0 }, pos: 0 })) }
        for chunk in [0usize, 1000] { setups.push(("large", &bigb, &big, Setup { cfg, chunk, ..PLAIN })) } }
    for (w, b, s, st) in &setups {
        // the operations of the run without faults; none if it does not even finish, which the cases above report
        let ops = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(b, st, &[]).map(|r| r.ops).unwrap_or_default())).unwrap_or_default();
        for (i, op) in ops.iter().enumerate() {
            for k in KINDS { for f in [Fault::Once(k), Fault::Always(k)] {
                c.case(|| format!("{w} {:?} reads of {} writes of {}: {f:?} at operation {i} ({op:?})", st.cfg, st.chunk, st.wchunk), |rec| {
                    let r = run(b, st, &[(i, f)])?; rec.steps(r.ops.len()); rec.state(&(i, format!("{f:?}")));
                    match r.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("a failing {op:?} goes unreported; {n} rows")) }
                })
            } }
            let benign: &[Fault] = match op { Op::Read => &[Fault::Intr(1), Fault::Intr(3), Fault::Short], Op::Write => &[Fault::Short], _ => &[] };
            for f in benign { c.case(|| format!("{w} {:?} reads of {} writes of {}: {f:?} at operation {i} ({op:?})", st.cfg, st.chunk, st.wchunk), |rec| {
                let r = run(b, st, &[(i, *f)])?; rec.steps(r.ops.len()); rec.state(&(i, format!("{f:?}")));
                good(&r, s, st.cfg.sparse)?; Ok("same".into())
            }) }
            // an interrupted write or seek may be reported or retried, but not lost
            let either: &[Fault] = match op { Op::Write => &[Fault::Intr(1), Fault::Zero], Op::Read => &[], _ => &[Fault::Intr(1)] };
            for f in either { c.case(|| format!("{w} {:?} reads of {} writes of {}: {f:?} at operation {i} ({op:?})", st.cfg, st.chunk, st.wchunk), |rec| {
                let r = run(b, st, &[(i, *f)])?; rec.steps(r.ops.len());
                if r.result.is_err() { return Ok("error".into()) }
                good(&r, s, st.cfg.sparse)?; Ok("same".into())
            }) }
        }
    }
    // pairs of faults
    for (w, b, s, st) in &setups {
        if (st.chunk != 7 && st.chunk != bounds[1] && st.chunk != 0) || *w == "large" { continue }
        let n = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(b, st, &[]).map(|r| r.ops).unwrap_or_default())).unwrap_or_default();
        for i in 0..n.len() { for j in i + 1..n.len() + 1 {
            if !c.thorough && st.chunk == 7 && (st.cfg.sparse || st.cfg.zstd != 0) { continue }
            if n[i] == Op::Read { for f in [Fault::Intr(1), Fault::Short] { for g in [Fault::Intr(2), Fault::Short] {
                c.case(|| format!("{:?} reads of {}: {f:?} at {i}, {g:?} at {j}", st.cfg, st.chunk), |rec| {
                    let r = run(b, st, &[(i, f), (j, g)])?; rec.steps(r.ops.len());
                    let hit = r.ops.get(j).copied();
                    if r.result.is_err() && g == Fault::Intr(2) && hit != Some(Op::Read) { return Ok("error".into()) }
                    good(&r, s, st.cfg.sparse)?; Ok("same".into())
                }) } }
                c.case(|| format!("{:?} reads of {}: interrupted at {i}, failing at {j}", st.cfg, st.chunk), |rec| {
                    let r = run(b, st, &[(i, Fault::Intr(1)), (j, Fault::Once(ErrorKind::Other))])?; rec.steps(r.ops.len());
                    if r.ops.len() <= j { good(&r, s, st.cfg.sparse)?; return Ok("not reached".into()) }
                    match r.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("a failing operation goes unreported; {n} rows")) }
                })
            }
        } }
    }
    // the writer by itself
    for cfg in configs { for rows in 0..4usize { for at in 0..40usize { for f in [Fault::Once(ErrorKind::Other), Fault::Always(ErrorKind::Other), Fault::Zero, Fault::Short] {
        c.case(|| format!("ParquetWriter {cfg:?} {rows} rows {f:?} at operation {at}"), |rec| {
            let env = Arc::new(Mutex::new(Env { plan: vec![(at, f)], ..Default::default() }));
            let out = no_panic("writing", || -> Result<i64, String> {
                let mut sc = ParquetSchema::new();
                for i in 0..rows { sc.push(s[i % 3].to()) }
                let mut w = sc.finalize(Out(env.clone()), cfg.options(), None).map_err(|e| e.to_string())?;
                for i in 0..rows { w.push(s[i % 3].to()).map_err(|e| e.to_string())? }
                w.finalize().map_err(|e| e.to_string()).map(|m| m.num_rows)
            })?;
            let mut e = env.lock().unwrap();
            rec.steps(e.ops.len());
            let hit = e.ops.get(at).copied();
            let run = Run { result: out, ops: vec![], out: std::mem::take(&mut e.out) };
            match (f, hit) {
                (Fault::Short, _) | (_, None) | (Fault::Zero, Some(Op::Flush)) => { good(&run, &s[..rows.min(3)], cfg.sparse)?; Ok("same".into()) }
                _ => match run.result { Err(_) => Ok("error".into()), Ok(n) => Err(format!("a failing write goes unreported; {n} rows")) },
            }
        })
    } } } }
    // paths
    let dir = Dir::new();
    let conv = |i: &std::path::Path, o: &std::path::Path| no_panic("conversion", || MsgpackToParquet::new().convert_file_path(i, o).map_err(|e| e.to_string()));
    let err = |x: Result<i64, String>| match x { Err(_) => Ok("error".to_string()), Ok(n) => Err(format!("succeeds with {n} rows")) };
    let (i, o) = (dir.0.join("i"), dir.0.join("o"));
    let put = || std::fs::write(&i, &full).unwrap();
    c.case(|| "input does not exist".into(), |_| err(conv(&dir.0.join("none"), &o)?));
    c.case(|| "input is a directory".into(), |_| err(conv(&dir.0, &o)?));
    c.case(|| "output cannot be created".into(), |_| { put(); err(conv(&i, &dir.0.join("no/such/dir"))?) });
    c.case(|| "output is a directory".into(), |_| { put(); err(conv(&i, &dir.0)?) });
    c.case(|| "output device is full".into(), |_| { put(); if std::path::Path::new("/dev/full").exists() { err(conv(&i, std::path::Path::new("/dev/full"))?) } else { Ok("no such device".into()) } });
    for n in 0..=full.len() { c.case(|| format!("a file of {n} bytes"), |rec| {
        rec.step();
        std::fs::write(&i, &full[..n]).unwrap();
        let r = conv(&i, &o)?;
        match bounds.iter().position(|b| *b == n) {
            Some(k) => { good(&Run { result: r, ops: vec![], out: std::fs::read(&o).unwrap() }, &s[..k], false)?; Ok(format!("{k} rows")) }
            None => err(r),
        }
    }) }
}
