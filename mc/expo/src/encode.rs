//! C16: encoding and decoding.
use crate::ctx::*;
use crate::model::*;
use metriken_exposition as ex;
use std::time::Duration;

fn decode_all_msgpack(b: &[u8], n: usize) -> Result<Vec<Snap>, String> {
    let mut cur = std::io::Cursor::new(b);
    let mut v = vec![];
    for i in 0..n { let s: ex::Snapshot = rmp_serde::from_read(&mut cur).map_err(|e| format!("snapshot {i} does not decode from MessagePack: {e}"))?; v.push(Snap::of(&s)) }
    if cur.position() != b.len() as u64 { return Err("bytes left over".into()) }
    Ok(v)
}
fn decode_all_json(b: &[u8], n: usize) -> Result<Vec<Snap>, String> {
    let mut v = vec![];
    for s in serde_json::Deserializer::from_slice(b).into_iter::<ex::Snapshot>() { v.push(Snap::of(&s.map_err(|e| format!("snapshot {} does not decode from JSON: {e}", v.len()))?)) }
    if v.len() != n { return Err(format!("{} snapshots decoded from JSON", v.len())) }
    Ok(v)
}
pub fn check(r: &mut Rec, s: &[Snap]) -> Result<String, String> {
    let (mut mp, mut js) = (vec![], vec![]);
    for x in s {
        r.step();
        r.state(x);
        let snap = x.to();
        if Snap::of(&snap) != *x { return Err("building changes the snapshot".into()) }
        let m = ex::Snapshot::to_msgpack(&snap).map_err(|e| format!("to MessagePack: {e}"))?;
        let j = ex::Snapshot::to_json(&snap).map_err(|e| format!("to JSON: {e}"))?;
        // the payload types encode by themselves too
        let (m2, j2) = match &snap { ex::Snapshot::V1(s) => (ex::Snapshot::to_msgpack(s).unwrap(), ex::Snapshot::to_json(s).unwrap()), ex::Snapshot::V2(s) => (ex::Snapshot::to_msgpack(s).unwrap(), ex::Snapshot::to_json(s).unwrap()) };
        for (w, got) in [("MessagePack", decode_all_msgpack(&m2, 1)?), ("JSON", decode_all_json(&j2, 1)?), ("slice", vec![Snap::of(&rmp_serde::from_slice(&m).map_err(|e| e.to_string())?)]), ("JSON slice", vec![Snap::of(&serde_json::from_slice(&j).map_err(|e| e.to_string())?)])] {
            if got[0] != *x { return Err(format!("{w} of the payload decodes to {:?}, expected {x:?}", got[0])) }
        }
        mp.extend(m);
        js.extend(j);
        for o in [[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2]] {
            let v = Snap::via(&mut snap.clone(), &o);
            if v != *x { return Err(format!("accessors return {v:?}, expected {x:?}")) }
        }
    }
    for (w, got) in [("MessagePack", decode_all_msgpack(&mp, s.len())?), ("JSON", decode_all_json(&js, s.len())?)] {
        for (i, (g, e)) in got.iter().zip(s).enumerate() { if g != e { return Err(format!("{w} snapshot {i} decodes to {g:?}, expected {e:?}")) } }
    }
    Ok(format!("{} bytes {} bytes", mp.len(), js.len()))
}
pub fn c16(c: &mut Ctx) {
    let one = |c: &mut Ctx, s: Snap| { c.case(|| format!("{s:?}"), |r| check(r, std::slice::from_ref(&s))) };
    let metas = [map(&[]), map(&[("k", "v")]), map(&[("", "")]), map(&[("secs", "1"), ("nanos", "2")]), map(&[("a\"\\\n\u{e9}", "\u{1F600}\0\t")]), map(&[("a", "1"), ("b", "2"), ("c", "3")]), map(&[("duration", "x"), ("metadata", "y"), ("systemtime", "z")])];
    let us = [0u64, 1, 31, 32, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    let is = [0i64, 1, -1, -32, -33, 127, 128, -128, -129, 255, 256, -32768, -32769, 65535, 65536, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, 1 << 53, -(1 << 53) - 1, i64::MIN, i64::MAX];
    let times = [Duration::ZERO, Duration::new(0, 1), Duration::new(0, 999_999_999), Duration::new(1, 0), Duration::new(1_700_000_000, 123_456_789), Duration::new(u32::MAX as u64 + 1, 5), Duration::new(1 << 62, 999_999_999)];
    let durs = [None, Some(Duration::ZERO), Some(Duration::new(0, 1)), Some(Duration::new(0, 999_999_999)), Some(Duration::new(1, 0)), Some(Duration::new(u32::MAX as u64 + 1, 7)), Some(Duration::MAX)];
    // headers
    for t in times { for d in durs { for m in &metas { let mut s = Snap::new(0, None); s.ts = t; s.dur = d; s.meta = m.clone(); one(c, s) } } }
    // values, one reading
    for v2 in [None, Some(5)] { for m in &metas { for name in ["c", "", "a/b \"\u{e9}"] {
        for v in us { let mut s = Snap::new(9, v2); s.c.push(r(name, v, m)); one(c, s) }
        for v in is { let mut s = Snap::new(9, v2); s.g.push(r(name, v, m)); one(c, s) }
        for p in 0..4 { for (g, n) in [(0, 1), (1, 3), (2, 64), (7, 10)] { let mut s = Snap::new(9, v2); s.h.push(r(name, Hist::new(g, n, p), m)); one(c, s) } }
    } } }
    // shapes: every combination of lists of up to k readings of each kind, in every order
    let k = if c.thorough { 3 } else { 2 };
    let lists = |alpha: usize| { let mut v: Vec<Vec<usize>> = vec![]; seqs(alpha, 0, k, |s| v.push(s.to_vec())); v };
    let (l2, l1) = (lists(3), lists(2));
    for v2 in [None, Some(5u64)] { for a in &l2 { for b in &l2 { for h in &l1 { for m in [0usize, 3] {
        let mut s = Snap::new(1_700_000_000_123_456_789, v2);
        s.meta = metas[m].clone();
        s.c = a.iter().map(|i| r(["c1", "c2", "x"][*i], us[17 - i], &metas[*i])).collect();
        s.g = b.iter().map(|i| r(["g1", "g2", "x"][*i], is[20 - i], &metas[*i])).collect();
        s.h = h.iter().map(|i| r(["h1", "x"][*i], Hist::new(1, 3, *i as u8 + 1), &metas[*i])).collect();
        one(c, s)
    } } } } }
    // long lists and long strings: length prefixes of every size
    for n in [0usize, 1, 15, 16, 31, 32, 255, 256, 65535, 65536] { for v2 in [None, Some(1)] {
        let mut s = Snap::new(3, v2); s.c.push(r(&"n".repeat(n), 1, &map(&[(&"k".repeat(n), &"v".repeat(n))]))); one(c, s);
        if n <= 256 || c.thorough { let mut s = Snap::new(3, v2); s.c = (0..n).map(|i| r(&format!("c{i}"), i as u64, &Map::new())).collect(); s.g = (0..n).map(|i| r(&format!("g{i}"), -(i as i64), &Map::new())).collect(); one(c, s) }
        if n <= 256 { let mut s = Snap::new(3, v2); s.meta = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect(); one(c, s) }
    } }
    // streams of up to three snapshots of mixed versions and sizes
    let mut letters = vec![];
    for v2 in [None, Some(77u64)] { for k in 0..4 {
        let mut s = Snap::new(1000 + k, v2);
        if k & 1 == 1 { s.c.push(r("c", 300, &metas[1])); s.meta = metas[3].clone() }
        if k & 2 == 2 { s.g.push(r("g", -300, &metas[0])); s.h.push(r("h", Hist::new(1, 3, 1), &metas[5])) }
        letters.push(s)
    } }
    seqs_of(&letters, 0, if c.thorough { 4 } else { 3 }, |s| c.case(|| format!("stream {s:?}"), |r| check(r, s)));
}
