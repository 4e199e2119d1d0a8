//! Value and string sweeps shared by the sequential engines.
#![allow(dead_code)]

/// Constants that occur in the sources under test, as found by the driver.
pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<String> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![] };
        let text = std::env::var("MC_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            if let Some(n) = l.strip_prefix('n') { if let Ok(n) = n.parse() { d.ints.push(n) } }
            if let Some(h) = l.strip_prefix('s') { let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect(); if let Ok(s) = String::from_utf8(b) { d.strs.push(s) } }
        }
        d
    })
}
/// Every power of two and its neighbours.
pub fn u64s() -> Vec<u64> {
    let mut v = vec![0, u64::MAX, u64::MAX - 1, 10, 100, 1000, 1_000_000, 1_000_000_000];
    for n in &dict().ints { v.extend([n.wrapping_sub(1), *n, n.wrapping_add(1)]) }
    for k in 0..64 { let p = 1u64 << k; v.extend([p - 1, p, p + 1]) }
    v.sort(); v.dedup();
    v
}
/// The same with both signs.
pub fn i64s() -> Vec<i64> {
    let mut v: Vec<i64> = u64s().into_iter().flat_map(|u| [u as i64, (u as i64).wrapping_neg()]).collect();
    v.sort(); v.dedup();
    v
}
const LENGTHS: [usize; 34] = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 65535, 65536];
pub fn lengths() -> Vec<usize> {
    let mut v = LENGTHS.to_vec();
    for n in &dict().ints { if *n <= 100_000 { v.extend([(*n as usize).saturating_sub(1), *n as usize, *n as usize + 1]) } }
    v.sort(); v.dedup();
    v
}
/// Strings of every length class, with every ASCII character alone, between
/// letters, in front and behind, and with characters of every encoded length.
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = lengths().iter().map(|n| "a".repeat(*n)).collect();
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend(['\u{80}', '\u{85}', '\u{a0}', '\u{e9}', '\u{df}', '\u{130}', '\u{301}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{202e}', '\u{4e2d}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}']);
    for c in &chars { v.push(c.to_string()); v.push(format!("a{c}b")); v.push(format!("a{c}")); v.push(format!("{c}b")); v.push(format!("{c}{c}")) }
    for s in ["null", "true", "-1", "0", "1.0", "\\n", "\\\\n", "Upper", "UPPER", "a b", " a ", "a//b", "/a", "a/", "..", "description", "name", "metric", "unit", "id", "timestamp", "duration", "metric_type", "grouping_power", "max_value_power", "a:buckets", "a:bucket_counts", "$x", "%s", "{}", "{0}", "a,b", "k=v", "\u{e9}\u{e9}\u{e9}", "'", "<a>", "&amp;", "\r\n", "a\r\nb"] { v.push(s.to_string()) }
    for n in [31usize, 32, 63, 64, 127, 128, 255, 256, 1000] { v.push("\u{e9}".repeat(n)); v.push(format!("{}\"", "x".repeat(n))); v.push(format!("{}\n{}", "x".repeat(n), "y".repeat(n))) }
    for s in &dict().strs { v.push(s.clone()); v.push(format!("{s}x")); v.push(format!("x{s}")); v.push(s.to_uppercase()) }
    for s in ["name", "op", "state", "direction", "id", "unit", "metric", "description", "grouping_power", "metric_type"] { v.extend(near(s)) }
    v.sort(); v.dedup();
    v
}
/// Strings that are easily taken for `s`.
pub fn near(s: &str) -> Vec<String> {
    let mut v = vec![s.to_uppercase(), s.to_lowercase(), format!("{s}_"), format!("_{s}"), format!("__{s}"), format!("{s}s"), format!(" {s}"), format!("{s} "), format!("{s}\t"), format!("{s}\0"), format!("\"{s}\""), format!(".{s}"), format!("{s}."), format!("{s}.x"), format!("x.{s}"), format!("x_{s}"), format!("{s}_x"), format!("{s}0"), format!("{s}1"), format!("{s}/"), format!("{s}:"), format!("@{s}"), format!("{s}\u{301}"),
        s.replace('_', "-"), s.replace('_', ""), s.replace('_', "."), s.replace('-', "_"), s.chars().rev().collect(), s.chars().skip(1).collect(), { let mut x: Vec<char> = s.chars().collect(); x.pop(); x.into_iter().collect() }, { let mut x = s.chars(); x.next().map(|c| c.to_uppercase().chain(x).collect::<String>()).unwrap_or_default() }];
    v.retain(|x| x != s && x.len() < 200);
    v.sort(); v.dedup();
    v
}
/// Counts of things, up to `max`.
pub fn counts(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).chain([48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025]).collect();
    for n in &dict().ints { if *n <= max as u64 { v.extend([*n as usize, *n as usize + 1]) } }
    v.retain(|n| *n <= max);
    v.sort(); v.dedup();
    v
}
