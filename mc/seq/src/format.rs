//! C13: formatted names, parsed back.
use crate::ctx::*;
use metriken::{metric, metrics, Counter, Format, Lazy, LazyCounter, MetricBuilder, MetricEntry};
use std::collections::BTreeMap;

#[metric(name = "fmt/plain")]
static S0: Counter = Counter::new();
#[metric(name = "fmt/one", metadata = { a = "x" })]
static S1: Counter = Counter::new();
#[metric(name = "fmt/two", description = "d", metadata = { a = "", b = "{,}=" })]
static S2: Counter = Counter::new();
#[metric(name = "fmt/esc", metadata = { a = "q\"q", b = "b\\b", c = "n\nn", d = "\\\"\n" })]
static S3: Counter = Counter::new();
#[metric(name = "fmt/lazy", metadata = { a = "\", b=\"x" })]
static S4: LazyCounter = LazyCounter::new(Counter::new);
fn custom(e: &MetricEntry, f: Format) -> String { match f { Format::Simple => format!("{}!{}", e.name(), e.metadata().len()), Format::Prometheus => format!("{{{:?}}}", e.description()), _ => "?".into() } }
#[metric(name = "fmt/custom", description = "dd", metadata = { a = "x" }, formatter = custom)]
static S5: Counter = Counter::new();

/// Parses `name` or `name{label="value",...}` as the Prometheus text format does.
pub fn parse(s: &str) -> Result<(String, BTreeMap<String, String>), String> {
    let c: Vec<char> = s.chars().collect();
    let Some(b) = c.iter().position(|x| *x == '{') else { return Ok((s.to_string(), BTreeMap::new())) };
    let name: String = c[..b].iter().collect();
    let mut m = BTreeMap::new();
    let mut i = b + 1;
    let ws = |i: &mut usize| while *i < c.len() && (c[*i] == ' ' || c[*i] == '\t') { *i += 1 };
    loop {
        ws(&mut i);
        if i < c.len() && c[i] == '}' { i += 1; break }
        let st = i;
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
        let key: String = c[st..i].iter().collect();
        if key.is_empty() { return Err(format!("label name expected at {st}")) }
        ws(&mut i);
        if c.get(i) != Some(&'=') { return Err(format!("= expected at {i}")) }
        i += 1;
        ws(&mut i);
        if c.get(i) != Some(&'"') { return Err(format!("\" expected at {i}")) }
        i += 1;
        let mut v = String::new();
        loop {
            match c.get(i) {
                None | Some('\n') => return Err("unterminated label value".into()),
                Some('"') => { i += 1; break }
                Some('\\') => { match c.get(i + 1) { Some('n') => v.push('\n'), Some('"') => v.push('"'), Some('\\') => v.push('\\'), x => return Err(format!("escape {x:?}")) } i += 2 }
                Some(x) => { v.push(*x); i += 1 }
            }
        }
        if m.insert(key.clone(), v).is_some() { return Err(format!("label {key} twice")) }
        ws(&mut i);
        match c.get(i) { Some(',') => i += 1, Some('}') => { i += 1; break } x => return Err(format!("{x:?} after a label")) }
    }
    if i != c.len() { return Err("text after the closing brace".into()) }
    Ok((name, m))
}
pub fn verify(e: &MetricEntry, name: &str, want: &BTreeMap<String, String>) -> Result<String, String> {
    if e.formatted(Format::Simple) != name { return Err(format!("simple format is {:?}", e.formatted(Format::Simple))) }
    let p = e.formatted(Format::Prometheus);
    if want.is_empty() { return if p == name { Ok(p) } else { Err(format!("formatted {p:?} without metadata")) } }
    if !p.contains('{') { return Err(format!("formatted {p:?}: no labels")) }
    match parse(&p) {
        Ok((n, m)) if n == name && m == *want => Ok(p),
        Ok(x) => Err(format!("formatted {p:?}, which parses as {x:?}, expected {name:?} {want:?}")),
        Err(x) => Err(format!("formatted {p:?}, which does not parse: {x}")),
    }
}
pub fn c13(c: &mut Ctx) {
    let st = |n: &str| metrics().static_metrics().iter().find(|e| e.name() == n).expect("static entry missing");
    let kv = |v: &[(&str, &str)]| -> BTreeMap<String, String> { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    c.case(|| "static, no metadata".into(), |_| verify(st("fmt/plain"), "fmt/plain", &kv(&[])));
    c.case(|| "static, one label".into(), |_| verify(st("fmt/one"), "fmt/one", &kv(&[("a", "x")])));
    c.case(|| "static, two labels".into(), |_| verify(st("fmt/two"), "fmt/two", &kv(&[("a", ""), ("b", "{,}=")])));
    c.case(|| "static, escapes".into(), |_| verify(st("fmt/esc"), "fmt/esc", &kv(&[("a", "q\"q"), ("b", "b\\b"), ("c", "n\nn"), ("d", "\\\"\n")])));
    c.case(|| "static lazy".into(), |_| { let r = verify(st("fmt/lazy"), "fmt/lazy", &kv(&[("a", "\", b=\"x")])); if Lazy::get(&S4).is_some() { return Err("formatting initialised it".into()) } r });
    c.case(|| "static, custom formatter".into(), |_| { let e = st("fmt/custom"); let (a, b) = (e.formatted(Format::Simple), e.formatted(Format::Prometheus)); if a == "fmt/custom!1" && b == "{Some(\"dd\")}" { Ok(a + &b) } else { Err(format!("formatted {a:?} and {b:?}")) } });
    let keys = ["a", "b", "le"];
    // every value of up to k characters over the characters that matter, for one label
    let chars = ['x', '"', '\\', '\n', '{', '}', ',', '=', ' ', 'n', '\u{e9}'];
    let names = ["n", "a/b", "m_x:y"];
    let run = |c: &mut Ctx, name: &'static str, m: BTreeMap<String, String>| c.case(|| format!("{name} {m:?}"), |r| {
        r.step();
        r.state(&m);
        let mut b = MetricBuilder::new(name);
        for (k, v) in &m { b = b.metadata(k.clone(), v.clone()) }
        let _h = b.build(Counter::new());
        let v = metrics();
        let e = v.dynamic_metrics().find(|e| e.name() == name).ok_or("entry missing")?;
        verify(e, name, &m)
    });
    seqs_of(&chars, 0, if c.thorough { 6 } else { 5 }, |s| { let v: String = s.iter().collect(); run(c, "n", BTreeMap::from([("a".to_string(), v)])) });
    // every map over three keys and a value alphabet
    let vals = ["", "x", "\"", "\\", "\n", "\\n", "{", "}", ",", "=", "\", b=\"y", "\\\"", "x\\", "a=\"b\"", "\u{e9} \t"];
    for name in names { for ks in subsets(3) {
        seqs_of(&vals, ks.len(), ks.len(), |s| run(c, name, ks.iter().zip(s).map(|(k, v)| (keys[*k].to_string(), v.to_string())).collect()));
    } }
    // custom formatters see the entry and the format
    for v in vals { for d in [None, Some("d"), Some("")] { c.case(|| format!("dynamic custom formatter {v:?} {d:?}"), |_| {
        let mut b = MetricBuilder::new("n").formatter(custom).metadata("a", v);
        if let Some(d) = d { b = b.description(d) }
        let _h = b.build(Counter::new());
        let vw = metrics();
        let e = vw.dynamic_metrics().find(|e| e.name() == "n").ok_or("entry missing")?;
        let (a, p) = (e.formatted(Format::Simple), e.formatted(Format::Prometheus));
        if a == "n!1" && p == format!("{{{d:?}}}") { Ok(a + &p) } else { Err(format!("formatted {a:?} and {p:?}")) }
    }) } }
}
