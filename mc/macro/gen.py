#!/usr/bin/env python3
"""Generates the programs that decide C10.

gen.py <tier> <dir> <dictionary>
                      writes <dir>/ok (a package whose declarations must all be
                      accepted and registered faithfully), <dir>/renamed (the
                      same with the metriken dependency under another name) and
                      <dir>/bad.rs + bad.json (declarations that must all be
                      rejected, one per line).
"""
import itertools, json, os, sys

ARGS = ["name", "description", "metadata", "formatter", "crate"]
# (text, value, is a byte string for the table)
NAMES = [lambda i: ('"n/%d"' % i, '"n/%d"' % i), lambda i: ('NAME_CONST', 'NAME_CONST'), lambda i: ('concat!("x", "%d")' % i, '"x%d"' % i),
         lambda i: ('"same"', '"same"'), lambda i: ('""', '""'), lambda i: (r'"q\"\n\u{e9}%d"' % i, r'"q\"\n\u{e9}%d"' % i), lambda i: ('r#"raw "%d""#' % i, r'"raw \"%d\""' % i),
         lambda i: ('name_fn()', '"from a const fn"')]
DESCS = [('"a description"', '"a description"'), ('""', '""'), ('DESC_CONST', 'DESC_CONST'), (r'"l1\nl2 \u{1F600}"', r'"l1\nl2 \u{1F600}"'), ('concat!("a", "b")', '"ab"')]
METAS = [('{}', []), ('{ k = "v" }', [("k", '"v"')]), ('{ "k" = "v" }', [("k", '"v"')]), ('{ k = "v", }', [("k", '"v"')]),
         ('{ k = "v", l = "w" }', [("k", '"v"'), ("l", '"w"')]), ('{ l = "w", "k.a-b" = "v" }', [("l", '"w"'), ("k.a-b", '"v"')]),
         ('{ "" = "" }', [("", '""')]), ('{ name = "x", description = "y", metadata = "z", formatter = "f" }', [("name", '"x"'), ("description", '"y"'), ("metadata", '"z"'), ("formatter", '"f"')]),
         ('{ c = DESC_CONST, d = concat!("p", "q") }', [("c", "DESC_CONST"), ("d", '"pq"')]), (r'{ "\u{e9}\"" = "\n" }', [(r'\u{e9}\"', r'"\n"')]),
         ('{ z9 = "1", y8 = "2", x7 = "3", w6 = "4", v5 = "5", u4 = "6", t3 = "7", s2 = "8" }', [(k, '"%d"' % (i + 1)) for i, k in enumerate(["z9", "y8", "x7", "w6", "v5", "u4", "t3", "s2"])]),
         ('{ ' + ', '.join('m%d = "%d"' % (i, i * 7) for i in range(40)) + ' }', [("m%d" % i, '"%d"' % (i * 7)) for i in range(40)]),
         ('{ K = "upper", k = "lower" }', [("K", '"upper"'), ("k", '"lower"')])]
# identifiers as keys, one at a time and together
KEYS = ["_k", "k_", "k__", "__k", "_k_", "a_b", "a__b", "k9", "k_9", "_9", "Ka", "KAY", "aB", "\u00e9", "k\u00e9_", "type_", "self_", "crate_", "k" * 70, "metric", "unit", "id", "x_total", "Default", "Some", "None", "Ok", "Err", "String", "Vec", "Option", "u64", "str", "main", "std", "core", "get", "len", "iter", "macro_rules", "union", "auto", "raw", "dyn_", "async_", "k0", "k1"]
METAS += [('{ %s = "of %d" }' % (k, i), [(k, '"of %d"' % i)]) for i, k in enumerate(KEYS)]
METAS.append(('{ ' + ', '.join('%s = "all %d"' % (k, i) for i, k in enumerate(KEYS)) + ' }', [(k, '"all %d"' % i) for i, k in enumerate(KEYS)]))
# texts in every place a text can be
def lit(s): return '"' + "".join(c if c.isascii() and c.isalnum() else "\\u{%x}" % ord(c) for c in s) + '"'
TEXTS = ["a", " ", " a", "a ", "a b", "\t", "\n", "\r\n", "\0", '"', "'", "\\", "\\n", "{", "}", "{}", "{0}", "{{", "%s", "$x", "#", "r#a", "//", "/*", "*/", "a/b", "a.b", "a-b", "a_b", "a_", "_a", "__", "A", "Ab", "aB", "AB", "0", "-1", "null", "true", "\u00e9", "e\u0301", "\u202e", "\ufeff", "\U0001f600", "\U0010ffff", "name", "description", "metadata", "formatter", "crate", "metric", "metriken", "M", "a" * 63, "a" * 64, "a" * 65, "a" * 255, "a" * 256, "a" * 257, "b" * 1024, "b" * 1025, "c" * 65536, ".", ",", ";", ":", "::", "=", "a=b", "a,b", "<a>", "&amp;", "?", "!", "~", "`", "@", "^", "|", "(", ")", "[", "]", "+"]
def texts():
    out = list(TEXTS)
    for l in open(sys.argv[3]):
        if l.startswith("s"): out.append(bytes.fromhex(l[1:].strip()).decode("utf-8", "replace"))
    return list(dict.fromkeys(t for t in out if t))
FMTS = [("fmt_a", "fmt_a"), ("crate::fmts::b", "crate::fmts::b"), ('|e, f| format!("closure {} {:?}", e.name(), matches!(f, metriken::Format::Simple))', "fmt_closure"), ("metriken::default_formatter", "metriken::default_formatter"), ("fmts::b", "crate::fmts::b")]
CRATES = ["metriken", "::metriken", "crate::bonus", "crate::bonus::deep"]
TYPES = [("Counter", "Counter::new()"), ("Counter", "Counter::with_value(41)"), ("Gauge", "Gauge::with_value(-5)"), ("AtomicHistogram", "AtomicHistogram::new(2, 20)"), ("RwLockHistogram", "RwLockHistogram::new(0, 2)"),
         ("LazyCounter", "LazyCounter::new(Counter::default)"), ("LazyGauge", "LazyGauge::new(|| Gauge::with_value(3))"), ("Lazy<AtomicHistogram>", "Lazy::new(|| AtomicHistogram::new(1, 8))"),
         ("Own", "Own::new(6)"), ("Generic<Gauge, 3>", "Generic::<Gauge, 3>::new(Gauge::with_value(1))"), ("crate::Own", "{ const X: u64 = 2 + 3; crate::Own::new(X) }")]
IDENTS = ["M", "lower", "_HIDDEN", "\u00dcN\u00cd", "A", "Some_", "name", "metric", "description", "metadata", "formatter", "COUNTER", "METRICS", "A_", "A__", "__A", "_9", "A9", "A_9", "aB", "type_", "\u00e9", "Z" * 70, "None_", "String_", "main", "get"]
PLACES = ["module", "function", "block", "const", "impl", "macro", "closure", "generic", "deep", "twice", "attrs", "trait", "macroarg", "loop", "exported", "section", "unmangled", "cfg", "attrs2"]
VIS = ["pub", "pub(crate)", "pub(super)"]

def attr(i, order, ch):
    """The attribute text and the expectation."""
    name, desc, meta, fmt = None, None, [], None
    parts = []
    for a in order:
        if a == "name":
            t, name = NAMES[ch["name"] % len(NAMES)](i); parts.append("name = " + t)
        elif a == "description":
            t, desc = DESCS[ch["desc"] % len(DESCS)]; parts.append("description = " + t)
        elif a == "metadata":
            t, meta = METAS[ch["meta"] % len(METAS)]; parts.append("metadata = " + t)
        elif a == "formatter":
            t, fmt = FMTS[ch["fmt"] % len(FMTS)]; parts.append("formatter = " + t)
        elif a == "raw":
            t = ch["texts"]; name, desc, meta = lit(t[0]), lit(t[1]), [(lit(t[2])[1:-1], lit(t[3]))]; parts.append("name = %s, description = %s, metadata = { %s = %s }" % (name, desc, lit(t[2]), lit(t[3])))
        elif a == "crate":
            parts.append("crate = " + CRATES[ch["crate"] % len(CRATES)])
    return ", ".join(parts), name, desc, meta, fmt

def decl(i, order, ch):
    """One module with one declaration, and its row of the table."""
    body, name, desc, meta, fmt = attr(i, order, ch)
    path = ["metric", "metriken::metric", "::metriken::metric", "crate::bonus::metric"][ch["path"] % 4]
    # a static of that name would be ambiguous with the macro
    if IDENTS[ch["ident"] % len(IDENTS)] == "metric": path = "::metriken::metric"
    at = "#[%s(%s)]" % (path, body) if order or ch["paren"] else "#[%s]" % path
    ty, init = TYPES[ch["type"] % len(TYPES)]
    ident = IDENTS[ch["ident"] % len(IDENTS)]
    vis = VIS[ch["vis"] % len(VIS)]
    place = PLACES[ch["place"] % len(PLACES)]
    st = lambda v: "%s %sstatic %s: %s = %s;" % (at, v + " " if v else "", ident, ty, init)
    row = "e(%d, &%s, %s, %s, &[%s], %s)" % (i, ident, name or json.dumps(ident, ensure_ascii=False), "Some(%s)" % desc if desc else "None", ", ".join('("%s", %s)' % kv for kv in meta), "Some(%s)" % fmt if fmt else "None")
    use = "let _t: &'static %s = &%s;" % (ty, ident)
    n = 1
    if place == "module": b = "%s pub fn row() -> E { %s %s }" % (st(vis), use, row)
    elif place == "function": b = "pub fn row() -> E { %s %s %s }" % (st(""), use, row)
    elif place == "block": b = "pub fn row() -> E { if true { %s %s %s } else { unreachable!() } }" % (st(""), use, row)
    elif place == "const": b = "const F: fn() -> E = { %s fn f() -> E { %s %s } f }; pub fn row() -> E { F() }" % (st(""), use, row)
    elif place == "impl": b = "struct S; impl S { fn m(&self) -> E { %s %s %s } } pub fn row() -> E { S.m() }" % (st(""), use, row)
    elif place == "macro": b = "macro_rules! mk { () => { %s } } mk!(); pub fn row() -> E { %s %s }" % (st(vis), use, row)
    elif place == "closure": b = "pub fn row() -> E { (|| { %s %s %s })() }" % (st(""), use, row)
    elif place == "generic": b = "fn g<T: Default>() -> E { %s let _ = T::default(); %s %s } pub fn row() -> E { let _ = g::<u8>(); g::<String>() }" % (st(""), use, row)
    elif place == "deep": b = "mod x { use super::*; pub mod y { use super::*; %s } } use x::y::%s; pub fn row() -> E { %s %s }" % (st("pub"), ident, use, row)
    elif place == "twice": b, n = "mod other { use super::*; %s } %s pub fn row() -> E { %s %s }" % (st(""), st(vis), use, row), 2
    elif place == "attrs": b = "/// Documented.\n".replace("\n", " */").replace("///", "/**") + " #[allow(dead_code)] %s pub fn row() -> E { %s %s }" % (st(vis).replace("static ", "static ", 1).replace(at, at + " #[cfg(all())] #[allow(non_upper_case_globals)]"), use, row)
    elif place == "trait": b = "trait T { fn m() -> E { %s %s %s } } impl T for u8 {} impl T for u16 {} pub fn row() -> E { let _ = <u16 as T>::m(); <u8 as T>::m() }" % (st(""), use, row)
    elif place == "macroarg": b = "macro_rules! mk { ($i:ident, $t:ty, $e:expr) => { %s } } mk!(%s, %s, %s); pub fn row() -> E { %s %s }" % ("%s %s static $i: $t = $e;" % (at, vis), ident, ty, init, use, row)
    elif place == "exported":
        # further attributes, on either side, keep their meaning: here the symbol is that static
        at2 = "#[export_name = \"mc_exported_%d\"]" % i
        b = "%s pub fn row() -> E { extern \"C\" { #[link_name = \"mc_exported_%d\"] static ALIAS: u8; } assert_eq!(unsafe { std::ptr::addr_of!(ALIAS) } as usize, std::ptr::addr_of!(%s) as usize, \"export_name\"); %s %s }" % (at2 + " " + st(vis) if i % 2 else st(vis).replace(at, at + " " + at2, 1), i, ident, use, row)
    elif place == "section":
        at2 = "#[link_section = \"mc_section_%d\"]" % i
        b = "%s pub fn row() -> E { extern \"C\" { #[link_name = \"__start_mc_section_%d\"] static START: u8; } assert_eq!(unsafe { std::ptr::addr_of!(START) } as usize, std::ptr::addr_of!(%s) as usize, \"link_section\"); %s %s }" % (at2 + " " + st(vis) if i % 2 else st(vis).replace(at, at + " " + at2, 1), i, ident, use, row)
    elif place == "unmangled":
        ident = "MC_UNMANGLED_%d" % i
        if not name: row = row.replace(json.dumps(IDENTS[ch["ident"] % len(IDENTS)], ensure_ascii=False), json.dumps(ident), 1)
        row = row.replace("&" + IDENTS[ch["ident"] % len(IDENTS)] + ",", "&" + ident + ",", 1)
        b = "%s pub fn row() -> E { extern \"C\" { #[link_name = \"%s\"] static ALIAS: u8; } assert_eq!(unsafe { std::ptr::addr_of!(ALIAS) } as usize, std::ptr::addr_of!(%s) as usize, \"no_mangle\"); %s }" % ("%s #[no_mangle] #[used] %s static %s: %s = %s;" % (at, vis, ident, ty, init), ident, ident, row)
    elif place == "cfg":
        # a static that is configured away is not declared
        b = "%s %s pub fn row() -> E { %s %s }" % (st(vis).replace(at, at + " #[cfg(any())]", 1).replace(ident, ident, 1), st(vis).replace(at, at + " #[cfg_attr(all(), cfg(all()))] #[cfg_attr(any(), cfg(any()))]", 1), use, row)
    elif place == "attrs2":
        b = "#[doc(hidden)] %s pub fn row() -> E { #[allow(deprecated)] { %s %s } }" % (st(vis).replace(at, at + " #[deprecated] #[used] #[doc = \"x\"] #[rustfmt::skip] #[cfg_attr(all(), allow(dead_code))]", 1), use, row)
    else: b = "pub fn row() -> E { let mut r = None; for _ in 0..3 { %s %s r = Some(%s) } r.unwrap() }" % (st(""), use, row)
    return "pub mod d%d { use super::*; %s }" % (i, b), at + " static " + ident + ": " + ty + " (" + place + ")", n

def space(thorough):
    """All argument lists; all pairs of the other choices in turn."""
    out = []
    zero = dict(name=0, desc=0, meta=0, fmt=0, crate=0, path=0, type=0, ident=0, vis=0, place=0, paren=0)
    orders = [p for k in range(6) for p in itertools.permutations(ARGS, k)]
    full = tuple(ARGS)
    # every subset and order, the other choices rotating
    for rep in range(6 if thorough else 1):
        for j, o in enumerate(orders):
            j2 = j + rep * 1009
            out.append((o, dict(name=j2, desc=j2 // 2, meta=j2 * 3, fmt=j2 * 2 + rep, crate=j2, path=j2 // 3, type=j2 * 5 + rep, ident=j2, vis=j2, place=j2 * 3 + j2 // 14, paren=j2 % 2)))
    # every form of each argument alone and with all others
    for k, n in (("name", len(NAMES)), ("desc", len(DESCS)), ("meta", len(METAS)), ("fmt", len(FMTS)), ("crate", len(CRATES))):
        arg = {"desc": "description", "meta": "metadata", "fmt": "formatter"}.get(k, k)
        for v in range(n):
            out.append(((arg,), dict(zero, **{k: v}))); out.append((full, dict(zero, type=v, meta=1, place=v, **({k: v} if k != "meta" else {}), **({} if k != "meta" else {})) if k != "meta" else dict(zero, meta=v, type=v, place=v)))
    # every type in every place, every identifier, every path
    for t in range(len(TYPES)):
        for p in range(len(PLACES)):
            out.append(((), dict(zero, type=t, place=p, ident=t + p)) if (t + p) % 2 else (full, dict(zero, type=t, place=p, ident=t + p, meta=4, fmt=t)))
    for d in range(len(IDENTS)):
        for p in range(4): out.append(((), dict(zero, ident=d, path=p, paren=p % 2, place=0)))
    ts = texts()
    for i in range(len(ts)):
        out.append((("raw",), dict(zero, texts=[ts[(i + k) % len(ts)] for k in range(4)])))
    if thorough:
        for i in range(len(ts)):
            for k in range(3): out.append((("raw",), dict(zero, texts=[ts[i] if j == k else "x" for j in range(4)])))
        for a, b in itertools.combinations(("name", "desc", "meta", "fmt", "crate"), 2):
            na = dict(name=len(NAMES), desc=len(DESCS), meta=len(METAS), fmt=len(FMTS), crate=len(CRATES))
            for x in range(na[a]):
                for y in range(na[b]): out.append((full if (x + y) % 2 else tuple(reversed(full)), dict(zero, **{a: x, b: y}, type=x + y, place=x * 3 + y)))
    return out

def bad():
    """Declarations to reject: (text of the arguments, what is wrong)."""
    one = {"name": ['"a"', '"b"'], "description": ['"a"', '"b"'], "metadata": ['{ k = "v" }', '{ l = "w" }'], "formatter": ['fmt_a', 'fmts::b'], "crate": ['metriken', 'crate::bonus']}
    out = []
    for a, v in one.items():
        for second in v:
            x, y = "%s = %s" % (a, v[0]), "%s = %s" % (a, second)
            out.append(("%s, %s" % (x, y), "repeated " + a))
            for o, w in one.items():
                if o == a: continue
                z = "%s = %s" % (o, w[0])
                for p in ([x, z, y], [z, x, y], [x, y, z]): out.append((", ".join(p), "repeated " + a))
            out.append((", ".join([x, y, y]), "repeated " + a))
            rest = ["%s = %s" % (o, w[0]) for o, w in one.items() if o != a]
            out.append((", ".join([x] + rest + [y]), "repeated " + a))
    out.append(("metadata = {}, metadata = {}", "repeated metadata"))
    ks = ["k", '"k"']
    for k in ks:
        for l in ks:
            for vals in (('"v"', '"v"'), ('"v"', '"w"')):
                x, y = "%s = %s" % (k, vals[0]), "%s = %s" % (l, vals[1])
                for body in ([x, y], [x, 'z = "1"', y], ['a = "1"', x, y], [x, y, 'z = "1"'], ['a = "1"', x, 'm = "2"', 'z = "1"', y]):
                    out.append(("metadata = { %s }" % ", ".join(body), "repeated key"))
                    out.append(('name = "n", metadata = { %s, }, formatter = fmt_a' % ", ".join(body), "repeated key"))
    for u in ['foo = "x"', 'Name = "x"', 'names = "x"', 'desc = "x"', 'label = { k = "v" }', 'meta = { k = "v" }', '_name = "x"', 'krate = metriken', 'format = fmt_a', 'unit = "s"', 'k = 1', 'value = metriken']:
        out.append((u, "unknown argument"))
        for o, w in one.items():
            z = "%s = %s" % (o, w[0])
            out.append(("%s, %s" % (u, z), "unknown argument")); out.append(("%s, %s" % (z, u), "unknown argument"))
        out.append(('name = "n", %s, description = "d"' % u, "unknown argument"))
    return out

COMMON = r'''
#![allow(deprecated, dead_code, unused_imports, non_upper_case_globals, non_snake_case, unused_macros, mixed_script_confusables, uncommon_codepoints)]
pub use metriken::{metric, AtomicHistogram, Counter, Format, Gauge, Lazy, LazyCounter, LazyGauge, Metric, MetricEntry, RwLockHistogram, Value};
pub const NAME_CONST: &str = "from a constant";
pub const DESC_CONST: &str = "described by a constant";
pub const fn name_fn() -> &'static str { "from a const fn" }
pub fn fmt_a(e: &MetricEntry, f: Format) -> String { format!("A {} {:?}", e.name(), matches!(f, Format::Simple)) }
pub fn fmt_closure(e: &MetricEntry, f: Format) -> String { format!("closure {} {:?}", e.name(), matches!(f, Format::Simple)) }
pub mod fmts { pub fn b(e: &metriken::MetricEntry, f: metriken::Format) -> String { format!("B {:?} {:?} {}", e.description(), matches!(f, metriken::Format::Prometheus), e.metadata().len()) } }
pub mod bonus { pub use metriken::*; pub mod deep { pub use metriken::*; } }
'''
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    # keep the time stamp of what has not changed
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text: return
    open(path, "w", encoding="utf-8").write(text)

def main():
    tier, d = sys.argv[1], sys.argv[2]
    here = os.path.dirname(os.path.abspath(__file__))
    rt = open(os.path.join(here, "rt.rs"), encoding="utf-8").read()
    ctx = os.path.abspath(os.path.join(here, "..", "common", "ctx.rs"))
    progs = space(tier == "thorough")
    # two thirds in a library, the rest in the program itself, to have more than one object to link
    mods, info, total = {"lib": [], "bin": []}, [], 0
    for i, (o, ch) in enumerate(progs):
        m, text, n = decl(i, o, ch)
        total += n
        mods["lib" if i % 3 else "bin"].append((i, m))
        info.append(text)
    def chunked(ms, lib):
        # a file per 100 declarations
        return "\n".join(m for _, m in ms) + "\npub fn rows() -> Vec<E> { vec![%s] }\n" % ", ".join("d%d::row()" % i for i, _ in ms)
    # declarations nothing refers to
    extra = "\n".join('pub mod u%d { use super::*; #[metric(name = "unreferenced/%d")] static U: Counter = Counter::with_value(%d); }' % (i, i, i) for i in range(8))
    write(d + "/ok/src/lib.rs", COMMON + rt + chunked(mods["lib"], True))
    write(d + "/ok/src/main.rs", "#![allow(dead_code, unused_imports, non_upper_case_globals, non_snake_case, unused_macros, mixed_script_confusables, uncommon_codepoints)]\nuse ok::*;\npub use ok::{fmts, bonus};\nuse ok::{metriken_pub as metriken};\n".replace("use ok::{metriken_pub as metriken};\n", "") +
          '#[path = "%s"]\nmod ctx;\n' % ctx + "mod own_rows { pub use ok::*; use ::ok as _; %s\n%s }\n" % (chunked(mods["bin"], False), extra) +
          "const TOTAL: usize = %d;\nconst UNREFERENCED: usize = 8;\n" % total + open(os.path.join(here, "main.rs"), encoding="utf-8").read() +
          "static TEXTS: &[&str] = &[%s];\n" % ", ".join(json.dumps(t, ensure_ascii=False) for t in info))
    dep = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n%s\nlibc = "0.2"\n\n[workspace]\n\n[profile.dev]\ndebug = 0\nincremental = false\n'
    write(d + "/ok/Cargo.toml", dep % ("ok", 'metriken = { path = "/repo/metriken" }\nmetriken-core = { path = "/repo/metriken-core" }'))
    for n in ("ok", "renamed"): write(d + "/%s/Cargo.lock" % n, open(os.path.join(here, "Cargo.lock")).read().replace('name = "ok"', 'name = "%s"' % n))
    # the dependency under another name, and no `crate` argument
    write(d + "/renamed/Cargo.toml", dep % ("renamed", 'mk = { package = "metriken", path = "/repo/metriken" }'))
    write(d + "/renamed/src/main.rs", open(os.path.join(here, "renamed.rs"), encoding="utf-8").read())
    b = bad()
    lines = COMMON.strip().split("\n")
    where = []
    for i, (a, why) in enumerate(b):
        lines.append("#[metric(%s)] static B%d: Counter = Counter::new();" % (a, i))
        where.append({"line": len(lines), "args": a, "why": why})
    write(d + "/bad.rs", "\n".join(lines) + "\n")
    write(d + "/bad.json", json.dumps(where))
    print(json.dumps({"programs": len(progs), "declarations": total + 8, "bad": len(b)}))
main()
