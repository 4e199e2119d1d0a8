//! C04: bucket placement and rejection, over configurations, values and histories.
use crate::ctx::*;
use metriken::histogram::Histogram;
use metriken::{AtomicHistogram, Metric, RwLockHistogram, Value};

/// The range of the bucket that must contain `v`, from the definition of the
/// layout: exact below 2^(g+1), then 2^g equal divisions per power of two.
fn range(g: u8, v: u64) -> (u64, u64) {
    if g >= 63 || v >> (g + 1) == 0 { return (v, v) }
    let p = 63 - v.leading_zeros() as u8;
    let w = p - g;
    let lo = v >> w << w;
    (lo, lo + ((1u64 << w) - 1))
}
fn max_of(n: u8) -> u64 { if n == 64 { u64::MAX } else { (1u64 << n) - 1 } }
fn buckets(h: &Histogram) -> Vec<(u64, u64, u64)> { h.into_iter().map(|b| (b.start(), b.end(), b.count())).collect() }

type Want = std::collections::BTreeMap<u64, u64>;
/// The start of the bucket a recording must be counted in, or None if it must be
/// (or, for a value the last bucket claims to contain, may be) rejected.
fn record(h: &AtomicHistogram, g: u8, n: u8, v: u64, want: &mut Want) -> Result<bool, String> {
    let ok = no_panic(&format!("recording {v}"), || h.increment(v))?.is_ok();
    if v <= max_of(n) {
        if !ok { return Err(format!("{v} is in range but was rejected")) }
        *want.entry(range(g, v).0).or_default() += 1;
    } else if ok {
        let l = h.load().ok_or("loads as nothing after an accepted recording")?;
        let b = l.into_iter().find(|b| b.range().contains(&v)).ok_or(format!("{v} is in no bucket but was accepted"))?;
        *want.entry(b.start()).or_default() += 1;
    }
    Ok(ok)
}
/// Records `vals` one after another; after each, exactly the right bucket has one more.
fn walk(r: &mut Rec, g: u8, n: u8, vals: &[u64], each: bool) -> Result<String, String> {
    let h = AtomicHistogram::new(g, n);
    let cfg = h.config();
    if cfg.grouping_power() != g || cfg.max_value_power() != n { return Err(format!("reports configuration ({},{})", cfg.grouping_power(), cfg.max_value_power())) }
    if h.load().is_some() { return Err("a fresh histogram loads as something".into()) }
    let mut want = Want::new();
    let (mut acc, mut rej) = (0u64, 0u64);
    for v in vals {
        r.step();
        if record(&h, g, n, *v, &mut want)? { acc += 1 } else { rej += 1 }
        if each { check(r, &h, g, &want, acc)? }
    }
    if !each { check(r, &h, g, &want, acc)? }
    Ok(format!("({g},{n}) {acc} accepted {rej} rejected {} buckets", want.len()))
}
fn check(r: &mut Rec, h: &AtomicHistogram, g: u8, want: &Want, acc: u64) -> Result<(), String> {
    let Some(l) = h.load() else { return if acc == 0 { Ok(()) } else { Err("loads as nothing after an accepted recording".into()) } };
    if acc == 0 { return Err("loads as something although every recording was rejected".into()) }
    let got = buckets(&l);
    if got.len() != h.config().total_buckets() || l.config() != h.config() { return Err(format!("loaded {} buckets", got.len())) }
    let mut seen = 0;
    for (i, (lo, hi, n)) in got.iter().enumerate() {
        let w = want.get(lo).copied().unwrap_or(0);
        if w != *n { return Err(format!("bucket {lo}..={hi} holds {n}, expected {w}")) }
        if w > 0 { seen += 1 }
        // the last bucket of the layout is reported with the maximum as its end
        if range(g, *lo) != (*lo, *hi) && i + 1 != got.len() { return Err(format!("bucket {lo}..={hi} is not one of the layout")) }
    }
    if seen != want.len() { return Err(format!("buckets missing from the load: {want:?}")) }
    r.state(&got.iter().map(|b| b.2).collect::<Vec<_>>());
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum EO { Rec(u64), Load }
#[derive(Clone, Copy, Debug)]
enum BO { Update(u8), Len(i32, u64), Load }

pub fn c04(c: &mut Ctx) {
    // every configuration up to a bound with every value
    let top = if c.thorough { 14 } else { 11 };
    for n in 1..=top as u8 { for g in 0..n {
        let lim = (1u64 << n) + 5;
        c.case(|| format!("every value below {lim}, ascending, into ({g},{n})"), |r| walk(r, g, n, &(0..lim).collect::<Vec<_>>(), n <= 8));
        c.case(|| format!("every value below {lim}, descending, into ({g},{n})"), |r| walk(r, g, n, &(0..lim).rev().collect::<Vec<_>>(), false));
        for v in 0..lim { c.case(|| format!("{v} alone into ({g},{n})"), |r| walk(r, g, n, &[v], true)) }
    } }
    // every wide configuration with every bucket boundary and its neighbours
    let gs: Vec<u8> = if c.thorough { (0..=10).collect() } else { (0..=7).collect() };
    for g in gs { for n in g + 1..=64 {
        let f = move || {
            let mut v = vec![0, 1];
            for p in 0..64u8 {
                let step = if p > g { 1u64 << (p - g) } else { 1 };
                let mut x = 1u64 << p;
                loop {
                    for y in [x.wrapping_sub(1), x, x.saturating_add(1)] { v.push(y) }
                    match x.checked_add(step) { Some(y) if y >> p == 1 => x = y, _ => break }
                }
            }
            v.push(u64::MAX); v.push(u64::MAX - 1);
            v.sort(); v.dedup();
            v
        };
        c.case(|| format!("bucket boundaries and neighbours into ({g},{n})"), |r| walk(r, g, n, &f(), false));
        for v in [0, 1, max_of(n) / 2, max_of(n) - 1, max_of(n), max_of(n).saturating_add(1), u64::MAX - 1, u64::MAX] { c.case(|| format!("{v} alone into ({g},{n})"), |r| walk(r, g, n, &[v], true)) }
        for v in [max_of(n).saturating_add(1), u64::MAX] { for w in [0, max_of(n)] { c.case(|| format!("{v}, {w}, {v} into ({g},{n})"), |r| walk(r, g, n, &[v, w, v], true)) } }
    } }
    // fine configurations: every power of two, its first, last and evenly spread divisions with their neighbours
    for g in if c.thorough { 8..=22u8 } else { 8..=20 } {
        let mut ns: Vec<u8> = vec![g + 1, g + 2, g + 4];
        if g <= 16 { ns.extend([32, 48, 63, 64]) } else if g <= 18 { ns.push(32) }
        ns.dedup();
        for n in ns {
            let f = move || {
                let mut v = vec![0, 1];
                for p in 0..64u8 {
                    let d = p.min(g);
                    let w = p - d;
                    let (b, k) = (1u64 << p, 1u64 << d);
                    for i in [0, 1, 2, 3, k / 3, k / 2, k / 2 + 1, k.saturating_sub(2), k - 1].into_iter().chain((0..64).map(|j| j * k / 64)) { if i < k { let x = b + (i << w); for y in [x - 1, x, x + 1, x + ((1u64 << w) - 1)] { v.push(y) } } }
                }
                v.push(u64::MAX); v.push(u64::MAX - 1);
                v.sort(); v.dedup();
                v
            };
            c.case(|| format!("divisions and neighbours into ({g},{n})"), |r| walk(r, g, n, &f(), false));
            for v in [0, max_of(n) / 2, max_of(n) - 1, max_of(n), max_of(n).saturating_add(1)] { c.case(|| format!("{v} alone into ({g},{n})"), |r| walk(r, g, n, &[v], true)) }
            c.case(|| format!("bulk histogram ({g},{n})"), |_| {
                let h = RwLockHistogram::new(g, n);
                let len = (1usize << (g + 1)) + (n - g - 1) as usize * (1 << g);
                if h.config().total_buckets() != len { return Err(format!("{} buckets, expected {len}", h.config().total_buckets())) }
                if h.update_from(&vec![1; len - 1]).is_ok() || h.update_from(&vec![1; len + 1]).is_ok() { return Err("an update of the wrong size was accepted".into()) }
                if h.load().is_some() { return Err("loads something after rejected updates only".into()) }
                for k in 0..3u64 {
                    let data: Vec<u64> = (0..len as u64).map(|i| if k == 2 { 0 } else { i.wrapping_mul(k + 1) }).collect();
                    h.update_from(&data).map_err(|e| e.to_string())?;
                    let l = h.load().ok_or("loads nothing")?;
                    if l.as_slice() != &data[..] { return Err(format!("update {k} loads differently")) }
                }
                Ok(format!("{len}"))
            });
        }
    }
    // histories of recordings and loads
    for (g, n) in [(0u8, 1u8), (0, 3), (1, 3), (2, 3), (0, 64), (3, 63)] {
        let m = max_of(n);
        let mut vs = vec![0, 1, m / 2 + 1, m, u64::MAX];
        if n < 64 { vs.push(m + 1) }
        vs.sort(); vs.dedup();
        let mut ops: Vec<EO> = vs.into_iter().map(EO::Rec).collect();
        ops.push(EO::Load);
        seqs_of(&ops, 1, if c.thorough { 7 } else { 5 }, |s| c.case(|| format!("event histogram ({g},{n}): {s:?}"), |r| {
            let h = AtomicHistogram::new(g, n);
            let mut want = Want::new();
            let mut acc = 0;
            for o in s {
                r.step();
                match *o {
                    EO::Rec(v) => if record(&h, g, n, v, &mut want)? { acc += 1 },
                    EO::Load => { check(r, &h, g, &want, acc)?; if h.config().max_value_power() != n { return Err("configuration changed".into()) } }
                }
            }
            check(r, &h, g, &want, acc)?;
            let Some(Value::Other(o)) = h.value() else { return Err("type-erased value is missing".into()) };
            if !o.downcast_ref::<AtomicHistogram>().is_some_and(|x| std::ptr::eq(x, &h)) { return Err("type-erased value is not this histogram".into()) }
            Ok(format!("{want:?}"))
        }));
    }
    // histories of bulk updates and loads
    for (g, n) in [(0u8, 1u8), (0, 2), (1, 3), (2, 5), (4, 64)] {
        let ops = [BO::Update(1), BO::Update(2), BO::Update(0), BO::Len(-1, 7), BO::Len(1, 7), BO::Len(1, 0), BO::Len(i32::MIN, 0), BO::Load];
        seqs_of(&ops, 1, if c.thorough { 7 } else { 5 }, |s| c.case(|| format!("bulk histogram ({g},{n}): {s:?}"), |r| {
            let h = RwLockHistogram::new(g, n);
            let len = h.config().total_buckets();
            // total number of buckets by definition: 2^(g+1) exact, 2^g for each further power
            let def = if n == g + 1 { 1usize << (g + 1) } else { (1 << (g + 1)) + (n - g - 1) as usize * (1 << g) };
            if len != def { return Err(format!("{len} buckets, expected {def}")) }
            let pat = |k: u8| -> Vec<u64> { (0..len as u64).map(|i| match k { 0 => 0, 1 => i + 1, _ => u64::MAX - i }).collect() };
            let mut want: Option<Vec<u64>> = None;
            let chk = |r: &mut Rec, want: &Option<Vec<u64>>| {
                let got = h.load().map(|h| h.as_slice().to_vec());
                r.state(&(g, n, want.clone()));
                if got != *want { return Err(format!("loads {got:?}, expected {want:?}")) }
                if let Some(l) = h.load() { for (i, b) in l.into_iter().enumerate() { if i + 1 != len && range(g, b.start()) != (b.start(), b.end()) { return Err(format!("bucket {}..={}", b.start(), b.end())) } } }
                Ok(())
            };
            for o in s {
                r.step();
                match *o {
                    BO::Update(k) => { if h.update_from(&pat(k)).is_err() { return Err("an update of the right size was rejected".into()) } want = Some(pat(k)) }
                    BO::Len(d, x) => {
                        let m = if d == i32::MIN { 0 } else { (len as i64 + d as i64) as usize };
                        let data = vec![x; m];
                        let res = no_panic("an update of the wrong size", || h.update_from(&data))?;
                        if res.is_ok() { return Err(format!("an update with {m} buckets instead of {len} was accepted")) }
                    }
                    BO::Load => {}
                }
                chk(r, &want)?;
            }
            if h.config().grouping_power() != g || h.config().max_value_power() != n { return Err("reports another configuration".into()) }
            Ok(format!("{want:?}"))
        }));
    }
    // every history of updates over all small contents
    for (g, n, top, depth) in [(0u8, 1u8, 3u64, 4usize), (0, 2, 3, 3), (1, 2, 3, 2), (0, 3, 2, 3), (0, 4, 2, 2), (1, 3, 2, 2)] {
        let len = metriken::histogram::Config::new(g, n).unwrap().total_buckets();
        let mut all = vec![];
        crate::ctx::seqs(top as usize, len, len, |s| all.push(s.iter().map(|x| *x as u64).collect::<Vec<u64>>()));
        let ids: Vec<usize> = (0..all.len()).collect();
        seqs_of(&ids, depth, depth + (c.thorough && all.len() < 30) as usize, |s| for each in [true, false] { c.case(|| format!("bulk histogram ({g},{n}), {}: {:?}", if each { "loaded after each" } else { "loaded at the end" }, s.iter().map(|i| &all[*i]).collect::<Vec<_>>()), |r| {
            let h = RwLockHistogram::new(g, n);
            for (k, i) in s.iter().enumerate() {
                r.step();
                if h.update_from(&all[*i]).is_err() { return Err("an update of the right size was rejected".into()) }
                if each || k + 1 == s.len() { let got = h.load().map(|h| h.as_slice().to_vec()); if got.as_ref() != Some(&all[*i]) { return Err(format!("loads {got:?} after update {k}")) } }
            }
            Ok(format!("{:?}", all[s[s.len() - 1]]))
        }) });
    }
    // every length up to twice the right one, with contents that look harmless, before and after an update
    for n in 1..=if c.thorough { 64u8 } else { 20 } { for g in 0..n.min(6) { for used in [false, true] { c.case(|| format!("updates of every length into ({g},{n}), {}", if used { "used" } else { "fresh" }), |r| {
        let h = RwLockHistogram::new(g, n);
        let len = h.config().total_buckets();
        let first: Vec<u64> = (1..=len as u64).collect();
        if used { h.update_from(&first).map_err(|e| e.to_string())? }
        for m in (0..=2 * len + 3).chain([4 * len, 65536]) { for fill in 0..4 {
            if m == len { continue }
            r.step();
            let mut data = vec![[0u64, 1, u64::MAX, 0][fill]; m];
            if fill == 3 { for (x, y) in data.iter_mut().zip(&first) { *x = *y } }
            if no_panic("an update of the wrong size", || h.update_from(&data))?.is_ok() { return Err(format!("an update with {m} buckets instead of {len} was accepted")) }
            let got = h.load().map(|h| h.as_slice().to_vec());
            if got != used.then(|| first.clone()) { return Err(format!("a rejected update with {m} buckets changed the histogram to {got:?}")) }
        } }
        Ok(format!("{len}"))
    }) } } }
}
