use ctx::*;
fn check(r: &mut Rec, x: &E) -> Result<String, String> {
    let all = ::ok::statics();
    let mine: Vec<&MetricEntry> = all.iter().filter(|e| e.is(x.metric)).collect();
    if mine.len() != 1 { return Err(format!("{} entries for the metric", mine.len())) }
    let en = mine[0];
    if en.metric() as *const dyn Metric as *const () as usize != x.addr { return Err("the entry refers to something else".into()) }
    if en.name() != x.name { return Err(format!("name {:?}, expected {:?}", en.name(), x.name)) }
    if en.description() != x.desc { return Err(format!("description {:?}, expected {:?}", en.description(), x.desc)) }
    let mut got: Vec<(&str, &str)> = en.metadata().iter().collect();
    got.sort();
    let mut want = x.meta.clone();
    want.sort();
    if got != want || en.metadata().len() != want.len() { return Err(format!("metadata {got:?}, expected {want:?}")) }
    for (k, v) in &want { if en.metadata().get(k) != Some(*v) { return Err(format!("metadata lookup of {k:?} gives {:?}", en.metadata().get(k))) } }
    for f in [|| Format::Simple, || Format::Prometheus] {
        let want = match x.fmt { Some(fm) => fm(en, f()), None => ::ok::default_formatter(en, f()) };
        if en.formatted(f()) != want { return Err(format!("formatted as {:?}, expected {want:?}", en.formatted(f()))) }
    }
    let mut out = String::new();
    for (poke, v, enabled) in (x.script)() {
        r.step();
        poke();
        r.state(&(x.id, format!("{:?}", v)));
        let now = v_of(en.metric());
        if now != v { return Err(format!("value {now:?}, expected {v:?}")) }
        if v_of(x.metric) != v { return Err(format!("value of the static {:?}, expected {v:?}", v_of(x.metric))) }
        if en.metric().is_enabled() != enabled { return Err(format!("is_enabled is {}", !enabled)) }
        out += &format!("{v:?} ");
    }
    let any = en.metric().as_any();
    match (x.ty, any) {
        (None, None) => {}
        (Some(t), Some(a)) if a.type_id() == x.metric.as_any().map(|a| a.type_id()).unwrap_or(t) && std::ptr::eq(a as *const dyn std::any::Any as *const (), x.metric.as_any().map(|a| a as *const dyn std::any::Any as *const ()).unwrap_or(std::ptr::null())) => {}
        (t, a) => if a.is_some() != x.metric.as_any().is_some() { return Err(format!("as_any differs: {t:?}")) },
    }
    Ok(format!("{} {:?} {:?} {out}", en.name(), en.description(), got))
}
fn main() {
    main_with(|p, c| {
        if p != "C10" { return false }
        let mut rows: Vec<E> = ::ok::rows();
        rows.extend(own_rows::rows());
        rows.sort_by_key(|x| x.id);
        for x in &rows { c.case(|| format!("#{} {}", x.id, TEXTS[x.id]), |r| check(r, x)) }
        for i in 0..UNREFERENCED { c.case(|| format!("declaration {i} that nothing refers to"), |r| {
            r.step();
            let n: Vec<V> = ::ok::statics().iter().filter(|e| e.name() == format!("unreferenced/{i}")).map(|e| v_of(e.metric())).collect();
            if n != vec![V::C(i as u64)] { return Err(format!("entries {n:?}")) }
            Ok("one entry".into())
        }) }
        c.case(|| "the number of static entries".into(), |r| {
            r.step();
            let n = ::ok::statics().len();
            if n != TOTAL + UNREFERENCED { return Err(format!("{n} static entries for {} declarations", TOTAL + UNREFERENCED)) }
            // and the view of everything has the same, as nothing is registered dynamically
            if ::ok::view_len() != n { return Err(format!("{} metrics in all", ::ok::view_len())) }
            Ok(format!("{n}"))
        });
        true
    })
}
