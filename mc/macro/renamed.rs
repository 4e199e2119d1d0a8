// The dependency on metriken has another name here; the declarations do not say so.
use mk::{metric, Counter, Format, Gauge, MetricEntry};
fn f(_: &MetricEntry, _: Format) -> String { "formatted".into() }
#[metric]
static PLAIN: Counter = Counter::new();
#[mk::metric(description = "d", metadata = { k = "v" }, formatter = f, name = "named")]
static NAMED: Gauge = Gauge::new();
mod metriken {}
fn main() {
    #[metric(crate = mk)]
    static INNER: Counter = Counter::with_value(3);
    PLAIN.increment(); NAMED.decrement(); INNER.increment();
    let all = mk::metrics().static_metrics();
    let mut got: Vec<String> = all.iter().map(|e| format!("{} {:?} {:?} {} {}", e.name(), e.description(), e.metadata().iter().collect::<Vec<_>>(), e.formatted(Format::Simple), match e.value() { Some(mk::Value::Counter(c)) => c as i64, Some(mk::Value::Gauge(g)) => g, _ => 99 })).collect();
    got.sort();
    let want = ["INNER None [] INNER 4", "PLAIN None [] PLAIN 1", "named Some(\"d\") [(\"k\", \"v\")] formatted -1"];
    if got != want { println!("{got:?}, expected {want:?}"); std::process::exit(1) }
    println!("{} entries", got.len());
}
