//! The metric iterators in a program with 2 static metrics.
#[path = "../../../common/ctx.rs"]
mod ctx;
#[path = "../iters_core.rs"]
mod iters_core;
#[path = "../metrics_iter.rs"]
mod metrics_iter;
#[metriken::metric(name = "static/0")]
static S0: metriken::Counter = metriken::Counter::with_value(0);
#[metriken::metric(name = "static/1")]
static S1: metriken::Counter = metriken::Counter::with_value(1);

fn main() { ctx::main_with(|p, c| { if p != "C11" { return false } metrics_iter::run(c, 2); true }) }
