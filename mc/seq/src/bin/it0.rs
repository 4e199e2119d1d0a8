//! The metric iterators in a program with 0 static metrics.
#[path = "../../../common/ctx.rs"]
mod ctx;
#[path = "../iters_core.rs"]
mod iters_core;
#[path = "../metrics_iter.rs"]
mod metrics_iter;

fn main() { ctx::main_with(|p, c| { if p != "C11" { return false } metrics_iter::run(c, 0); true }) }
