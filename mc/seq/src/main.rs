//! Exhaustive enumeration of call sequences and inputs on the real crates.
#[path = "../../common/ctx.rs"]
mod ctx;
mod alloc;
mod builder;
mod format;
mod hist;
mod iters;
mod iters_core;
mod lazy;
mod provide;
mod registry;
mod scalar;
mod sweeps;

#[global_allocator]
static A: alloc::Policy = alloc::Policy;

fn main() {
    ctx::main_with(|p, c| {
        match p {
            "C01" => { scalar::c01(c); sweeps::c01(c) }
            "C02" => { scalar::c02(c); sweeps::c02(c) }
            "C03" => sweeps::c03(c),
            "C05" => sweeps::c05(c),
            "C04" => hist::c04(c),
            "C06" => { lazy::c06(c); lazy::nested(c) },
            "C07" => { registry::c07(c); registry::reentrant(c); sweeps::c07(c) }
            "C09" => { builder::c09(c); sweeps::c09(c); provide::same_names(c, true); provide::many_types(c, true) }
            "C11" => { iters::metadata(c); sweeps::c11(c); sweeps::c11_large(c) }
            "C12" => { provide::c12(c); provide::many_types(c, false) }
            "C13" => { format::c13(c); sweeps::c13(c) }
            _ => return false,
        }
        true
    })
}
