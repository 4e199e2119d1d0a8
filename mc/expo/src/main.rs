//! Exhaustive enumeration over snapshots, their encodings and their conversion.
#[path = "../../common/ctx.rs"]
mod ctx;
mod columns;
mod convert;
mod encode;
mod env;
mod faults;
mod metadata;
mod model;
mod snap;
mod sweeps;
mod table;

fn main() {
    ctx::main_with(|p, c| {
        match p {
            "C14" => { snap::c14(c); sweeps::c14(c) },
            "C16" => { encode::c16(c); sweeps::c16(c, encode::check) },
            "C17" => { convert::c17(c); convert::c17_options(c); convert::c17_times(c); sweeps::c17(c); sweeps::c17_long(c) },
            "C18" => faults::c18(c),
            "C19" => { columns::c19(c); sweeps::c19(c) },
            "C20" => { metadata::c20(c); sweeps::c20(c, metadata::check); sweeps::c20_long(c, metadata::check) },
            _ => return false,
        }
        true
    })
}
