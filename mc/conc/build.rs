// Compiles the model-checking runtime and links it in place of the sanitizer's.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = "../rt/rt.cpp";
    println!("cargo:rerun-if-changed={src}");
    let obj = format!("{out}/rt.o");
    let st = Command::new("g++")
        .args(["-O2", "-std=c++17", "-fPIC", "-Wall", "-c", src, "-o", &obj])
        .status().expect("g++");
    assert!(st.success(), "rt.cpp does not compile");
    let lib = format!("{out}/libmcrt.a");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=mcrt");
    println!("cargo:rustc-link-lib=stdc++");
}
