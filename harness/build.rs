use std::{env, process::Command};

/// The `__sym_*` functions are C so that they stay external calls in the
/// LLVM-IR the engine executes.
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=../harness/native.c");
    let o = format!("{}/native.o", out);
    let a = format!("{}/libnative.a", out);
    assert!(Command::new("cc").args(["-O1", "-c", "../harness/native.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=native");
}
