//! Harness functions: each is executed symbolically by the engine from the
//! LLVM-IR of this crate, and natively (this binary) to replay an input.
//! Module pNN holds the harnesses of property PNN; an assertion id is
//! module * 10000 + line (walk.rs: 900000 + line).
#![allow(dead_code)]
mod blk;
mod corpus;
#[cfg(feature = "p10")]
mod mutate;
mod refhtml;
mod sym;
mod skel;
mod util;
mod walk;

pub struct H {
    pub name: &'static str,
    pub f: extern "C" fn(u64),
    /// The jobs (parameters) of the quick (false) or thorough (true) tier.
    pub jobs: fn(bool) -> Vec<u64>,
    /// The input space in words.
    pub bounds: &'static str,
}

include!("props.rs");

extern "C" {
    fn vh_native_input(p: *const u8, n: usize);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        // every job of a tier, "harness:param" lines
        Some("list") => {
            for h in hs() {
                for p in (h.jobs)(a[2] == "thorough") {
                    println!("{}:{}", h.name, p);
                }
            }
        }
        Some("bounds") => {
            for h in hs() {
                println!("{}: {}", h.name, h.bounds);
            }
        }
        // one native execution: run HARNESS PARAM HEXINPUT
        Some("run") => {
            let x = a.get(4).map(String::as_str).unwrap_or("");
            let b: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
            unsafe { vh_native_input(b.as_ptr(), b.len()) };
            for h in hs() {
                if h.name == a[2] {
                    (h.f)(a[3].parse().unwrap());
                    println!("END");
                    return;
                }
            }
            std::process::exit(3);
        }
        _ => std::process::exit(3),
    }
}
