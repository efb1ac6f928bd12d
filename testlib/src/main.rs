#![feature(f16, f128)]
#![allow(clippy::all, dead_code, unused)]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/gens.rs"]
mod gens;
#[path = "../../harness/src/hard.rs"]
mod hard;
#[path = "../../harness/src/glibc.rs"]
mod glibc;
#[path = "../../harness/src/cli.rs"]
mod cli;
mod measure;
#[path = "../../harness/src/ops_elem.rs"]
mod ops_elem;
#[path = "../../harness/src/ops_exact.rs"]
mod ops_exact;
#[path = "../../harness/src/ops_float.rs"]
mod ops_float;
#[path = "../../harness/src/ops_int.rs"]
mod ops_int;
mod reference;

pub const CFG: &str = "generic";
pub const VARIANT: Option<&str> = None;

fn main() {
    cli::main(|p| match p {
        "C33" => measure::c33(),
        "C34" => reference::c34(),
        _ => panic!("unknown property {p}"),
    });
}
