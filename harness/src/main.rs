#![feature(f16, f128)]
#![allow(clippy::all, dead_code, unused)]
#[cfg(feature = "algos")]
mod algos;
mod cli;
mod core;
mod gens;
mod glibc;
mod hard;
mod ops_elem;
mod ops_exact;
mod ops_float;
mod ops_foreign;
mod ops_int;
mod ops_mem;
mod ops_route;
mod ops_support;
mod ops_sym;
mod ops_total;
mod ops_traits;
use crate::core::*;

pub const CFG: &str = if cfg!(feature = "intrinsics") {
    "intrinsics"
} else if cfg!(feature = "arch") {
    "arch"
} else {
    "generic"
};

/// How this binary's library was compiled, beyond its features.
pub const VARIANT: Option<&str> = option_env!("VERIF_VARIANT");

fn ops_for(prop: &str) -> Vec<Op> {
    match prop {
        "C01" => ops_int::c01(),
        "C02" => ops_int::c02(),
        "C03" => ops_float::c03(),
        "C04" => ops_float::c04(),
        "C05" => ops_float::c05(),
        "C06" => ops_float::c06(),
        "C07" => ops_mem::c07(),
        "C08" => ops_exact::c08(),
        "C09" => ops_exact::c09(),
        "C10" => ops_exact::c10(),
        "C11" => ops_exact::c11(),
        "C12" => ops_exact::c12(),
        "C13" => ops_exact::c13(),
        "C14" => ops_elem::c14(),
        "C15" => ops_elem::c15(),
        "C16" => ops_elem::c16(),
        "C17" => ops_sym::c17(),
        "C18" => ops_total::c18(),
        "C22" => ops_support::c22(),
        "C23" => ops_support::c23(),
        "C24" => ops_support::c24(),
        "C25" => ops_route::c25(),
        "C28" => ops_foreign::c28(),
        "C29" => ops_foreign::c29(),
        "C30" => ops_foreign::c30(),
        "C26" => ops_support::c26(),
        "C32" => ops_traits::c32(),
        _ => panic!("unknown property {prop}"),
    }
}

fn main() {
    cli::main(ops_for);
}
