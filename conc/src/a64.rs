//! C20: prints the assembly of every outline atomic of AArch64, as the macros of the library expand it.
use crate::util::*;
use std::fmt::Write;

// the library's path to its flag
mod aarch64_outline_atomics {
    include!(concat!(env!("OUT_DIR"), "/aarch64_outline_atomics.rs"));
}
use aarch64_outline_atomics as m;

macro_rules! three {
    ($out:ident, $($name:ident)*) => { $(each!($out, $name, (0, 0, ::std::ptr::null_mut()));)* };
}
macro_rules! two {
    ($out:ident, $($name:ident)*) => { $(each!($out, $name, (0, ::std::ptr::null_mut()));)* };
}
macro_rules! each {
    ($out:ident, $name:ident, $args:tt) => {
        order!($out, $args, ${concat($name, _relax)});
        order!($out, $args, ${concat($name, _acq)});
        order!($out, $args, ${concat($name, _rel)});
        order!($out, $args, ${concat($name, _acq_rel)});
    };
}
macro_rules! order {
    ($out:ident, ($($a:expr),*), $name:ident) => {
        let _ = unsafe { m::$name($($a),*) };
        let text = simcore::asm::captured();
        assert!(!text.is_empty());
        writeln!($out, ".globl {0}\n{0}:\n{text}", stringify!($name)).unwrap();
    };
}

pub fn run(_: &Opts) -> String {
    let mut out = String::new();
    three!(out, __aarch64_cas1 __aarch64_cas2 __aarch64_cas4 __aarch64_cas8 __aarch64_cas16);
    two!(out, __aarch64_swp1 __aarch64_swp2 __aarch64_swp4 __aarch64_swp8);
    two!(out, __aarch64_ldadd1 __aarch64_ldadd2 __aarch64_ldadd4 __aarch64_ldadd8);
    two!(out, __aarch64_ldclr1 __aarch64_ldclr2 __aarch64_ldclr4 __aarch64_ldclr8);
    two!(out, __aarch64_ldeor1 __aarch64_ldeor2 __aarch64_ldeor4 __aarch64_ldeor8);
    two!(out, __aarch64_ldset1 __aarch64_ldset2 __aarch64_ldset4 __aarch64_ldset8);
    out
}
