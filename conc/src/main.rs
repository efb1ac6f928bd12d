//! Runs parts of the library that the host cannot execute, or cannot schedule, on simulated machines
//! and records what they did:
//!   conc C19 | C27 | C21  --seed N --runs N --shard K --shards N --out FILE --stats FILE
//!   conc asm              prints the AArch64 assembly of every outline atomic
#![feature(macro_metavar_expr_concat)]
#![allow(dead_code, unused_imports, unused_macros, unused_unsafe)]
extern crate simcore as core;

macro_rules! intrinsics {
    () => {};
    ($(#[$m:meta])* pub unsafe extern $abi:tt fn $name:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? { $($b:tt)* } $($rest:tt)*) => {
        pub unsafe fn $name($($a: $t),*) $(-> $r)? { $($b)* }
        intrinsics! { $($rest)* }
    };
    ($(#[$m:meta])* pub extern $abi:tt fn $name:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? { $($b:tt)* } $($rest:tt)*) => {
        pub fn $name($($a: $t),*) $(-> $r)? { $($b)* }
        intrinsics! { $($rest)* }
    };
}

#[cfg(any(feature = "arm", feature = "thumb"))]
mod sync;

#[cfg(feature = "detect")]
mod detect;
#[cfg(feature = "detect")]
pub mod support {
    /// What the library's own `support` offers to the included files.
    pub enum Round {
        Nearest,
    }
    pub fn cold_path() {}
    pub mod feature_detect {
        include!(concat!(env!("OUT_DIR"), "/feature_detect.rs"));
    }
}

#[cfg(feature = "a64")]
mod a64;
#[cfg(any(feature = "probe", feature = "chkstk"))]
mod probe;

mod util;

fn main() {
    let mut a = std::env::args().skip(1);
    let what = a.next().expect("what to run");
    let mut o = util::Opts::default();
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--seed" => o.seed = v().parse().unwrap(),
            "--runs" => o.runs = v().parse::<f64>().unwrap() as u64,
            "--shard" => o.shard = v().parse().unwrap(),
            "--shards" => o.shards = v().parse().unwrap(),
            "--out" => o.out = v(),
            "--budget" => o.budget = v().parse().unwrap(),
            "--only" => o.only = v(),
            _ => panic!("unknown option {k}"),
        }
    }
    // panics of the code under test are part of the record
    std::panic::set_hook(Box::new(|_| {}));
    let rec = match what.as_str() {
        #[cfg(any(feature = "arm", feature = "thumb"))]
        "C19" => sync::run(&o),
        #[cfg(feature = "detect")]
        "C27" => detect::run(&o),
        #[cfg(feature = "a64")]
        "asm" => a64::run(&o),
        #[cfg(any(feature = "probe", feature = "chkstk"))]
        "C21" => probe::run(&o),
        _ => {
            eprintln!("not built: {what}");
            std::process::exit(3)
        }
    };
    std::fs::write(&o.out, rec).unwrap();
}
