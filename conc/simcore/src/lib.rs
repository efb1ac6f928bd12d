//! A stand-in for `core` in which atomics, a little inline assembly, `cpuid` and the ARM kernel helpers
//! are simulated.  Sources of the library are compiled against it (`extern crate simcore as core`), and
//! then run under a scheduler that decides every interleaving, every stale read a relaxed load may
//! return, and every spurious failure.
#![allow(clippy::all)]
pub use ::core::*;

pub mod asm;
pub mod cpu;
pub mod sim;

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use crate::sim::atomics::*;
        pub use ::core::sync::atomic::{Ordering, compiler_fence, fence};
    }
}

pub mod arch {
    pub use crate::{asm, global_asm, naked_asm, unit_asm};
    pub mod x86_64 {
        pub use crate::cpu::{__cpuid, __cpuid_count, _xgetbv, CpuidResult};
    }
    pub mod x86 {
        pub use crate::cpu::{__cpuid, __cpuid_count, _xgetbv, CpuidResult};
    }
}
