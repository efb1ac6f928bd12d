//! C21: prints the assembly of the stack probe routines for x86_64 (also under SGX), x86 and x86 under UEFI,
//! and of the routines that check the stack on Windows-like targets.
use crate::util::*;

#[cfg(feature = "probe")]
mod probestack {
    pub mod x86_64 {
        include!(concat!(env!("OUT_DIR"), "/probe_x86_64.rs"));
    }
    pub mod sgx {
        include!(concat!(env!("OUT_DIR"), "/probe_sgx.rs"));
    }
    pub mod x86 {
        include!(concat!(env!("OUT_DIR"), "/probe_x86.rs"));
    }
    pub mod uefi {
        include!(concat!(env!("OUT_DIR"), "/probe_uefi.rs"));
    }
}
#[cfg(feature = "chkstk")]
mod chkstk {
    pub mod x86_64 {
        include!(concat!(env!("OUT_DIR"), "/chkstk_64.rs"));
    }
    pub mod x86 {
        include!(concat!(env!("OUT_DIR"), "/chkstk_32.rs"));
    }
}

pub fn run(o: &Opts) -> String {
    unsafe {
        match o.only.as_str() {
            #[cfg(feature = "probe")]
            "x86_64" => probestack::x86_64::__rust_probestack(),
            #[cfg(feature = "probe")]
            "sgx" => probestack::sgx::__rust_probestack(),
            #[cfg(feature = "probe")]
            "x86" => probestack::x86::__rust_probestack(),
            #[cfg(feature = "probe")]
            "uefi" => probestack::uefi::__rust_probestack(),
            #[cfg(feature = "chkstk")]
            "chkstk_ms" => chkstk::x86_64::___chkstk_ms(),
            #[cfg(feature = "chkstk")]
            "alloca" => chkstk::x86::_alloca(),
            #[cfg(feature = "chkstk")]
            "chkstk" => {
                chkstk::x86::__chkstk();
                let s = simcore::asm::captured();
                chkstk::x86::_alloca();
                return format!("{s}\nother:\n{}", simcore::asm::captured());
            }
            x => panic!("unknown routine {x}"),
        }
    }
    simcore::asm::captured()
}
