//! Copies the sources under test into OUT_DIR, without what cannot be compiled on this host or inside
//! another module: inner attributes and documentation, and the choice of ARM instruction set.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let cb = "/repo/compiler-builtins/src";
    let lm = "/repo/libm/src/math";
    for (from, to) in [
        (format!("{cb}/sync/arm_linux.rs"), "arm_linux.rs"),
        (format!("{cb}/sync/thumbv6k.rs"), "thumbv6k.rs"),
        (format!("{cb}/sync/arm_thumb_shared.rs"), "arm_thumb_shared.rs"),
        (format!("{cb}/aarch64_outline_atomics.rs"), "aarch64_outline_atomics.rs"),
        (format!("{cb}/probestack.rs"), "probe_x86_64.rs"),
        (format!("{cb}/probestack.rs"), "probe_x86.rs"),
        (format!("{cb}/probestack.rs"), "probe_uefi.rs"),
        (format!("{cb}/probestack.rs"), "probe_sgx.rs"),
        (format!("{cb}/x86_64.rs"), "chkstk_64.rs"),
        (format!("{cb}/x86.rs"), "chkstk_32.rs"),
        (format!("{lm}/support/feature_detect.rs"), "feature_detect.rs"),
        (format!("{lm}/arch/x86/detect.rs"), "detect.rs"),
        (format!("{lm}/arch/x86/fma.rs"), "fma.rs"),
    ] {
        println!("cargo:rerun-if-changed={from}");
        let text = fs::read_to_string(&from).unwrap_or_default();
        let text = variant(to, text);
        let mut s = String::new();
        for l in text.lines() {
            let t = l.trim_start();
            let drop = t.starts_with("//!") || t.starts_with("#![") || t.starts_with("#[instruction_set(")
                || t.starts_with("#[unsafe(naked)]") || t.starts_with("#[rustc_std_internal_symbol]");
            if !drop {
                s.push_str(l);
            }
            s.push('\n');
        }
        fs::write(Path::new(&out).join(to), s).unwrap();
    }
}

/// Makes the configuration predicates of the probe routines true or false as on the given target.
fn variant(to: &str, text: String) -> String {
    if to.starts_with("chkstk_") {
        return text.replace("naked_asm!", "unit_asm!");
    }
    let Some(v) = to.strip_prefix("probe_") else { return text };
    let on = |vs: &[&str]| if vs.iter().any(|x| v == format!("{x}.rs")) { "all()" } else { "any()" };
    let (x86_64, x86, uefi, sgx) = (on(&["x86_64", "sgx"]), on(&["x86", "uefi"]), on(&["uefi"]), on(&["sgx"]));
    text.replace("target_arch = \"x86_64\"", x86_64)
        .replace("target_arch = \"x86\"", x86)
        .replace("target_os = \"uefi\"", uefi)
        .replace("target_env = \"sgx\"", sgx)
        .replace("target_vendor = \"fortanix\"", sgx)
        .replace("extern \"custom\" ", "")
}
