//! Writes the table of all ways to reach each function: for every function of the public interface,
//! the entry point itself, the `Libm<T>` helper's method, the generic implementation, the symbol of
//! compiler-builtins, and the aliases compiler-builtins offers on other platforms.
use std::fmt::Write;

/// name, arguments and results (F: the float type, i: i32), types
const TABLE: &[(&str, &str, &str)] = &[
    ("acos", "F>F", "fd"), ("acosh", "F>F", "fd"), ("asin", "F>F", "fd"), ("asinh", "F>F", "fd"), ("atan", "F>F", "fd"),
    ("atan2", "FF>F", "fd"), ("atanh", "F>F", "fd"), ("cbrt", "F>F", "fd"), ("ceil", "F>F", "hfdq"), ("copysign", "FF>F", "hfdq"),
    ("cos", "F>F", "fd"), ("cosh", "F>F", "fd"), ("erf", "F>F", "fd"), ("erfc", "F>F", "fd"), ("exp", "F>F", "fd"), ("exp10", "F>F", "fd"),
    ("exp2", "F>F", "fd"), ("expm1", "F>F", "fd"), ("fabs", "F>F", "hfdq"), ("fdim", "FF>F", "hfdq"), ("floor", "F>F", "hfdq"),
    ("fma", "FFF>F", "hfdq"), ("fmax", "FF>F", "hfdq"), ("fmaximum", "FF>F", "hfdq"), ("fmaximum_num", "FF>F", "hfdq"),
    ("fmin", "FF>F", "hfdq"), ("fminimum", "FF>F", "hfdq"), ("fminimum_num", "FF>F", "hfdq"), ("fmod", "FF>F", "hfdq"),
    ("frexp", "F>Fi", "hfdq"), ("hypot", "FF>F", "fd"), ("ilogb", "F>i", "hfdq"), ("j0", "F>F", "fd"), ("j1", "F>F", "fd"),
    ("jn", "iF>F", "fd"), ("ldexp", "Fi>F", "hfdq"), ("lgamma", "F>F", "fd"), ("lgamma_r", "F>Fi", "fd"), ("log", "F>F", "fd"),
    ("log10", "F>F", "fd"), ("log1p", "F>F", "fd"), ("log2", "F>F", "fd"), ("modf", "F>FF", "fd"), ("nextafter", "FF>F", "fd"),
    ("pow", "FF>F", "fd"), ("remainder", "FF>F", "fd"), ("remquo", "FF>Fi", "fd"), ("rint", "F>F", "hfdq"), ("round", "F>F", "hfdq"),
    ("roundeven", "F>F", "hfdq"), ("scalbn", "Fi>F", "hfdq"), ("sin", "F>F", "fd"), ("sincos", "F>FF", "fd"), ("sinh", "F>F", "fd"),
    ("sqrt", "F>F", "hfdq"), ("tan", "F>F", "fd"), ("tanh", "F>F", "fd"), ("tgamma", "F>F", "fd"), ("trunc", "F>F", "hfdq"),
    ("y0", "F>F", "fd"), ("y1", "F>F", "fd"), ("yn", "iF>F", "fd"),
];
/// exported under their own names on every platform
const FULL: &str = "ceil copysign fabs fdim floor fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod rint round roundeven sqrt trunc";
const PARTIAL: &str = "acos acosh asin asinh atan atan2 cos cosh erf erfc exp exp2 expm1 hypot ldexp log log10 log1p log2 pow sin sinh tan tanh tgamma";
const GENERIC: &str = "copysign fabs fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod frexp ilogb round scalbn";
const STATUS: &str = "ceil floor trunc rint";

fn named(name: &str, t: char) -> String {
    match t {
        'd' => name.into(),
        'f' if name == "lgamma_r" => "lgammaf_r".into(),
        'f' => format!("{name}f"),
        'h' => format!("{name}f16"),
        _ => format!("{name}f128"),
    }
}
fn has(list: &str, name: &str) -> bool {
    list.split(' ').any(|x| x == name)
}

fn main() {
    let repo = "/repo";
    println!("cargo:rerun-if-changed={repo}/compiler-builtins/src/math/mod.rs");
    let mut s = String::from("pub fn table(v: &mut Vec<Route>) {\n");
    for (name, sig, types) in TABLE {
        for t in types.chars() {
            let ty = match t { 'h' => "f16", 'f' => "f32", 'd' => "f64", _ => "f128" };
            let f = named(name, t);
            let (a, r) = sig.split_once('>').unwrap();
            let args: Vec<String> = (0..a.len()).map(|i| format!("a{i}")).collect();
            let types: Vec<&str> = a.chars().map(|c| if c == 'i' { "i32" } else { ty }).collect();
            let decode: String = args.iter().zip(&types).enumerate().map(|(i, (x, t))| format!("let {x} = <{t} as Val>::de(a[{i}]);")).collect();
            let call = args.join(", ");
            let mut emit = |route: &str, cfg: &str, e: String| {
                writeln!(s, "  {cfg}v.push(Route {{ name: \"{f}\", sig: \"{sig}\", ty: \"{ty}\", route: \"{route}\", run: |a| {{ {decode} Out::out({e}) }} }});").unwrap();
            };
            emit("libm", "", format!("libm::{f}({call})"));
            // the helper's own names are a little irregular
            let (on, method) = match (*name, t) {
                ("fmaximum" | "fmaximum_num" | "fminimum" | "fminimum_num", 'f') => ("f64", f.clone()),
                ("fmaximum", 'h') => ("f16", f.clone()),
                ("sqrt" | "trunc", 'h') => ("f16", format!("{name}f")),
                _ => (ty, name.to_string()),
            };
            emit("helper", "", format!("libm::Libm::<{on}>::{method}({call})"));
            if has(GENERIC, name) {
                emit("generic", "", format!("libm::generic::{name}({call})"));
            }
            if has(STATUS, name) {
                emit("generic", "", format!("libm::generic::{name}_status({call}).val"));
            }
            if *name == "sqrt" {
                emit("generic", "", format!("libm::generic::sqrt_round({call}, libm::support::Round::Nearest).val"));
            }
            if *name == "fma" && t != 'h' {
                let w = if t == 'f' { "fma_wide_round" } else { "fma_round" };
                emit("generic", "", format!("libm::generic::{w}({call}, libm::support::Round::Nearest).val"));
            }
            if *name == "roundeven" {
                emit("generic", "", format!("libm::generic::rint_status({call}).val"));
            }
            if *name == "ldexp" {
                emit("generic", "", format!("libm::generic::scalbn({call})"));
                emit("scalbn", "", format!("libm::{}({call})", named("scalbn", t)));
            }
            if *name == "rint" {
                emit("roundeven", "", format!("libm::{}({call})", named("roundeven", t)));
            }
            if *name == "sincos" {
                emit("parts", "", format!("(libm::{}({call}), libm::{}({call}))", named("sin", t), named("cos", t)));
            }
            if *name == "lgamma" {
                emit("lgamma_r", "", format!("libm::{}({call}).0", named("lgamma_r", t)));
            }
            if *name == "remainder" {
                emit("remquo", "", format!("libm::{}({call}).0", named("remquo", t)));
            }
            if has(FULL, name) || (*name == "cbrt") || (*name == "fma" && t != 'h') {
                emit("builtins", "", format!("compiler_builtins::math::full_availability::{f}({call})"));
                emit("alias", "#[cfg(feature = \"aliases\")] ", format!("crate::math::full_availability::{f}({call})"));
            }
            if has(PARTIAL, name) && (t == 'f' || t == 'd') {
                emit("alias", "#[cfg(feature = \"aliases\")] ", format!("crate::math::partial_availability::{f}({call})"));
            }
            if *name == "lgamma_r" {
                emit("alias", "#[cfg(feature = \"aliases\")] ", format!("{{ let mut n = 77; let y = crate::math::partial_availability::{f}({call}, &mut n); (y, n) }}"));
            }
            let _ = r;
        }
    }
    s.push_str("}\n");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/table.rs"), s).unwrap();

    // the aliases as on a platform that gets all of them
    let text = std::fs::read_to_string(format!("{repo}/compiler-builtins/src/math/mod.rs")).unwrap_or_default();
    let i = text.find("pub(crate) mod libm_math;").map(|i| i + "pub(crate) mod libm_math;".len()).unwrap_or(0);
    let text = text[i..]
        .replace("f16_enabled", "all()")
        .replace("f128_enabled", "all()")
        .replace("    unix,", "    any(),")
        .replace("target_vendor = \"apple\"", "any()");
    std::fs::write(format!("{out}/aliases.rs"), format!("pub use libm as libm_math;\n{text}")).unwrap();
}
