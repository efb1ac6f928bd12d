"""Makes copies of the library as it is configured on other targets, to be compiled and run on this host.

Only what selects code is rewritten: predicates on the architecture, calling conventions this host does not
have, and the bodies of functions written in assembly, whose text is recorded instead.
"""
import os, re, shutil

# target: (architecture names, pointer width, other predicates that hold, features)
TARGETS = {
    "arm": (["arm"], 32, [], []),
    "avr": (["avr"], 16, [], []),
    "ppc": (["powerpc64"], 64, [], []),
    "sparc": (["sparc"], 32, [], []),
    "riscv": (["riscv32"], 32, [], []),
    "x86": (["x86"], 32, [], ["arch"]),
    "uefi": (["x86_64"], 64, ["uefi"], ["arch"]),
    "wasm": ([], 32, ["wasm"], []),
    "aarch64": (["aarch64"], 64, [], []),
    # math functions only
    "i586": (["x86"], 32, ["x86_no_sse2"], ["arch"]),
    "wasm32": (["wasm32"], 32, ["intrinsics_enabled"], ["arch"]),
}
# where the target's own assembly could not be compiled here, the files the configuration is applied to
ONLY = {t: ["compiler-builtins/src/float", "compiler-builtins/src/int"] for t in ("aarch64", "wasm", "x86", "uefi")}
ONLY["i586"] = ["libm/src"]
ONLY["wasm32"] = ["libm/src/math/" + f for f in ("arch/", "ceil.rs", "floor.rs", "rint.rs", "trunc.rs", "fabs.rs", "sqrt.rs", "fma.rs")]
MORE = {
    "i586": """
mod foreign_more {
    use crate::math::libm_math as m;
    #[unsafe(no_mangle)]
    pub extern "C" fn exp10(x: f64) -> f64 {
        m::exp10(x)
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn exp10f(x: f32) -> f32 {
        m::exp10f(x)
    }
}
""",
    # the instructions of WebAssembly, by those of the host
    "wasm32": """
pub(crate) mod foreign_wasm {
    macro_rules! one {
        ($($n:ident $t:ident $i:literal)*) => { $(
            pub fn $n(x: $t) -> $t {
                let r: $t;
                unsafe { core::arch::asm!($i, r = out(xmm_reg) r, x = in(xmm_reg) x, options(pure, nomem, nostack)) };
                r
            }
        )* };
    }
    one! {
        f32_ceil f32 "roundss {r}, {x}, 10"  f64_ceil f64 "roundsd {r}, {x}, 10"
        f32_floor f32 "roundss {r}, {x}, 9"  f64_floor f64 "roundsd {r}, {x}, 9"
        f32_trunc f32 "roundss {r}, {x}, 11"  f64_trunc f64 "roundsd {r}, {x}, 11"
        f32_nearest f32 "roundss {r}, {x}, 8"  f64_nearest f64 "roundsd {r}, {x}, 8"
        f32_sqrt f32 "sqrtss {r}, {x}"  f64_sqrt f64 "sqrtsd {r}, {x}"
    }
}
""",
}
LIB = """
/// Stands for the functions written in assembly: keeps their text and the symbols they mention.
#[doc(hidden)]
pub mod foreign {
    pub static mut TEXT: [&'static str; 128] = [""; 128];
    pub static mut USED: usize = 0;
    pub fn put(s: &'static str) {
        unsafe {
            TEXT[USED] = s;
            USED += 1;
        }
    }
}
#[macro_export]
macro_rules! foreign_naked {
    () => {};
    ($n:ident = sym $p:path $(, $($r:tt)*)?) => {
        $crate::foreign::put(concat!("=", stringify!($n), "=", stringify!($p)));
        $crate::foreign_naked!($($($r)*)?)
    };
    ($n:ident = const $p:expr $(, $($r:tt)*)?) => {
        $crate::foreign::put(concat!("=", stringify!($n), "=", stringify!($p)));
        $crate::foreign_naked!($($($r)*)?)
    };
    (options($($x:tt)*) $(, $($r:tt)*)?) => { $crate::foreign_naked!($($($r)*)?) };
    ($x:expr $(, $($r:tt)*)?) => {
        $crate::foreign::put($x);
        $crate::foreign_naked!($($($r)*)?)
    };
}
"""


def transform(text, target):
    archs, width, others, _ = TARGETS[target]
    on = lambda c: "all()" if c else "any()"
    text = re.sub(r'target_arch\s*=\s*"([^"]*)"', lambda m: on(m.group(1) in archs), text)
    text = re.sub(r'target_pointer_width\s*=\s*"(\d+)"', lambda m: on(int(m.group(1)) == width), text)
    text = re.sub(r'target_(?:os|family)\s*=\s*"(uefi|wasm)"', lambda m: on(m.group(1) in others), text)
    for p in ("x86_no_sse2", "intrinsics_enabled"):
        if p in others:
            text = re.sub(r"\b%s\b" % p, "all()", text)
            text = re.sub(r'target_feature\s*=\s*"sse2"', "any()", text)
    text = text.replace("core::arch::wasm32", "crate::foreign_wasm")
    text = re.sub(r'extern\s+"(aapcs|custom)"', 'extern "C"', text)
    text = text.replace("#[unsafe(naked)]\n            $(", "$(")     # the definition inside `intrinsics!'
    text = re.sub(r"(?:core::arch::)?naked_asm!\s*\(", "$crate_foreign_naked!(", text)
    text = re.sub(r"\bmem_unaligned\b", "any()", text)
    if target == "x86":         # operands are 32-bit registers
        text = re.sub(r"\basm!\((?:[^()]|\([^()]*\))*\)", lambda m: re.sub(r"\{(\w*)\}", r"{\1:e}", m.group(0)), text)
    return text.replace("$crate_foreign_naked!", "crate::foreign_naked!")


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def generate(repo, out, target):
    """Writes the copy to out; files are only touched when they change."""
    keep = set()
    for part in ("compiler-builtins/src", "libm/src"):
        for d, _, fs in os.walk(os.path.join(repo, part)):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                if not f.endswith(".rs"):
                    continue
                t = open(p).read()
                # the choice of code, not the width of types: usize keeps the host's
                if target not in ONLY or any(rel.startswith(x) for x in ONLY[target]):
                    t = transform(t, target)
                if rel == "compiler-builtins/src/math/mod.rs":
                    t = re.sub(r"\bunix\b(?=\s*,)", "any()", t)
                if rel == "compiler-builtins/src/lib.rs":
                    t += LIB + MORE.get(target, "")
                put(os.path.join(out, rel), t)
                keep.add(os.path.join(out, rel))
    for rel in ("compiler-builtins/build.rs", "libm/configure.rs"):
        put(os.path.join(out, rel), open(os.path.join(repo, rel)).read())
        keep.add(os.path.join(out, rel))
    m = open(os.path.join(repo, "builtins-shim", "Cargo.toml")).read()
    m = m.replace("../compiler-builtins/", "").replace('links = "compiler-rt"\n', "")
    m = re.sub(r"\[build-dependencies\]\ncc = .*\n", "", m).replace('c = ["dep:cc"]', "c = []")
    put(os.path.join(out, "compiler-builtins", "Cargo.toml"), m + "\n[workspace]\n")
    keep.add(os.path.join(out, "compiler-builtins", "Cargo.toml"))
    for d, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            if p not in keep and f.endswith(".rs") and "/target" not in p and "/wrap/" not in p:
                os.remove(p)


WRAP = """[package]
name = "foreign"
version = "0.1.0"
edition = "2024"
publish = false

[lib]
crate-type = ["cdylib"]
path = "%s"

[workspace]

[dependencies]
compiler_builtins = { path = "../compiler-builtins", default-features = false, features = [%s] }

[features]
naked_arm = []
naked_avr = []

[profile.release]
opt-level = 3
debug-assertions = true
overflow-checks = true
panic = "unwind"
incremental = false
codegen-units = 16
debug = 0
"""


def wrap(root, out, target):
    fs = ", ".join('"%s"' % f for f in ["unmangled-names"] + TARGETS[target][3])
    put(os.path.join(out, "wrap", "Cargo.toml"), WRAP % (os.path.join(root, "foreign", "src", "lib.rs"), fs))
