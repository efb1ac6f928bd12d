"""Machine words of the math functions with target-specific assembly (aarch64, loongarch), compiled by the
pinned compiler without its library, and calls of them for the specification to execute."""
import os, random, re, struct

HEAD = """#![feature(no_core, lang_items, rustc_attrs, intrinsics, f16, decl_macro, auto_traits)]
#![no_core]
#![crate_type = "lib"]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_imports)]
#[lang = "pointee_sized"] pub trait PointeeSized {}
#[lang = "meta_sized"] pub trait MetaSized: PointeeSized {}
#[lang = "sized"] pub trait Sized: MetaSized {}
#[lang = "copy"] pub trait Copy {}
#[lang = "freeze"] unsafe auto trait Freeze {}
impl Copy for f32 {}
impl Copy for f64 {}
impl Copy for f16 {}
pub mod arch {
    #[rustc_builtin_macro]
    pub macro asm("assembly template", $(operands,)* $(options($(option),*))?) {}
}
#[rustc_builtin_macro]
macro_rules! concat { ($($e:expr),* $(,)?) => {{}} }
mod core { pub use crate::arch; }
"""
TARGETS = {
    "aarch64": ("aarch64-unknown-linux-gnu", "+neon,+fp16", 0),
    "loongarch": ("loongarch64-unknown-linux-gnu", "+f,+d,+lsx", 1),
}
# what callers may rely on: function, width, arguments
FNS = [("fma", 64, 3), ("fmaf", 32, 3), ("rint", 64, 1), ("rintf", 32, 1), ("sqrt", 64, 1), ("sqrtf", 32, 1),
       ("rintf16", 16, 1), ("sqrtf16", 16, 1), ("ceil", 64, 1), ("ceilf", 32, 1), ("floor", 64, 1), ("floorf", 32, 1),
       ("trunc", 64, 1), ("truncf", 32, 1), ("round", 64, 1), ("roundf", 32, 1), ("fabs", 64, 1), ("fabsf", 32, 1)]


def build(C, work, name):
    """Returns {function: words}; None when the sources do not compile that way."""
    triple, feats, _ = TARGETS[name]
    src = HEAD
    d = os.path.join(C.REPO, "libm/src/math/arch", name)
    for f in sorted(os.listdir(d)):
        if f == "mod.rs" or not f.endswith(".rs"):
            continue
        t = open(os.path.join(d, f)).read()
        t = re.sub(r"(?m)^//!.*$", "", t)
        t = re.sub(r"(?m)^(\s*)pub fn ", r'\1#[unsafe(no_mangle)] pub extern "C" fn ', t)
        src += "pub mod %s {\nuse crate::core;\n%s\n}\n" % (f[:-3], t)
    rs = os.path.join(work, name + ".rs")
    with open(rs, "w") as f:
        f.write(src)
    o = rs[:-3] + ".o"
    p = C.run(["rustc", "--edition=2024", "-O", "--target", triple, "-Ctarget-feature=" + feats, "--cfg", "f16_enabled", "--emit", "obj",
               "-Cpanic=abort", "-Ccodegen-units=1", rs, "-o", o], 100, check=False)
    if p.returncode:
        return None, p.stdout
    return functions(o), ""


def functions(path):
    b = open(path, "rb").read()
    shoff, = struct.unpack_from("<Q", b, 0x28)
    entsize, num = struct.unpack_from("<HH", b, 0x3a)
    secs = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * entsize) for i in range(num)]
    symtab = next(x for x in secs if x[1] == 2)
    strs = secs[symtab[6]]
    res = {}
    for i in range(symtab[5] // 24):
        n, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", b, symtab[4] + 24 * i)
        if info & 15 == 2 and size:
            name = b[strs[4] + n:b.index(b"\0", strs[4] + n)].decode()
            off = secs[shndx][4] + val
            res[name] = struct.unpack_from("<%dI" % (size // 4), b, off)
    return res


MANT = {16: 10, 32: 23, 64: 52}


def edges(w):
    m = MANT[w]
    bias = (1 << (w - 2 - m)) - 1
    top = (2 * bias + 1) << m
    e = {0, 1, 2, 3, (1 << m) - 1, 1 << m, (1 << m) + 1, top - 1, top - 2, top, top + 1, top + (1 << (m - 1)), top + (1 << m) - 1}
    for d in (-2, -1, 0, 1, 2, 3, m - 2, m - 1, m, m + 1, m + 2):
        b = bias + d
        if 0 < b <= 2 * bias:
            for f in (0, 1, 2, 1 << (m - 1), (1 << (m - 1)) + 1, (1 << (m - 1)) - 1, (1 << m) - 1, 3 << (m - 2)):
                e.add(b << m | f)
    return sorted(e | {x | 1 << (w - 1) for x in e})


def rnd(rng, w):
    m = MANT[w]
    bias = (1 << (w - 2 - m)) - 1
    e = rng.choice([rng.randint(0, 2 * bias), min(2 * bias, bias + rng.randint(-3, m + 3)), rng.randint(0, min(2 * bias, m + 2))])
    f = rng.getrandbits(m)
    if rng.random() < .5:
        f &= -1 << rng.randint(0, m)
    return rng.getrandbits(1) << (w - 1) | max(e, 0) << m | f & ((1 << m) - 1)


def records(C, work, n):
    """Yields (target, records); records is None when the sources do not compile on their own."""
    for name, (_, _, arch) in TARGETS.items():
        code, why = build(C, work, name)
        if code is None:
            yield name, None
            continue
        out = []
        for fn, w, k in FNS:
            if fn not in code:
                continue
            op = re.sub(r"f16$", "", fn) if w == 16 else fn[:-1] if w == 32 else fn
            rng = random.Random("%d %s %s" % (C.SEED, name, fn))
            es = edges(w)
            if k == 1:
                ins = [(x,) for x in (range(1 << 16) if w == 16 and C.TIER == "thorough" else es)]
                ins += [(rnd(rng, w),) for _ in range(n)]
            else:
                ins = [tuple(rng.choice(es) for _ in range(k)) for _ in range(n)] + [tuple(rnd(rng, w) for _ in range(k)) for _ in range(n)]
                m = MANT[w]
                one = ((1 << (w - 2 - m)) - 1) << m
                for _ in range(n):          # sums near a tie or with cancellation
                    a, b = (one + (rng.randint(-3, 3) << m) + rng.getrandbits(m) for _ in range(2))
                    c = (one + (rng.randint(-m - 2, 3) << m) + (rng.getrandbits(m) & -1 << rng.randint(0, m))) | 1 << (w - 1)
                    ins.append((a, b, c))
            tail = " ".join("%x" % x for x in code[fn])
            for a in ins:
                out.append("%s:%d:%d:%d %s/%s %s %s > 0" % (op, arch, w, k, fn, name, " ".join("%x" % x for x in a), tail))
        yield name, out
