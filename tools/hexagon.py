"""The Hexagon assembly: packets for the specification to execute, and calls of the routines."""
import os, random, re

WHERE = "/repo/compiler-builtins/src"


def assemble(C, work):
    """The text of the one global_asm! block, assembled and linked; None when it does not stand on its own."""
    rs = open(os.path.join(WHERE, "hexagon.rs")).read()
    m = re.search(r"global_asm!\s*\((.*?)\n\s*\)\s*;", rs, re.S)
    files = re.findall(r'include_str!\(\s*"([^"]+)"\s*\)', m.group(1)) if m else []
    if not files:
        raise C.ToolError("no Hexagon assembly found")
    s = os.path.join(work, "hex.s")
    with open(s, "w") as f:
        f.write("\n".join(open(os.path.join(WHERE, x)).read() for x in files) + "\n")
    o, e = s[:-2] + ".o", s[:-2] + ".elf"
    for cmd in (["llvm-mc", "-triple", "hexagon", "-mcpu=hexagonv60", "-filetype=obj", s, "-o", o],
                ["ld.lld", "-Ttext=0x1000", "-e", "0", "--defsym", "memcpy=0x800", o, "-o", e]):
        p = C.run(cmd, 60, check=False)
        if p.returncode:
            raise C.ToolError("the Hexagon assembly does not assemble\n" + p.stdout[-2000:])
    entries = {}
    for l in C.run(["llvm-nm", e], 60).stdout.split("\n"):
        w = l.split()
        if len(w) == 3 and w[1] == "T":
            entries[w[2]] = int(w[0], 16)
    return entries, C.run(["llvm-objdump", "-d", "--no-show-raw-insn", e], 60).stdout


def number(x):
    return str(x) if -2**31 < x < 2**31 else "(-2147483647 - 1)" if x == -2**31 else "(2147483647 + %d)" % (x - 2147483647)


def packets(C, text):
    """[(address, [instruction text], loops)]"""
    res, cur = [], None
    for l in text.split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\s*(\{)?\s*(.*)$", l)
        if not m or "file format" in l or re.match(r"[0-9a-f]{8} <", l):
            continue
        addr, opens, rest = int(m.group(1), 16), m.group(2), m.group(3).strip()
        if opens:
            cur = [addr, [], 0]
        if cur is None:
            raise C.ToolError("disassembly not understood: " + l)
        body, closes = rest, re.search(r"\}\s*(:\S+)?\s*$", rest)
        if closes:
            body = rest[:closes.start()]
            cur[2] = (1 if ":endloop0" in rest else 0) + (2 if ":endloop1" in rest or ":endloop01" in rest else 0)
        cur[1] += [x.strip() for x in body.split(";") if x.strip() and not x.strip().startswith("immext")]
        if closes:
            res.append(tuple(cur))
            cur = None
    return res


OPERAND = re.compile(r"r(\d+):(\d+)|r(\d+)\.new|\br(\d+)\b|\bp(\d)\b|##?(-?(?:0x)?[0-9a-f]+)|\b0x([0-9a-f]+)( <[^>]*>)?")


def instruction(text, at, targets):
    guard = []
    m = re.match(r"if \((!?)p(\d)(\.new)?\) (.*)$", text)
    if m:
        guard, text = [int(m.group(2)), 1 if m.group(1) else 0, 1 if m.group(3) else 0], m.group(4)
    text = re.sub(r"\b(jump|jumpr|dealloc_return):(nt|t)\b", r"\1", text)
    ops, made = [], []

    def sub(m):
        if m.group(1):
            ops.append(int(m.group(2)))
            return "D"
        if m.group(3):
            made.append((len(ops), int(m.group(3))))
            ops.append(0)
            return "N"
        if m.group(4):
            ops.append(int(m.group(4)))
            return "R"
        if m.group(5):
            ops.append(int(m.group(5)))
            return "P"
        if m.group(6):
            ops.append(int(m.group(6), 0))
            return "#"
        ops.append(targets.get(int(m.group(7), 16), 0))
        return "@"
    t = OPERAND.sub(sub, text)
    if t == "D = D":                                    # written as a combine of the two halves
        t, ops = "D = combine(R,R)", [ops[0], ops[1] + 1, ops[1]]
    if t == "D = #":
        t, ops = "D = combine(#,#)", [ops[0], -1 if ops[1] < 0 else 0, ops[1]]
    if re.match(r"dealloc_return|deallocframe|D = dealloc", t):
        t, ops = ("dealloc_return" if "return" in t else "deallocframe"), []
    if t.startswith("allocframe("):
        t, ops = "allocframe(#)", ops[-1:]
    t = re.sub(r"mem([wd])\(R\)", r"mem\1(R+#)", t) if re.search(r"mem[wd]\(R\)", t) else t
    if re.search(r"mem[wd]\(R\)", text_shape(text)) and "+#" in t:
        k = 2 if t.startswith(("D =", "R =")) else 1
        ops.insert(k, 0)
    kind = "P" if t.startswith("P = ") else "R" if t.startswith(("R =", "R +", "R -", "R &", "R |", "R ^", "R.h", "R.l")) \
        else "D" if t.startswith("D") and not t.endswith(":carry") else "X"
    return kind, t, ops, guard, made


def text_shape(t):
    return re.sub(r"\br\d+\b", "R", t)


def module(C, work, entries, text):
    """Writes HexCode.tla; returns name -> packet number."""
    pk = packets(C, text)
    targets = {a: i + 1 for i, (a, _, _) in enumerate(pk)}
    targets[0x800] = len(pk) + 1                         # memcpy
    out = []
    for addr, texts, loops in pk:
        ins = [instruction(x, addr, targets) for x in texts]
        writers = [[], [], [], []]
        for j, (kind, t, ops, guard, made) in enumerate(ins):
            if kind == "P":
                writers[ops[0]].append(j + 1)
            for pos, reg in made:
                src = [i for i, x in enumerate(ins) if x[0] == "R" and x[2][0] == reg]
                if len(src) != 1:
                    raise C.ToolError("new value not understood: " + str(texts))
                ops[pos] = src[0] + 1
        body = ",".join('[k |-> "%s", t |-> "%s", a |-> <<%s>>, g |-> <<%s>>]'
                        % (k, t, ",".join(number(o) for o in ops), ",".join(map(str, g))) for k, t, ops, g, _ in ins)
        out.append("[e |-> %d, w |-> <<%s>>,\n    i |-> <<%s>>]"
                   % (loops, ",".join("<<%s>>" % ",".join(map(str, w)) for w in writers), body))
    with open(os.path.join(work, "HexCode.tla"), "w") as f:
        f.write("---- MODULE HexCode ----\nEXTENDS Integers\nCode == <<\n  %s\n>>\n====\n" % ",\n  ".join(out))
    return {n: targets[a] for n, a in entries.items() if a in targets}


# ------------------------------------------------------------------ calls

DOUBLE = {"adddf3": 0, "subdf3": 1, "muldf3": 2, "divdf3": 3, "fmadf4": 4, "fmadf5": 4, "sqrtdf2": 5, "sqrt": 5,
          "mindf3": 6, "maxdf3": 7}
SINGLE = {"divsf3": 3, "sqrtf": 5}
INTEGER = {"udivsi3": (32, 0, 0), "divsi3": (32, 1, 0), "umodsi3": (32, 0, 1), "modsi3": (32, 1, 1), "udivmodsi4": (32, 0, 2),
           "udivdi3": (64, 0, 0), "divdi3": (64, 1, 0), "umoddi3": (64, 0, 1), "moddi3": (64, 1, 1), "udivmoddi4": (64, 0, 2)}
COPY = {"__hexagon_memcpy_likely_aligned_min32bytes_mult8bytes": 0, "__qdsp_memcpy_likely_aligned_min32bytes_mult8bytes": 0,
        "__hexagon_memcpy_dwloop": 1, "hexagon_memcpy_forward_vp4cp4n2": 2}
FRACTION = {"__hexagon_fast2_dadd_asm": ("qd", 0), "__hexagon_fast2_dsub_asm": ("qd", 1), "__hexagon_fast2_dmpy_asm": ("qd", 2),
            "__hexagon_fast2_qd2f_asm": ("qd", 3), "__hexagon_fast2_f2qd_asm": ("qd", 4),
            "__hexagon_fast2ldadd_asm": ("ld", 0), "__hexagon_fast2ldsub_asm": ("ld", 1), "__hexagon_fast2ldmpy_asm": ("ld", 2)}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def uint(self, w):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return r.getrandbits(w)
        if k == 1:
            return r.getrandbits(r.randrange(1, w + 1))
        if k == 2:
            return (1 << r.randrange(w)) % 2**w
        if k == 3:
            return ((1 << r.randrange(w + 1)) - 1) % 2**w
        if k == 4:
            return -r.getrandbits(r.randrange(1, w)) % 2**w
        if k == 5:
            return r.choice([1, 2, 3, 2**(w - 1), 2**(w - 1) - 1, 2**w - 1, 2**(w // 2), 2**(w // 2) - 1, 10, 7])
        if k == 6:
            return ((r.getrandbits(8) | 1) << r.randrange(w)) % 2**w
        return (2**r.randrange(w) + r.choice([-1, 1]) * r.getrandbits(5)) % 2**w

    def divide(self, w, signed):
        """Operands near the boundaries of the quotient as well as arbitrary ones."""
        r = self.r
        while True:
            b = self.uint(w)
            a = self.uint(w)
            if r.randrange(3) == 0 and b:
                q = self.uint(r.randrange(2, w + 1))
                a = (b * q + r.choice([-1, 0, 1, b - 1])) % 2**w
            if b and not (signed and a == 2**(w - 1) and b == 2**w - 1):
                return a, b

    def fp(self, w, near=None):
        p, ew = (52, 11) if w == 64 else (23, 8)
        r = self.r
        k = r.randrange(12)
        bias = 2**(ew - 1) - 1
        frac = r.choice([r.getrandbits(p), 0, 2**p - 1, 1, 2**(p - 1), r.getrandbits(p) & -(1 << r.randrange(p)),
                         2**p - 1 - r.getrandbits(4), r.getrandbits(6)])
        if near is not None and k < 7:
            e = near + r.choice([0, 1, -1, 2, -2, p, -p, p + 1, -p - 1, p + 2, -p - 2, r.randrange(-70, 70), r.randrange(-5, 6)])
        elif k < 2:
            e = r.randrange(2**ew - 1)
        elif k < 5:
            e = bias + r.randrange(-60, 61)
        elif k < 7:
            e = r.choice([0, 1, 2, 3, 2**ew - 2, 2**ew - 3, p, p + 1])
        elif k < 9:
            e = r.randrange(0, 2 * p)
        elif k == 9:
            e = r.choice([0, 2**ew - 1])
            frac = r.choice([0, 0, 1, r.getrandbits(p), 2**(p - 1), 2**p - 1, 1 << r.randrange(p)])
        elif k == 10:
            e, frac = 0, r.getrandbits(r.randrange(1, p + 1))
        else:
            e = bias
        e = min(max(e, 0), 2**ew - 1)
        return r.getrandbits(1) << (w - 1) | e << p | frac

    def operands(self, w, o):
        p, ew = (52, 11) if w == 64 else (23, 8)
        bias = 2**(ew - 1) - 1
        r = self.r
        a = self.fp(w)
        ea = a >> p & (2**ew - 1)
        if o in (0, 1, 6, 7):
            b = a ^ r.getrandbits(3) if r.randrange(6) == 0 else self.fp(w, ea)
            return [a, b ^ (r.getrandbits(1) << (w - 1))]
        if o == 5:
            if r.randrange(8):
                a &= 2**(w - 1) - 1
            if r.randrange(4) == 0:             # at and around squares and halfway points of roots
                m = (1 << p) | r.getrandbits(p)
                n = m * m if r.randrange(2) else m * (m + 1)
                sh = n.bit_length() - p - 1
                a = (bias + r.randrange(-40, 40)) << p | ((n >> sh) + r.choice([-1, 0, 0, 1])) & (2**p - 1)
            return [a]
        if o == 2:
            b = self.fp(w, r.choice([bias, 2 * bias - ea, bias - ea, 1 + bias - ea]))
            return [a, b]
        if o == 3:
            b = self.fp(w, r.choice([ea, bias, ea + bias, ea - bias]))
            if r.randrange(3) == 0:             # quotients near halfway points and near exact ones
                q, d = (1 << p) | r.getrandbits(p), (1 << p) | r.getrandbits(p)
                n = (2 * q + r.randrange(2)) * d
                sh = n.bit_length() - p - 1
                e = bias + r.randrange(-30, 30)
                a = e << p | ((n >> sh) + r.choice([0, 0, 1])) & (2**p - 1)
                b = min(max(e + r.choice([0, 1, -1, r.randrange(-200, 200), bias - 2, bias - 20, -bias + 3]), 0), 2 * bias) << p | d & (2**p - 1)
            return [a, b]
        # a * b + c: c near the product, or its negative, or far from it
        b = self.fp(w, r.choice([bias, 2 * bias - ea, bias - ea]))
        eb = b >> p & (2**ew - 1)
        c = self.fp(w, ea + eb - bias)
        if r.randrange(4) == 0 and 0 < ea + eb - bias < 2 * bias:
            ma, mb = (1 << p) | a & (2**p - 1), (1 << p) | b & (2**p - 1)
            n = ma * mb
            sh = n.bit_length() - p - 1
            c = ((a ^ b) >> (w - 1) ^ 1) << (w - 1) | (ea + eb - bias + sh - p) << p | ((n >> sh) + r.choice([0, 0, 1, -1])) & (2**p - 1)
        return [a, b, c]

    def fraction(self, kind):
        r = self.r
        m = r.getrandbits(63) | 1 << 62
        m = r.choice([m, m, m, 1 << 62, 2**63 - 1, m & -(1 << r.randrange(63))])
        if r.randrange(2):
            m = 2**64 - m if m != 1 << 62 else 2**63
        if r.randrange(20) == 0:
            m = 0
        e = r.choice([0, 1, -1, r.randrange(-70, 70), r.randrange(-9000, 9000)])
        if kind == "qd":
            m &= -65536 % 2**64
            e %= 65536
            return [m | (32769 if m == 0 else e)]
        return [m, 2**31 + 1 if m == 0 else e % 2**32]


def calls(names, seed, count):
    """Lines for the specification: every routine under every name, `count` calls of each under the first one."""
    g = Gen(seed)
    first = set()
    for name in sorted(names):
        e = names[name]
        base = re.sub(r"^__(hexagon|qdsp)_(fast2?_)?", "", name)
        once = (base, e) in first
        first.add((base, e))

        def emit(op, args):
            return "%s %s %s > 0" % (op, name, " ".join("%x" % a for a in (e, *args)))
        if base in INTEGER and base != name:
            w, s, what = INTEGER[base]
            for _ in range(count // 20 if once else count):
                yield emit("idiv:%d:%d:%d" % (w, s, what), g.divide(w, s))
        elif (base in DOUBLE or base in SINGLE) and base != name:
            w = 64 if base in DOUBLE else 32
            o = DOUBLE.get(base, SINGLE.get(base))
            for k in range(count // 20 if once else 2 * count):
                rm = g.r.randrange(4) if k % 4 == 0 else 0
                yield emit("%s:%d:%d" % ("df" if w == 64 else "sf", rm, o), g.operands(w, o))
        elif name in COPY:
            kind = COPY[name]
            for k in range(max(30, count // 20)):
                n = g.r.choice([g.r.randrange(4, 12), g.r.randrange(4, 40), g.r.randrange(4, 120)])
                if kind == 2:
                    n = g.r.randrange(0, 90) if k % 6 else 1024 + g.r.randrange(0, 40)
                    to, frm = 4 * g.r.randrange(4), 4 * g.r.randrange(1024)
                    if k % 6 == 0:
                        frm = 4096 - 4 * g.r.randrange(40)
                    if g.r.randrange(2) and frm >= 4 * n + to:
                        pass
                    else:
                        to, frm = 4096 * 3 + to, frm % 4096
                else:
                    n *= 8
                    to, frm = 8 * g.r.randrange(4), 8 * (n // 8 + g.r.randrange(4, 8))
                    if g.r.randrange(2):
                        to, frm = frm, to
                    if kind == 0 and k % 3 == 0:
                        to, frm = to + g.r.choice([0, 4, 1, 7]), frm + g.r.choice([0, 4, 2, 3])
                yield emit("copy:%d" % kind, (to, frm, n))
        elif re.match(r"__(save|restore)_r\d+_through_r\d+", name) or name == "__deallocframe":
            m = re.match(r"__(save|restore)_r(\d+)_through_r(\d+)(_and_deallocframe)?(_before_\w+)?$", name)
            if m:
                a, b = int(m.group(2)), int(m.group(3))
                lo, hi, down = min(a, b), max(a, b), 1 if a > b else 0
                if m.group(1) == "save":
                    yield emit("save:%d:%d:%d" % (lo, hi, down), ())
                else:
                    yield emit("restore:%d:%d:%d:%d" % (lo, hi, down, 1 if m.group(5) else 0), ())
            elif name == "__deallocframe":
                yield emit("restore:16:16:0:0", ())
        elif name in FRACTION:
            kind, o = FRACTION[name]
            for _ in range(count):
                if kind == "qd" and o == 4:
                    a = g.fp(32)
                    if 0 < a >> 23 & 255 < 255 or a & 0x7fffffff == 0:
                        yield emit("qd:4", [a])
                elif kind == "qd" and o == 3:
                    a = g.fraction("qd")[0]
                    x = a % 65536 - (65536 if a & 32768 else 0)
                    x = x if x < 127 or a >> 16 == 0 else g.r.randrange(-130, 127)
                    yield emit("qd:3", [a - a % 65536 | x % 65536])
                else:
                    a, b = g.fraction(kind), g.fraction(kind)
                    if g.r.randrange(3) == 0 and o != 2 and a[0] >> 16:           # cancellation
                        b = [(a[0] if o == 1 else -a[0] % 2**64)] + a[1:]
                        if kind == "qd":
                            b = [b[0] - b[0] % 65536 | a[0] % 65536]
                            b = [(b[0] + 65536 * g.r.choice([0, 1, 5, g.r.getrandbits(20)])) % 2**64]
                        else:
                            b = [(b[0] + g.r.choice([0, 1, 37, g.r.getrandbits(30)])) % 2**64, b[1]]
                    yield emit("%s:%d" % (kind, o), a + b)


def records(C, work, count):
    entries, text = assemble(C, work)
    names = module(C, work, entries, text)
    return list(calls(names, C.SEED, count)) + cache_records(C, work, count)


# ------------------------------------------------------------------ __clear_cache

DRIVER = r"""
#![allow(unused, internal_features, non_snake_case)]
use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<(u32, usize)>> = RefCell::new(Vec::new()));
pub fn rec(text: &str, x: usize) {
    let k = match text.split('(').next().unwrap().trim() {
        "dccleaninva" => 1,
        "icinva" => 2,
        "isync" => 3,
        "dccleana" => 4,
        "syncht" | "barrier" => 5,
        _ => 0,
    };
    LOG.with(|l| l.borrow_mut().push((k, x)));
}
macro_rules! rec_asm {
    ($t:literal $(, options($($o:tt)*))? $(,)?) => { crate::rec($t, 0) };
    ($t:literal, in(reg) $v:expr $(, options($($o:tt)*))? $(,)?) => { crate::rec($t, rec_value($v)) };
    ($t:literal, $n:ident = in(reg) $v:expr $(, options($($o:tt)*))? $(,)?) => { crate::rec($t, rec_value($v)) };
}
trait Value { fn value(self) -> usize; }
impl Value for usize { fn value(self) -> usize { self } }
impl<T> Value for *mut T { fn value(self) -> usize { self as usize } }
impl<T> Value for *const T { fn value(self) -> usize { self as usize } }
fn rec_value<V: Value>(v: V) -> usize { v.value() }
macro_rules! intrinsics { ($($t:tt)*) => { $($t)* }; }
mod hexagon {
    use super::*;
@@
}
fn main() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let v: Vec<usize> = l.split(' ').map(|x| usize::from_str_radix(x, 16).unwrap()).collect();
        LOG.with(|l| l.borrow_mut().clear());
        unsafe { hexagon::__clear_cache(v[0] as *mut u8, v[1] as *mut u8) };
        let log: Vec<String> = LOG.with(|l| l.borrow().iter().map(|(k, x)| format!("{:x} {:x}", k, x)).collect());
        println!("cache __clear_cache 0 {:x} {:x} {} > 0", v[0], v[1], log.join(" "));
    }
}
"""


def cache_records(C, work, count):
    """What the Rust function for the caches does, with its instructions recorded; None when it cannot be compiled alone."""
    text = open(os.path.join(WHERE, "hexagon.rs")).read()
    text = re.sub(r"global_asm!\s*\(.*?\n\s*\)\s*;", "", text, flags=re.S)
    text = re.sub(r"use core::arch::[^;]*;", "", text)
    text = re.sub(r"\b(core::arch::)?asm!", "rec_asm!", text)
    src, exe = os.path.join(work, "cache.rs"), os.path.join(work, "cache")
    with open(src, "w") as f:
        f.write(DRIVER.replace("@@", text))
    p = C.run(["rustc", "--edition", "2024", "-O", "-Cdebug-assertions=on", "-Coverflow-checks=on", src, "-o", exe], 120, check=False)
    if p.returncode:
        C.log("note: the function for the caches does not compile here and was left out\n" + p.stdout[-1500:])
        return []
    r = random.Random(C.SEED)
    ranges = [(s, s + n) for s in (4096, 4097, 4127, 4128, 65535) for n in (0, 1, 2, 31, 32, 33, 64)]
    for _ in range(count):
        s = r.randrange(1, 2**r.randrange(8, 47))
        ranges.append((s, s + r.choice([r.randrange(40), r.randrange(700)])))
    given = os.path.join(work, "ranges.txt")
    with open(given, "w") as f:
        f.write("".join("%x %x\n" % x for x in ranges))
    p = C.run(["sh", "-c", '"$0" < "$1"', exe, given], 60, check=False)
    lines = [re.sub(" +", " ", l) for l in p.stdout.split("\n") if l.startswith("cache ")]
    if p.returncode or len(lines) != len(ranges):
        s, e = ranges[len(lines)]
        lines.append("cache __clear_cache 0 %x %x 0 0 > 0" % (s, e))      # panicked
    return lines
