"""Which symbols the library exports as it is configured on each target.

The build script runs with the environment cargo would give it for the target, predicates on the target are
replaced by their value there, and the compiler expands the result.  No code for the target is generated.
"""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

KEYS = ("arch", "os", "family", "env", "abi", "vendor", "endian", "pointer_width", "feature", "has_atomic", "has_atomic_load_store",
        "object_format")

HOST = "x86_64-unknown-linux-gnu"


def facts(triple):
    """What the compiler says about a target: {key: set of values}, bare words."""
    p = subprocess.run(["rustc", "--print", "cfg", "--target", triple], capture_output=True, text=True)
    if p.returncode != 0:
        return None
    f, words = {k: set() for k in KEYS}, set()
    for l in p.stdout.split("\n"):
        m = re.match(r'target_(\w+)="(.*)"$', l)
        if m and m.group(1) in f:
            f[m.group(1)].add(m.group(2))
        elif re.match(r"\w+$", l):
            words.add(l)
    return f, words


def script(repo, work):
    exe = os.path.join(work, "build-script")
    p = subprocess.run(["rustc", "--edition", "2024", "-A", "warnings", "--cfg", 'feature="unmangled-names"', "--cfg", 'feature="arch"', "-o", exe,
                        os.path.join(repo, "compiler-builtins", "build.rs")], capture_output=True, text=True)
    return exe if p.returncode == 0 else None, p.stderr


def configured(exe, triple, fact, repo, work, features=("unmangled-names",)):
    """Predicates the build script sets."""
    f, words = fact
    env = {"PATH": os.environ["PATH"], "TARGET": triple, "HOST": HOST, "OPT_LEVEL": "3", "OUT_DIR": work,
           "CARGO_MANIFEST_DIR": os.path.join(repo, "compiler-builtins")}
    for x in features:
        env["CARGO_FEATURE_" + x.upper().replace("-", "_")] = "1"
    for k in KEYS:
        v = ",".join(sorted(f[k]))
        if v or k in ("arch", "os", "env", "vendor"):
            env["CARGO_CFG_TARGET_" + k.upper()] = v
    for w in words:
        env["CARGO_CFG_" + w.upper()] = ""
    p = subprocess.run([exe], capture_output=True, text=True, env=env, cwd=work)
    if p.returncode != 0:
        return None
    return set(re.findall(r"(?m)^cargo::?rustc-cfg=(.*)$", p.stdout))


PREDICATE = re.compile(r'target_(%s)\s*=\s*"([^"]*)"|(?<=[(,\s])(windows|unix)(?=\s*[,)])' % "|".join(KEYS))


def sources(repo):
    """Files that contain predicates on the target, as {path: pieces}; predicates are tuples."""
    found = {}
    for part in ("compiler-builtins/src", "libm/src"):
        for d, _, fs in os.walk(os.path.join(repo, part)):
            for x in fs:
                if not x.endswith(".rs"):
                    continue
                text, at, pieces = open(os.path.join(d, x)).read(), 0, []
                for m in PREDICATE.finditer(text):
                    pieces += [text[at:m.start()], ("word", m.group(3)) if m.group(3) else (m.group(1), m.group(2))]
                    at = m.end()
                if pieces:
                    found[os.path.relpath(os.path.join(d, x), repo)] = pieces + [text[at:]]
    return found


def holds(p, fact):
    return p[1] in (fact[1] if p[0] == "word" else fact[0][p[0]])


def copy(repo, out, fact, srcs):
    """The sources with the predicates replaced by their values; what has none is linked to."""
    def fill(d):
        os.makedirs(os.path.join(out, d))
        for x in os.listdir(os.path.join(repo, d)):
            p = os.path.join(d, x)
            if p in srcs:
                with open(os.path.join(out, p), "w") as g:
                    g.write("".join(s if isinstance(s, str) else "all()" if holds(s, fact) else "any()" for s in srcs[p]))
            elif any(s.startswith(p + "/") for s in srcs):
                fill(p)
            else:
                os.symlink(os.path.join(repo, p), os.path.join(out, p))
    fill("compiler-builtins/src")
    fill("libm/src")


def expand(out, cfgs):
    cmd = ["rustc", "-Zunpretty=expanded", "--edition", "2024", "--crate-type", "lib", "--crate-name", "compiler_builtins", "-A", "warnings"]
    for c in sorted(cfgs):
        cmd += ["--cfg", c]
    return subprocess.run(cmd + [os.path.join(out, "compiler-builtins", "src", "lib.rs")], capture_output=True, text=True)


def symbols(text):
    """{symbol: [(binding, ABI, argument types, result type), ...]} of expanded source."""
    found, attrs, lines, i = {}, [], text.split("\n"), 0
    while i < len(lines):
        s = lines[i].strip()
        i += 1
        if s.startswith("#[") or s.startswith("#!["):
            attrs.append(s)
        m = re.match(r"(?:pub(?:\([^)]*\))?\s+)?static\s+(?:mut\s+)?(\w+)\s*:", s)
        if m and re.search(r"\bno_mangle\b|export_name", " ".join(attrs)):
            found.setdefault(m.group(1), []).append(("object", "", [], ""))
        m = re.search(r'(?:extern\s+"([^"]*)"\s+)?\bfn\s+(\w+)\s*[(<]', s)
        if m:
            a = " ".join(attrs)
            name = re.search(r'export_name\s*=\s*"([^"]*)"', a)
            if name or re.search(r"\bno_mangle\b|\brustc_std_internal_symbol\b", a):
                b = re.search(r'linkage\s*=\s*"(\w+)"', a)
                d, k = s, i
                while not re.search(r"[{;]", d[close(d):]) and k < len(lines):
                    d += " " + lines[k].strip()
                    k += 1
                found.setdefault(name.group(1) if name else m.group(2), []).append(
                    (b.group(1) if b else "internal" if "rustc_std_internal_symbol" in a else "strong", m.group(1) or "Rust") + signature(d))
        if s and not s.startswith("#") and not s.startswith("//"):
            attrs = []
    return found


def close(decl):
    """Where the argument list ends."""
    d = 0
    for j in range(decl.index("(", decl.index("fn ")), len(decl)):
        d += {"(": 1, ")": -1}.get(decl[j], 0)
        if d == 0:
            return j
    return len(decl)


def signature(decl):
    """Argument types and result type of a declaration."""
    i, j = decl.index("(", decl.index("fn ")), close(decl)
    inner, rest = decl[i + 1:j], decl[j + 1:]
    parts, d, cur = [], 0, ""
    for c in inner:
        d += c in "(<["
        d -= c in ")>]"
        if c == "," and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts = [p for p in parts + [cur] if p.strip()]
    m = re.match(r"\s*->\s*(.*?)\s*(\{|where\b|;|$)", rest)
    tidy = lambda t: re.sub(r"\s+", " ", re.sub(r"(\b\w+|\$crate)::", "", t)).strip()
    return [tidy(p.split(":", 1)[1]) if ":" in p else tidy(p) for p in parts], tidy(m.group(1)) if m else "()"


def width(t, fact, alias):
    """A type as the calling convention sees it."""
    f, _ = fact
    small = "16" if f["arch"] & {"avr", "msp430"} else "32"
    for _ in range(8):
        t = alias.get(t, t)
    if t.startswith(("&", "*", "Option<&", "NonNull<", "Option<NonNull<")):
        return "ptr"
    if t in ("f16", "f32", "f64", "f128"):
        return t
    m = re.match(r"(?:[iu]|Wrapping<[iu])(8|16|32|64|128|size)>?$", t)
    if m:
        return "w" + (min(f["pointer_width"]) if m.group(1) == "size" else m.group(1))
    if t in ("c_int", "c_uint"):
        return "w" + small
    return {"()": "void", "!": "never", "": "void", "c_char": "w8", "c_schar": "w8", "c_uchar": "w8", "bool": "w8", "c_longlong": "w64",
            "c_ulonglong": "w64", "c_short": "w16", "c_ushort": "w16"}.get(t, t)


SETS = (("unmangled-names", "arch"), ("unmangled-names", "mem"), ("unmangled-names", "arch", "mem", "unstable-public-internals"), ("arch", "mem"))


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x.replace("\\", "").replace('"', "")
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(map(tla, x))) + "}"
    return "<<" + ", ".join(map(tla, x)) + ">>"


def build(repo, work, cfgs):
    """Names a library built for this machine defines: {(binding, name)}."""
    out = os.path.join(work, "lib")
    os.makedirs(out, exist_ok=True)
    cmd = ["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "compiler_builtins", "-A", "warnings", "-O", "--out-dir", out]
    for c in sorted(cfgs):
        cmd += ["--cfg", c]
    p = subprocess.run(cmd + [os.path.join(repo, "compiler-builtins", "src", "lib.rs")], capture_output=True, text=True)
    if p.returncode != 0:
        return None
    p = subprocess.run(["nm", "--defined-only", os.path.join(out, "libcompiler_builtins.rlib")], capture_output=True, text=True)
    rows = re.findall(r"(?m)^[0-9a-f]* ([A-Z]) (\w+)$", p.stdout)
    return {({"W": "weak", "V": "weak"}.get(b, "strong"), n) for b, n in rows if not n.startswith(("_R", "_ZN", "anon."))}


def records(C, repo, work, everything):
    """Writes the module Observed and returns the lines of the trace, what could not be expanded."""
    os.makedirs(work, exist_ok=True)
    os.environ.update(C.env())
    exe, err = script(repo, work)
    if exe is None:
        raise C.ToolError("build script\n" + err[-2000:])
    targets = subprocess.run(["rustc", "--print", "target-list"], capture_output=True, text=True).stdout.split()
    srcs = sources(repo)
    preds = {s for ps in srcs.values() for s in ps if not isinstance(s, str)}

    def setup(n):
        t = targets[n]
        fact = facts(t)
        if fact is None:
            return []
        both = {"target_has_reliable_f16", "target_has_reliable_f128"}
        other = (fact[0], (fact[1] - both) | (both - fact[1]))
        res = []
        wide = everything or t == HOST or (n + C.SEED) % 4 == 0
        for fact2, sets in ((fact, SETS), (other, SETS[:1])) if wide else ((fact, SETS[:1]),):
            for fs in sets:
                c = configured(exe, t, fact2, repo, work, fs)
                if c is not None:
                    cfgs = frozenset(c | {'feature="%s"' % x for x in fs})
                    true = frozenset(p for p in preds if holds(p, fact2))
                    res.append((t, fact2, fs, (true, cfgs)))
        return res
    with ThreadPoolExecutor(C.THREADS) as ex:
        confs = [c for cs in ex.map(setup, range(len(targets))) for c in cs]
    todo = {}
    for c in confs:
        todo.setdefault(c[3], c)

    def one(kc):
        key, (t, fact, fs, _) = kc
        out = os.path.join(work, "src-%d" % (abs(hash(key)) % 10**12))
        copy(repo, out, fact, srcs)
        p = expand(out, key[1])
        subprocess.run(["rm", "-rf", out])
        codes = set(re.findall(r"(?m)^error(\[E\d+\])?", p.stderr)) - {"[E0432]", "[E0433]", ""}
        if codes or not p.stdout.strip():
            return key, None
        alias = {}
        for n, v in re.findall(r"(?m)^\s*(?:pub(?:\([^)]*\))?\s+)?type (\w+) = ([^;<>]+);", p.stdout):
            v = re.sub(r"(\b\w+|\$crate)::", "", v).strip()
            alias[n] = v if alias.get(n, v) == v else n
        return key, (symbols(p.stdout), alias)
    with ThreadPoolExecutor(C.THREADS) as ex:
        expanded = dict(ex.map(one, todo.items()))
    syms, sets, rows, lines, left = {}, {}, [], [], []

    def number(entries):
        return sets.setdefault(frozenset(syms.setdefault(e, len(syms) + 1) for e in entries), len(sets) + 1)

    def row(t, fact, fs):
        f, words = fact
        one = lambda k: min(f[k]) if f[k] else ""
        rows.append("[name |-> %s, parts |-> %s, arch |-> %s, os |-> %s, env |-> %s, vendor |-> %s, fam |-> %s, feats |-> %s, pw |-> %s, f16 |-> %s, f128 |-> %s, crate |-> %s]" % (
            tla(t), tla(t.split("-")), tla(one("arch")), tla(one("os")), tla(one("env")), tla(one("vendor")), tla(f["family"]), tla(f["feature"]),
            one("pointer_width"), tla("target_has_reliable_f16" in words), tla("target_has_reliable_f128" in words), tla(set(fs))))
        return len(rows)
    for t, fact, fs, key in confs:
        e = expanded[key]
        if e is None:
            left.append(t)
            continue
        entries, twice = set(), 0
        for n, ds in e[0].items():
            twice += len(ds) > 1
            for b, abi, a, r in ds:
                entries.add((b, n, abi, tuple(width(x, fact, e[1]) for x in a), width(r, fact, e[1])))
        lines.append("exports %s/%s %x > %x %x" % (t, "+".join(fs), row(t, fact, fs), number(entries), twice))
    for t, fact, fs, key in confs:
        if t == HOST:
            got = build(repo, work, key[1])
            if got is not None:
                lines.append("object %s/%s %x > %x 0" % (t, "+".join(fs), row(t, fact, fs), number({(b, n, "", (), "") for b, n in got})))
    with open(os.path.join(work, "Observed.tla"), "w") as g:
        g.write("---- MODULE Observed ----\nConfigurations == <<\n%s>>\nSymbols == <<\n%s>>\nSets == <<\n%s>>\n====\n" % (
            ",\n".join(rows), ",\n".join(tla(s) for s in syms), ",\n".join("{" + ", ".join(map(str, sorted(s))) + "}" for s in sets)))
    return lines, left, len(todo)
