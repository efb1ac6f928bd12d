#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01   (tier and seed from VERIF_TIER, VERIF_SEED).

1. builds the harness against /repo's working tree (every configuration the property needs);
2. model-checks the specification's own models of the property (MC_*.tla) exhaustively;
3. drives the implementation and records calls / histories;
4. lets TLC judge the recorded traces against the specification;
5. writes evidence/<id>.json.

exit 0: held; exit 1: violated (VIOLATION line, replay file); anything else: the check failed.
"""
import json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "tlc", "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
TOOLCHAIN = "nightly-2026-08-21"
sys.path.insert(0, os.path.join(ROOT, "tools"))

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THREADS = os.cpu_count() or 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             LANG="C.UTF-8", HOME=e.get("HOME", "/root"))
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


def run(cmd, timeout, cwd=None, check=True, extra_env=None):
    e = env()
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd)[:300])
    if check and p.returncode != 0:
        raise ToolError("%s\nexit %d\n%s" % (" ".join(cmd)[:300], p.returncode, p.stdout[-6000:]))
    return p


# ------------------------------------------------------------------ building

def build_java():
    src = []
    for d, _, fs in os.walk(os.path.join(ROOT, "tlc", "java")):
        src += [os.path.join(d, f) for f in fs if f.endswith(".java")]
    out = os.path.join(BUILD, "java")
    stamp = os.path.join(out, ".stamp")
    if os.path.exists(stamp) and all(os.path.getmtime(s) <= os.path.getmtime(stamp) for s in src):
        return
    os.makedirs(out, exist_ok=True)
    run(["javac", "-nowarn", "-d", out, "-cp", JAR] + sorted(src), 300)
    open(stamp, "w").close()


# ways to compile the library that cargo features do not reach: (environment, RUSTFLAGS)
VARIANTS = {
    # as on targets without cheap unaligned access
    "aligned": ({"RUSTC_WRAPPER": os.path.join(ROOT, "tools", "rustc-drop-cfg.sh"), "VERIF_DROP_CFG": "mem_unaligned"}, ""),
    # the copy loops for processors with fast string instructions
    "ermsb": ({}, "-Ctarget-feature=+ermsb"),
}


INCLUDED = ["algos"]


def build_harness(crate, feature, profile, variant=None):
    """Returns the directory with the binaries of one configuration."""
    cfg = (feature or "generic") + ("" if profile == "release" else "-" + profile) + ("-" + variant if variant else "")
    target = os.path.join(BUILD, "target-" + crate + "-" + cfg)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", target]
    e, flags = VARIANTS[variant] if variant else ({}, "")
    e = dict(e, VERIF_VARIANT=variant or "")
    if flags:
        e["RUSTFLAGS"] = flags
    t = time.time()
    # parts that include private sources of the library are left out if they no longer compile
    opt = INCLUDED if feature == "arch" and not variant else []
    tries = [opt] + [[x for x in opt if x != y] for y in opt] + ([[]] if opt else [])
    for i, extra in enumerate(tries):
        fs = ([feature] if feature else []) + extra
        p = run(cmd + (["--features", ",".join(fs)] if fs else []), 700, cwd=os.path.join(ROOT, crate), extra_env=e,
                check=i == len(tries) - 1)
        if p.returncode == 0:
            break
    for x in opt:
        if x not in extra:
            log("note: part %s of the harness does not fit the current sources and was left out" % x)
    log("built %s [%s] in %.1f s" % (crate, cfg, time.time() - t))
    return os.path.join(target, profile)


def build_routes():
    """Builds the libraries with all routes to a function; returns configuration=path,..."""
    res = []
    t = time.time()

    def one(c):
        name, feature, profile = c
        target = os.path.join(BUILD, "target-routes-" + name)
        for fs in (["aliases"], []):
            fs = fs + ([feature] if feature else [])
            p = run(["cargo", "build", "--offline", "--profile", profile, "--target-dir", target, "--features", ",".join(fs)], 700,
                    cwd=os.path.join(ROOT, "routes"), check="aliases" not in fs)
            if p.returncode == 0:
                break
        else:
            log("note: the aliases do not fit the current sources and were left out")
        return name + "=" + os.path.join(target, profile, "libroutes.so")
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, [("arch", "arch", "release"), ("generic", "", "release"), ("intrinsics", "intrinsics", "release"),
                                ("shipped", "arch", "plain")]))
    log("built routes in %.1f s" % (time.time() - t))
    return ",".join(res)


def build_foreign(targets):
    """Builds the library as configured on other targets; returns {target: path of the library}."""
    import foreign
    t = time.time()

    def one(name):
        out = os.path.join(BUILD, "foreign", name)
        foreign.generate(REPO, out, name)
        foreign.wrap(ROOT, out, name)
        target = os.path.join(BUILD, "target-foreign-" + name)
        tries = [["naked_" + name], []] if name in ("arm", "avr") else [[]]
        for fs in tries:
            p = run(["cargo", "build", "--offline", "--release", "--target-dir", target] + (["--features", ",".join(fs)] if fs else []),
                    700, cwd=os.path.join(out, "wrap"), check=False)
            if p.returncode == 0:
                break
        else:
            log("note: the sources as configured on %s do not compile here and were left out\n%s" % (name, p.stdout[-1500:]))
            return None
        if fs != tries[0]:
            log("note: the assembly of %s does not fit the current sources and was left out" % name)
        return name, os.path.join(target, "release", "libforeign.so")
    with ThreadPoolExecutor(5) as ex:
        res = dict(x for x in ex.map(one, targets) if x)
    if not res:
        raise ToolError("no foreign configuration compiles")
    log("built foreign [%s] in %.1f s" % (",".join(res), time.time() - t))
    return res


def build_symcheck():
    """Builds the symbol checker of the repository; returns its path."""
    target = os.path.join(BUILD, "target-symcheck")
    t = time.time()
    run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "symcheck",
         "--target-dir", target], 700)
    log("built symcheck in %.1f s" % (time.time() - t))
    return os.path.join(target, "debug", "symcheck")


def build_conc(parts):
    """Builds the simulation crate with the named parts; parts that no longer compile are left out.
    Returns (binary, parts built)."""
    target = os.path.join(BUILD, "target-conc-" + "-".join(parts))
    t = time.time()
    tries = [parts] + ([[x] for x in parts] if len(parts) > 1 else [])
    for i, fs in enumerate(tries):
        p = run(["cargo", "build", "--offline", "--release", "--target-dir", target, "--features", ",".join(fs)], 700,
                cwd=os.path.join(ROOT, "conc"), check=i == len(tries) - 1)
        if p.returncode == 0:
            break
    for x in parts:
        if x not in fs:
            log("note: part %s of the simulation does not fit the current sources and was left out" % x)
    log("built conc [%s] in %.1f s" % (",".join(fs), time.time() - t))
    return os.path.join(target, "release", "conc"), fs


# ------------------------------------------------------------------ TLC

def tlc(module, workdir, props=(), workers=THREADS, timeout=800, cont=True, cfg=None, heap="6g", extra=()):
    meta = os.path.join(workdir, "tlc-" + module + "-" + (os.path.basename(cfg) if cfg else ""))
    shutil.rmtree(meta, ignore_errors=True)
    scratch = meta + ".tmp"
    os.makedirs(scratch, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + scratch] + ["-D%s=%s" % kv for kv in props]
    cmd += ["-cp", os.path.join(BUILD, "java") + ":" + JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", "-lncheck", "final"]
    if cont:
        cmd.append("-continue")
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(extra) + [module + ".tla"]
    p = run(cmd, timeout, cwd=SPEC, check=False)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(scratch, ignore_errors=True)
    out = p.stdout
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
    res = {"out": out, "code": p.returncode, "generated": 0, "distinct": 0, "left": None}
    if m:
        res.update(generated=int(m.group(1).replace(",", "")), distinct=int(m.group(2).replace(",", "")),
                   left=int(m.group(3).replace(",", "")))
    return res


def model_check(module, workdir, cfg=None):
    """Exhaustive check of a specification model; any violation there is an error of the specification."""
    r = tlc(module, workdir, workers=4, cont=False, cfg=cfg)
    if r["code"] != 0 or "No error has been found" not in r["out"] or r["left"] != 0:
        raise ToolError("model %s %s: TLC exit %s\n%s" % (module, cfg or "", r["code"], r["out"][-4000:]))
    return r


def replay_trace(module, trace, workdir, chunk=64, cfg=None, timeout=800):
    """Returns (result, list of violating record numbers)."""
    with open(trace) as f:
        n = sum(1 for _ in f)
    if n == 0:
        raise ToolError("empty trace " + trace)
    chunk = max(1, min(chunk, n // (THREADS * 4) + 1))
    r = tlc(module, workdir, props=[("trace.file", trace), ("trace.chunk", chunk)], cfg=cfg, timeout=timeout)
    chunks = (n + chunk - 1) // chunk
    out = r["out"]
    bad = set()
    for m in re.finditer(r"bad = \{([^}]*)\}", out):
        bad |= {int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()}
    fatal = re.search(r"(Error: (?!Invariant|The behavior up to|The following)[^\n]*\n(?:[^\n]*\n){0,12})", out)
    if r["distinct"] != 2 * chunks or r["left"] != 0 or (fatal and not bad):
        raise ToolError("trace validation with %s did not complete (%s of %s states)\n%s"
                        % (module, r["distinct"], 2 * chunks, (fatal.group(1) if fatal else out[-4000:])))
    r["records"] = n
    return r, sorted(bad)


def explore(module, trace, workdir, cfg=None, timeout=850, chunk=1, library=None):
    """Explores a state space whose program is given by a trace.  Returns (result, violating record numbers);
    a negative number in the specification's set `bad' stands for a program it cannot execute."""
    r = tlc(module, workdir, props=[("trace.file", trace), ("trace.chunk", chunk)] + ([("TLA-Library", library)] if library else []),
            cfg=cfg, timeout=timeout)
    out = r["out"]
    bad = set()
    for m in re.finditer(r"bad = \{([^}]*)\}", out):
        bad |= {int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()}
    fatal = re.search(r"(Error: (?!Invariant|The behavior up to|The following)[^\n]*\n(?:[^\n]*\n){0,12})", out)
    if r["left"] != 0 or (fatal and not bad):
        raise ToolError("exploration of %s did not complete\n%s" % (module, (fatal.group(1) if fatal else out[-4000:])))
    if bad and max(bad) < 0:
        raise ToolError("%s: instructions not known to the specification in records %s" % (module, sorted(-b for b in bad)))
    for m in sorted(set(re.findall(r'<<\s*"differs",(.*?)>> *\n(?=\S)', out, re.S)))[:5]:
        log("  wanted, found instead: " + re.sub(r"\s+", " ", m)[:300])
    return r, sorted(b for b in bad if b > 0)


# ------------------------------------------------------------------ findings

def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(BUILD, "work-" + prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.impl_calls = 0
        self.models = {}
        self.samples = []
        self.bad = []           # violating records (text)
        self.extra = {}
        self.assumptions = []
        self.t0 = time.time()

    def model(self, module, cfg=None):
        r = model_check(module, self.work, cfg)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models[module + (":" + cfg if cfg else "")] = {"distinct": r["distinct"], "generated": r["generated"]}

    def judge(self, module, trace, chunk=64, cfg=None):
        r, bad = replay_trace(module, trace, self.work, chunk, cfg)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += r["records"]
        lines = open(trace).read().split("\n")
        self.bad += [lines[i - 1] for i in bad]
        step = max(1, r["records"] // 4)
        self.samples += [l[:300] for l in lines[0:r["records"]:step][:4]]
        return bad

    def explore(self, module, trace, cfg=None, chunk=1, library=None):
        r, bad = explore(module, trace, self.work, cfg, chunk=chunk, library=library)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        lines = open(trace).read().split("\n")
        self.traces += len([l for l in lines if l])
        self.bad += [lines[i - 1] for i in bad]
        self.samples += [l[:300] for l in lines[::max(1, len(lines) // 4)][:4]]

    def finish(self, level):
        kf = known_findings(self.prop)
        new, known = [], {}
        for b in self.bad:
            for rx, what in kf:
                if rx.search(b):
                    known.setdefault(what, []).append(b)
                    break
            else:
                new.append(b)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
                           "models": self.models, "implementation_calls_screened": self.impl_calls, **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, bs in known.items():
            log("KNOWN-FINDING: property=%s %s (%d records, e.g. %s)" % (self.prop, what, len(bs), bs[0][:200]))
        log("%s: %d implementation calls, %d records judged, %d states, %.1f s"
            % (self.prop, self.impl_calls, self.traces, self.states, time.time() - self.t0))
        if new:
            rp = os.path.join(ROOT, "evidence", "replay-" + self.prop + ".txt")
            with open(rp, "w") as f:
                f.write("# calls the specification does not allow: op config args > results\n")
                f.write("# run again with: python3 /verif/check.py %s --replay %s\n" % (self.prop, rp))
                for b in new[:2000]:
                    f.write(b + "\n")
            for b in new[:10]:
                log("  not allowed: " + b[:400])
            log("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


import props  # noqa: E402  (tools/props.py: what each property runs)


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        if "--replay" in sys.argv:
            return props.replay(ctx, sys.argv[sys.argv.index("--replay") + 1])
        return props.run(ctx)
    except ToolError as e:
        log("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        log("CHECK-ERROR property=%s %s" % (prop, traceback.format_exc()))
        return 2


if __name__ == "__main__":
    props.bind(sys.modules[__name__])
    sys.exit(main())
