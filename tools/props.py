"""What the check of each property runs.  check.py provides the machinery."""
import json, os, re, shutil
import a64, exports, fpcode, hexagon, hints, naked, probe, symtab
from concurrent.futures import ThreadPoolExecutor

C = None


def bind(mod):
    global C
    C = mod


A, G, I = "arch", "", "intrinsics"

# name: spec module, models, harness configurations [(feature, profile)], quick and thorough numbers
PURE = {
    "C01": dict(spec="C01", models=["MC_Bits"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=3e7, base=4000, budget=40), thorough=dict(evals=1e9, base=40000, budget=280)),
    "C02": dict(spec="C02", models=["MC_Bits"], cfgs=[(A, "release")],
                quick=dict(evals=1e7, base=3000, budget=40), thorough=dict(evals=1e9, base=30000, budget=280)),
    "C03": dict(spec="C03", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=2e7, base=8000, budget=40), thorough=dict(evals=1e9, base=60000, budget=500),
                models_thorough=[("MC_IEEE", "MC_IEEE_2.cfg")]),
    "C04": dict(spec="C04", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=2e7, base=4000, budget=30), thorough=dict(evals=1e9, base=40000, budget=400)),
    "C05": dict(spec="C05", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=2e7, base=8000, sweep=2**26, budget=40), thorough=dict(evals=1e9, base=60000, sweep=2**32, budget=500)),
    "C06": dict(spec="C06", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=1e7, base=4000, sweep=2**25, budget=40), thorough=dict(evals=1e9, base=40000, sweep=2**32, budget=500)),
    "C07": dict(spec="C07", models=["MC_Mem", "MC_MemAlg"], history=True, cfgs=[(A, "release"), (G, "release"), (G, "release", "aligned"), (A, "release", "ermsb")],
                quick=dict(evals=6e5, base=3000, budget=20), thorough=dict(evals=2e7, base=10000, budget=150)),
    "C08": dict(spec="C08", models=["MC_IEEE"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=3e6, base=1500, sweep=2**24, budget=40), thorough=dict(evals=5e8, base=20000, sweep=2**32, budget=300)),
    "C09": dict(spec="C09", models=[("MC_IEEE", "MC_IEEE_fma.cfg")], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=1e7, base=6000, budget=25), thorough=dict(evals=1e9, base=40000, budget=300),
                models_thorough=[("MC_IEEE", "MC_IEEE_fma3.cfg")]),
    "C10": dict(spec="C10", models=["MC_Exact"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=1e7, base=4000, sweep=2**25, budget=30), thorough=dict(evals=1e9, base=40000, sweep=2**32, budget=300)),
    "C11": dict(spec="C11", models=["MC_Exact"], cfgs=[(G, "release")],
                quick=dict(evals=1e7, base=4000, budget=40), thorough=dict(evals=1e9, base=40000, budget=500)),
    "C12": dict(spec="C12", models=["MC_Exact"], cfgs=[(G, "release")],
                quick=dict(evals=1e7, base=4000, sweep=2**25, budget=40), thorough=dict(evals=1e9, base=40000, sweep=2**32, budget=500)),
    "C13": dict(spec="C13", models=["MC_Exact"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=2e6, base=1000, budget=30), thorough=dict(evals=3e8, base=10000, budget=300)),
    "C14": dict(spec="C14", models=["MC_Real"], models_thorough=[("MC_Real", "MC_Real_2.cfg")], cfgs=[(A, "release")],
                quick=dict(evals=4e6, base=2000, sweep=2**25, budget=60), thorough=dict(evals=3e8, base=30000, sweep=2**32, budget=500)),
    "C15": dict(spec="C15", models=["MC_Real"], models_thorough=[("MC_Real", "MC_Real_2.cfg")], cfgs=[(A, "release")],
                quick=dict(evals=4e6, base=2000, sweep=2**25, budget=60), thorough=dict(evals=3e8, base=30000, sweep=2**32, budget=500)),
    "C16": dict(spec="C16", models=["MC_Real"], models_thorough=[("MC_Real", "MC_Real_2.cfg")], cfgs=[(A, "release")],
                quick=dict(evals=1e6, base=1200, sweep=2**22, budget=60), thorough=dict(evals=5e7, base=8000, sweep=2**30, budget=500)),
    "C17": dict(spec="C17", models=["MC_Laws"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=2e6, base=300, sweep=2**22, budget=30), thorough=dict(evals=3e8, base=4000, sweep=2**32, budget=300)),
    "C18": dict(spec="C18", models=["MC_Laws"], cfgs=[(A, "release"), (G, "release")],
                quick=dict(evals=3e6, base=20, lattice=40000, together=1), thorough=dict(evals=1e8, base=200, lattice=200000, together=1)),
    "C22": dict(spec="C22", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=3e6, base=4000, budget=30), thorough=dict(evals=3e8, base=60000, budget=400)),
    "C23": dict(spec="C23", models=["MC_Hex"], models_thorough=[("MC_Hex", "MC_Hex_2.cfg")], history=True, cfgs=[(A, "release")],
                quick=dict(evals=4e6, base=2000, budget=40), thorough=dict(evals=2e8, base=20000, budget=400)),
    "C24": dict(spec="C24", models=["MC_Bits"], cfgs=[(A, "release")],
                quick=dict(evals=1e7, base=800, budget=40), thorough=dict(evals=1e9, base=12000, budget=400)),
    "C25": dict(spec="C25", models=["MC_Laws"], routes=True, cfgs=[(A, "release")],
                quick=dict(evals=4e5, base=60, sweep=2**20, lattice=40000, budget=40),
                thorough=dict(evals=5e7, base=600, sweep=2**30, lattice=1000000, budget=500)),
    "C28": dict(spec="C28", models=["MC_Bits", "MC_IEEE", "MC_Mem"], foreign=["arm"], history="mem", cfgs=[(A, "release")],
                quick=dict(evals=1e6, base=400, budget=40), thorough=dict(evals=1e8, base=6000, budget=400)),
    "C29": dict(spec="C29", models=["MC_IEEE", "MC_Real"], foreign=["i586", "wasm32"], cfgs=[(A, "release")],
                quick=dict(evals=3e6, base=3000, sweep=2**24, budget=40), thorough=dict(evals=1e9, base=40000, sweep=2**32, budget=400)),
    "C30": dict(spec="C30", models=["MC_Bits", "MC_IEEE"], foreign=["avr", "ppc", "sparc", "riscv", "x86", "uefi", "wasm", "aarch64"], cfgs=[(A, "release")],
                quick=dict(evals=1e6, base=300, budget=40), thorough=dict(evals=1e8, base=4000, budget=400)),
    "C32": dict(spec="C32", models=["MC_Bits", "MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=1e6, base=500, budget=40), thorough=dict(evals=1e8, base=4000, budget=300)),
    "C33": dict(spec="C33", crate="testlib", models=["MC_Steps"], models_thorough=[("MC_Steps", "MC_Steps_2.cfg")], cfgs=[(G, "release")],
                quick=dict(evals=1e6, base=4000, budget=30), thorough=dict(evals=5e7, base=40000, budget=300)),
    "C34": dict(spec="C34", crate="testlib", models=["MC_IEEE", "MC_Exact", "MC_Real"], cfgs=[(G, "release")],
                quick=dict(evals=5e4, base=150, lattice=3000, budget=40), thorough=dict(evals=1e6, base=2000, lattice=40000, budget=400)),
    "C26": dict(spec="C26", models=["MC_IEEE"], cfgs=[(A, "release")],
                quick=dict(evals=5e6, base=2500, sweep=2**22, budget=40), thorough=dict(evals=3e8, base=30000, sweep=2**28, budget=400)),
}


def hints_file(ctx):
    p = os.path.join(ctx.work, "hints.txt")
    if not os.path.exists(p):
        ctx.extra["source_literals_as_hints"] = hints.write(C.REPO, p)
    return p


def run_vh(ctx, bindir, tag, prop, args):
    w = ctx.work
    tr, st, cr = (os.path.join(w, "%s-%s" % (tag, x)) for x in ("trace.txt", "stats.json", "crash.txt"))
    cmd = [os.path.join(bindir, "vh"), prop, "--seed", str(C.SEED), "--out", tr, "--stats", st, "--crash", cr,
           "--threads", str(C.THREADS), "--hints", hints_file(ctx)]
    for k, v in args.items():
        cmd += ["--" + k, str(v)]
    p = C.run(cmd, 800, check=False)
    crashed = os.path.exists(cr) and os.path.getsize(cr) > 0
    if p.returncode not in (0, 77) or (p.returncode == 77 and not crashed):
        raise C.ToolError("harness exit %d\n%s" % (p.returncode, p.stdout[-3000:]))
    lines = []
    if crashed:
        lines += open(cr).read().split("\n")
    if p.returncode == 0:
        lines += open(tr).read().split("\n")
        s = json.load(open(st))
        ctx.impl_calls += sum(o["evals"] for o in s["ops"])
        ctx.extra.setdefault("operations", {})[tag] = len(s["ops"])
        ctx.extra["suspicious_calls"] = ctx.extra.get("suspicious_calls", 0) + sum(o["suspects"] + o["panics"] for o in s["ops"])
        idle = [o["op"] for o in s["ops"] if o["evals"] == 0]
        if idle:
            raise C.ToolError("operations never called: %s" % idle)
    return [l for l in lines if l]


def pure(ctx, d):
    tier = d[C.TIER] if C.TIER in d else d["quick"]
    models = d["models"] + (d.get("models_thorough", []) if C.TIER == "thorough" else [])
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: [ctx.model(*(m if isinstance(m, tuple) else (m,))) for m in models])
        lines = []
        if d.get("routes"):
            os.environ["VERIF_ROUTES"] = C.build_routes()
        libs = foreign(d)
        cfgs = d["cfgs"] + (d.get("cfgs_thorough", []) if C.TIER == "thorough" else [])
        for feature, profile, *var in cfgs:
            b = C.build_harness(d.get("crate", "harness"), feature, profile, *var)
            tag = "-".join([feature or "generic"] + ([] if profile == "release" else [profile]) + var)
            lines += run_vh(ctx, b, tag, ctx.prop, tier)
        fut.result()
    tr = os.path.join(ctx.work, "trace.txt")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.judge(d["spec"], tr, d.get("chunk", 64))
    routines(ctx, libs)
    return ctx.finish("model_checking")


def foreign(d):
    libs = C.build_foreign(d["foreign"]) if "foreign" in d else {}
    os.environ["VERIF_FOREIGN"] = ",".join("%s=%s" % x for x in libs.items())
    return libs


def routines(ctx, libs):
    """Executes routines written in assembly on the specification of their processor."""
    thorough = C.TIER == "thorough"
    if ctx.prop == "C29":
        lines = []
        for name, ls in fpcode.records(C, ctx.work, 30000 if thorough else 2000):
            if ls is None:
                C.log("note: the sources for %s do not compile on their own and were left out" % name)
            lines += ls or []
        if lines:
            tr = os.path.join(ctx.work, "asm-fp.txt")
            with open(tr, "w") as f:
                f.write("\n".join(lines) + "\n")
            ctx.extra["runs_of_assembly_fp"] = len(lines)
            ctx.explore("C29_Asm", tr, chunk=64)
    for name, spec, recs in (
            ("arm", "C28_Asm", lambda l: naked.arm(C, l, ctx.work, C.SEED, 30000 if thorough else 1500)),
            ("avr", "C30_Asm", lambda l: naked.avr(C, l, ctx.work, C.SEED, 60000 if thorough else 3000, thorough))):
        if name in libs:
            lines = list(recs(libs[name]))
            if not lines:
                continue
            tr = os.path.join(ctx.work, "asm-%s.txt" % name)
            with open(tr, "w") as f:
                f.write("\n".join(lines) + "\n")
            ctx.extra["runs_of_assembly_" + name] = len(lines)
            ctx.explore(spec, tr, chunk=64)


# simulated machines: parts of the crate conc, models, runs over all shards
SIM = {
    "C19": dict(parts=["arm", "thumb"], models=["MC_Sync"], models_thorough=[("MC_Sync", "MC_Sync_2.cfg")],
                quick=200000, thorough=3000000),
    "C27": dict(parts=["detect"], models=["MC_Detect"], models_thorough=[("MC_Detect", "MC_Detect_2.cfg")],
                quick=240000, thorough=3000000),
}


def in_background(ctx, d):
    models = d["models"] + (d.get("models_thorough", []) if C.TIER == "thorough" else [])
    ex = ThreadPoolExecutor(1)
    return ex.submit(lambda: [ctx.model(*(m if isinstance(m, tuple) else (m,))) for m in models])


def simulate(ctx, d):
    """Runs schedules of the implementation on a simulated machine and judges the histories."""
    exe, parts = C.build_conc(d["parts"])
    fut = in_background(ctx, d)
    runs = d[C.TIER] // C.THREADS

    def shard(k):
        out = os.path.join(ctx.work, "trace-%d.txt" % k)
        p = C.run([exe, ctx.prop, "--seed", str(C.SEED), "--runs", str(runs), "--shard", str(k), "--shards", str(C.THREADS),
                   "--out", out, "--budget", "250"], 600, check=False)
        if p.returncode != 0:
            raise C.ToolError("simulation exit %d\n%s" % (p.returncode, p.stdout[-3000:]))
        return [l for l in open(out).read().split("\n") if l]
    with ThreadPoolExecutor(C.THREADS) as ex:
        lines = [l for ls in ex.map(shard, range(C.THREADS)) for l in ls]
    fut.result()
    ctx.impl_calls += len(lines)
    ctx.extra["parts"] = parts
    tr = os.path.join(ctx.work, "trace.txt")
    lines = sorted(set(lines))
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.extra["distinct_histories"] = len(lines)
    ctx.judge(ctx.prop, tr)
    return ctx.finish("model_checking")


def outline_atomics(ctx):
    exe, _ = C.build_conc(["a64"])
    asm, tr = os.path.join(ctx.work, "captured.s"), os.path.join(ctx.work, "trace.txt")
    C.run([exe, "asm", "--out", asm], 60)
    recs = list(a64.records(asm, ctx.work, C.run))
    with open(tr, "w") as f:
        f.write("\n".join(recs) + "\n")
    ctx.impl_calls += len(recs)
    ctx.explore("C20", tr, "C20_2.cfg" if C.TIER == "thorough" else None)
    return ctx.finish("model_checking")


def stack_probe(ctx):
    exe, parts = C.build_conc(["probe", "chkstk"])
    fut = in_background(ctx, dict(models=["MC_Probe"], models_thorough=[("MC_Probe", "MC_Probe_2.cfg")]))
    lines = []
    driver = os.path.join(C.ROOT, "conc", "probe", "driver.c")
    for kind, ls in probe.records(C, exe, parts, ctx.work, driver, 20000 if C.TIER == "thorough" else 2000):
        ctx.extra.setdefault("calls", {})[kind] = len(ls)
        lines += ls
    fut.result()
    ctx.impl_calls += len(lines)
    tr = os.path.join(ctx.work, "trace.txt")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.judge("C21", tr)
    return ctx.finish("model_checking")


def symbol_check(ctx):
    exe = C.build_symcheck()
    fut = in_background(ctx, dict(models=["MC_Symbols"]))
    lines = symtab.records(C, exe, ctx.work, 40000 if C.TIER == "thorough" else 1500)
    fut.result()
    ctx.impl_calls += len(lines)
    ctx.extra["accepted"] = sum(l.endswith("> 1") for l in lines)
    tr = os.path.join(ctx.work, "trace.txt")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.judge("C31", tr)
    return ctx.finish("model_checking")


def hexagon_routines(ctx):
    """Executes the Hexagon assembly on the specification of its processor."""
    lines = hexagon.records(C, ctx.work, 9000 if C.TIER == "thorough" else 1200)
    tr = os.path.join(ctx.work, "trace.txt")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.impl_calls += len(lines)
    ctx.extra["routines"] = len({l.split()[1] for l in lines})
    ctx.explore("C35", tr, chunk=64, library=ctx.work)
    return ctx.finish("model_checking")


def exported_symbols(ctx):
    """Compares what the sources define in every configuration with the specification."""
    fut = in_background(ctx, dict(models=["MC_Exports"]))
    lines, left, expanded = exports.records(C, C.REPO, ctx.work, C.TIER == "thorough")
    fut.result()
    if left:
        C.log("note: %d configurations do not expand on their own and were left out" % len(left))
    if len(lines) < len(left):
        raise C.ToolError("most configurations do not expand")
    tr = os.path.join(ctx.work, "trace.txt")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.impl_calls += len(lines)
    ctx.extra.update(configurations=len(lines), expansions=expanded, targets=len({l.split()[1].split("/")[0] for l in lines}))
    ctx.explore("C36", tr, chunk=32, library=ctx.work)
    return ctx.finish("model_checking")


def run(ctx):
    C.build_java()
    if ctx.prop in PURE:
        return pure(ctx, PURE[ctx.prop])
    if ctx.prop in SIM:
        return simulate(ctx, SIM[ctx.prop])
    if ctx.prop == "C20":
        return outline_atomics(ctx)
    if ctx.prop == "C21":
        return stack_probe(ctx)
    if ctx.prop == "C31":
        return symbol_check(ctx)
    if ctx.prop == "C35":
        return hexagon_routines(ctx)
    if ctx.prop == "C36":
        return exported_symbols(ctx)
    raise C.ToolError("no check for " + ctx.prop)


def replay(ctx, path):
    """Makes the recorded calls again on the current tree and judges the outcome."""
    C.build_java()
    if ctx.prop not in PURE:
        return run(ctx)         # schedules and programs are regenerated from the seed
    d = PURE[ctx.prop]
    lines = [l for l in open(path) if l.strip() and not l.startswith("#")]
    out = []
    bins = {}
    if d.get("routes"):
        os.environ["VERIF_ROUTES"] = C.build_routes()
    libs = foreign(d)
    for feature, profile, *var in d["cfgs"]:
        bins["-".join([feature or "generic"] + var)] = C.build_harness(d.get("crate", "harness"), feature, profile, *var)
    for l in lines[:200]:
        left = l.split(" > ")[0].split()
        if left[0].startswith(("divmod:", "avr:")) or left[0].count(":") == 3:
            continue                # made again below
        if d.get("history") is True or (d.get("history") and "b:" in l):
            left = left[:3]
        for tag, b in bins.items():
            p = C.run([os.path.join(b, "vh"), ctx.prop, "--call"] + left, 60, check=False)
            m = [x for x in p.stdout.split("\n") if " > " in x]
            if m:
                out.append(m[0])
                break
    tr = os.path.join(ctx.work, "replay.txt")
    open(tr, "w").write("\n".join(out) + "\n")
    if out:
        ctx.judge(d["spec"], tr)
    routines(ctx, libs)
    return ctx.finish("model_checking")
