"""Runs the stack probe routines, assembled from the library's own text, on a private stack."""
import os, re

# routine: bits, part of the simulation crate that has its text
KINDS = [("x86_64", 64, "probe"), ("sgx", 64, "probe"), ("x86", 32, "probe"), ("uefi", 32, "probe"),
         ("chkstk_ms", 64, "chkstk"), ("alloca", 32, "chkstk"), ("chkstk", 32, "chkstk")]


def records(C, conc, parts, work, driver, runs):
    for kind, bits, part in KINDS:
        if part not in parts:
            continue
        base = os.path.join(work, "probe-" + kind)
        C.run([conc, "C21", "--only", kind, "--out", base + ".txt"], 60)
        with open(base + ".s", "w") as f:
            f.write(".intel_syntax noprefix\n.text\n.globl probe\nprobe:\n" + re.sub(r"\{\w*\}", "other", open(base + ".txt").read()))
        cc = ["clang", "-m%d" % bits]
        C.run(cc + ["-c", base + ".s", "-o", base + "-1.o"], 60)
        C.run(cc + ["-O1", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-mno-sse", "-nostdlib",
                    '-DKIND="%s"' % kind, "-DSEED=%d" % C.SEED, "-DRUNS=%d" % runs, "-c", driver, "-o", base + "-2.o"], 60)
        C.run(["ld.lld", "-m", "elf_x86_64" if bits == 64 else "elf_i386", "-z", "noexecstack",
               base + "-1.o", base + "-2.o", "-o", base + ".elf"], 60)
        p = C.run([base + ".elf"], 300, check=False)
        lines = [l for l in p.stdout.split("\n") if " > " in l]
        if p.returncode != 0 or not lines:
            raise C.ToolError("probe driver %s: exit %d\n%s" % (kind, p.returncode, p.stdout[-1000:]))
        yield kind, lines
