"""Machine words of the AArch64 outline atomics, from the assembly the library's macros expand to."""
import os, re, struct, subprocess

TEXT, DATA, SKEW = 0x400000, 0x410000, 0x123


def build(asm, work, run):
    """asm: file with the captured assembly.  Returns {name: (address, words)} and the flag's address."""
    s = os.path.join(work, "a64.s")
    o, e = s[:-2] + ".o", s[:-2] + ".elf"
    text = open(asm).read().replace("{have_lse}", "HAVE_LSE")
    with open(s, "w") as f:
        f.write(".text\n" + text + "\n.data\n.skip %d\n.globl HAVE_LSE\nHAVE_LSE: .byte 0\n" % SKEW)
    run(["clang", "--target=aarch64-linux-gnu", "-c", s, "-o", o], 60)
    run(["ld.lld", "--no-relax", "-Ttext=%x" % TEXT, "-Tdata=%x" % DATA, "-e", "0", o, "-o", e], 60)
    b = open(e, "rb").read()
    shoff, = struct.unpack_from("<Q", b, 0x28)
    shentsize, shnum = struct.unpack_from("<HH", b, 0x3a)
    secs = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize) for i in range(shnum)]
    code = next(x for x in secs if x[3] == TEXT and x[2] & 4)
    symtab = next(x for x in secs if x[1] == 2)
    strs = secs[symtab[6]]
    syms = {}
    for i in range(symtab[5] // 24):
        n, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", b, symtab[4] + 24 * i)
        name = b[strs[4] + n:b.index(b"\0", strs[4] + n)].decode()
        if name:
            syms[name] = val
    fns = sorted((v, n) for n, v in syms.items() if n.startswith("__aarch64_"))
    end = code[3] + code[5]
    res = {}
    for k, (v, n) in enumerate(fns):
        stop = fns[k + 1][0] if k + 1 < len(fns) else end
        off = code[4] + v - code[3]
        res[n] = (v, list(struct.unpack_from("<%dI" % ((stop - v) // 4), b, off)))
    return res, syms["HAVE_LSE"]


OPS = ["cas", "swp", "ldadd", "ldclr", "ldeor", "ldset"]


def expected():
    """The routines the interface promises: (name, op, size, acquire, release)."""
    for i, op in enumerate(OPS):
        for size in (1, 2, 4, 8) + ((16,) if op == "cas" else ()):
            for order in ("relax", "acq", "rel", "acq_rel"):
                yield "__aarch64_%s%d_%s" % (op, size, order), i, size, int("acq" in order), int("rel" in order.replace("relax", ""))


def records(asm, work, run):
    fns, flag = build(asm, work, run)
    for name, op, size, acq, rel in expected():
        addr, words = fns[name]
        yield "a64 %s %x %x %x %x %x %x > %s" % (name, op, size, acq, rel, addr, flag, " ".join("%x" % w for w in words))
