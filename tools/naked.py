"""Machine words of the division routines written in assembly, and calls of them for the specification to execute."""
import ctypes, os, random, re, struct, sys

KINDS = {"__aeabi_uidivmod": (0, 32), "__aeabi_idivmod": (1, 32), "__aeabi_uldivmod": (0, 64), "__aeabi_ldivmod": (1, 64)}
# functions the routines may call; the number goes into the undefined instruction that stands for the function
CALLEES = [["__udivmodsi4"], ["__udivmoddi4"], ["__divmodsi4"], ["__divmoddi4"], ["__udivsi3", "__aeabi_uidiv"],
           ["__divsi3", "__aeabi_idiv"], ["__umodsi3"], ["__modsi3"], ["__udivdi3"], ["__divdi3"], ["__umoddi3"], ["__moddi3"]]


def texts(lib):
    """Prints the captured assembly (run as a process of its own: the library replaces memcpy and friends)."""
    f = ctypes.CDLL(lib).foreign_text
    f.restype = ctypes.c_size_t
    i = 0
    while True:
        buf = ctypes.create_string_buffer(1 << 16)
        n = f(ctypes.c_size_t(i), buf, ctypes.c_size_t(len(buf)))
        if n == 0:
            return
        sys.stdout.write("@" + buf.raw[:n].decode())
        i += 1


def capture(C, lib):
    out = C.run([sys.executable, os.path.abspath(__file__), lib], 60).stdout
    for part in out.split("@")[1:]:
        lines = part.strip("\n").split("\n")
        name, body, syms = lines[0], [], {}
        for l in lines[1:]:
            m = re.match(r"=(\w+)=\s*(.*)$", l)
            if m:
                syms[m.group(1)] = m.group(2).replace(" ", "").split("::")[-1]
            else:
                body.append(l)
        text = "\n".join(body)
        for k, v in syms.items():
            text = re.sub(r"\{%s(:[^}]*)?\}" % k, v, text)
        yield name, text.replace("{{", "{").replace("}}", "}"), syms


def section(path, name=b".text"):
    b = open(path, "rb").read()
    shoff, = struct.unpack_from("<I", b, 0x20)
    entsize, num, stri = struct.unpack_from("<HHH", b, 0x2e)
    secs = [struct.unpack_from("<10I", b, shoff + i * entsize) for i in range(num)]
    strs = secs[stri]
    for x in secs:
        n = strs[4] + x[0]
        if b[n:b.index(b"\0", n)] == name:
            return b[x[4]:x[4] + x[5]]


def assemble(C, work, tag, target, text, extra=()):
    s = os.path.join(work, tag + ".s")
    with open(s, "w") as f:
        f.write(text)
    p = C.run(["clang", "--target=" + target, *extra, "-c", s, "-o", s[:-2] + ".o"], 60, check=False)
    if p.returncode:
        return None
    C.run(["ld.lld", "-Ttext=0", "-e", "0", s[:-2] + ".o", "-o", s[:-2] + ".elf"], 60)
    return section(s[:-2] + ".elf")


def operands(rng, w, n, signed):
    edge = {0, 1, 2, 3, 5, 7, 10, 2**w - 1, 2**w - 2, 2**w - 3, 2**w - 10}
    for k in (w // 4, w // 2, w // 2 + 1, w - 8, w - 1):
        edge |= {2**k, 2**k - 1, 2**k + 1, 2**w - 2**k}
    edge = sorted(edge)
    yield from ((a, b) for a in edge for b in edge if b)
    for _ in range(n):
        a, b = (rng.getrandbits(rng.randint(1, w)) for _ in range(2))
        if signed and rng.random() < .5:
            a, b = (x if rng.random() < .5 else -x % 2**w for x in (a, b))
        if b:
            yield a, b


def arm(C, lib, work, seed, n):
    for name, text, syms in capture(C, lib):
        if name not in KINDS:
            continue
        signed, width = KINDS[name]
        for thumb, target in ((0, "armv5te-none-eabi"), (1, "thumbv6m-none-eabi"), (1, "thumbv5te-none-eabi")):
            head = ".syntax unified\n.text\n" + (".thumb\n" if thumb else ".arm\n")
            stubs, used = "", False
            for k, names in enumerate(CALLEES):
                for x in names:
                    if re.search(r"\b%s\b" % x, text):
                        stubs += ".globl %s\n.type %s, %%function\n%s%s:\nudf #%d\n" % (x, x, ".thumb_func\n" if thumb else "", x, k + 1)
                        used = True
            code = assemble(C, work, "%s-%d" % (name, thumb), target, "%s%s\n%s" % (head, text, stubs))
            if code is None:
                continue
            words = struct.unpack("<%d%s" % (len(code) // (2 if thumb else 4), "H" if thumb else "I"), code)
            rng = random.Random("%d %s %d" % (seed, name, thumb))
            tail = " ".join("%x" % x for x in words)
            for a, b in operands(rng, width, n, signed):
                yield "divmod:%d:%d:%d %s %x %x %s > 0" % (thumb, signed, width, name, a, b, tail)
            if thumb:
                break


def avr(C, lib, work, seed, n, exhaustive):
    for name, text, syms in capture(C, lib):
        width = 8 if name == "__udivmodqi4" else 16
        code = assemble(C, work, name, "avr-unknown-none", text + "\n", ("-mmcu=atmega328p",))
        if code is None or not name.startswith("__udivmod"):
            continue
        words = struct.unpack("<%dH" % (len(code) // 2), code)
        tail = " ".join("%x" % x for x in words)
        rng = random.Random("%d %s" % (seed, name))
        if width == 8:
            pairs = ((a, b) for a in range(256) for b in range(1, 256) if exhaustive or (a * 7 + b * 13 + seed) % 8 == 0 or a > 250 or b > 250)
        else:
            pairs = operands(rng, 16, n, False)
        for a, b in pairs:
            yield "avr:%d %s %x %x %x %s > 0" % (width, name, rng.getrandbits(6), a, b, tail)


if __name__ == "__main__":
    texts(sys.argv[1])
