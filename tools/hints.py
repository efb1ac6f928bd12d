"""Collects the numeric literals of the library's current sources.

They say where the implementation changes its behaviour (thresholds, table entries, masks), so the
harness also tries inputs built from them and from their neighbours.  Only inputs are chosen this
way; nothing is judged by them.

Output lines:  <file stem> <width> <hex bits>   with width 16/32/64/128 for a float's bits, 0 for an integer."""
import os, re, struct

DIRS = ["libm/src", "compiler-builtins/src"]
HEXF = re.compile(r"0[xX][0-9a-fA-F_]*\.?[0-9a-fA-F_]*[pP][+-]?[0-9]+")
NUM = re.compile(r"(?<![A-Za-z0-9_.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*\.[0-9][0-9_]*(?:[eE][+-]?[0-9]+)?|[0-9][0-9_]*[eE][+-]?[0-9]+|[0-9][0-9_]*\.(?![.A-Za-z_])|[0-9][0-9_]*)")


def f128_bits(x):
    """bits of the f128 equal to the double x"""
    (b,) = struct.unpack("<Q", struct.pack("<d", x))
    s, e, m = b >> 63, b >> 52 & 0x7ff, b & (1 << 52) - 1
    if e == 0x7ff:
        return s << 127 | 0x7fff << 112 | m << 60
    if e == 0:
        if m == 0:
            return s << 127
        k = m.bit_length() - 1
        return s << 127 | (k - 1074 + 16383) << 112 | (m - (1 << k)) << (112 - k)
    return s << 127 | (e - 1023 + 16383) << 112 | m << 60


def floats(x):
    out = []
    for w, c, i in ((16, "e", "H"), (32, "f", "I"), (64, "d", "Q")):
        try:
            out.append((w, struct.unpack("<" + i, struct.pack("<" + c, x))[0]))
        except (OverflowError, struct.error):
            pass
    if x == x:
        out.append((128, f128_bits(x)))
    return out


def ints(v):
    out = [(0, v)]
    n = v.bit_length()
    for w in (16, 32, 64, 128):
        for have in (16, 32, 64, 128):
            if have <= w and n <= have and n > have // 2 - 4:
                out.append((w, v << (w - have)))
    return out


def literals(text):
    text = re.sub(r"//[^\n]*", " ", text)
    for m in HEXF.finditer(text):
        try:
            yield from floats(float.fromhex(m.group(0).replace("_", "")))
        except (ValueError, OverflowError):
            pass
    text = HEXF.sub(" ", text)
    for m in NUM.finditer(text):
        t = m.group(1).replace("_", "")
        try:
            if t.startswith("0x"):
                v = int(t, 16)
                if v < 1 << 128:
                    yield from ints(v)
            elif re.search(r"[.eE]", t):
                yield from floats(float(t))
            else:
                v = int(t)
                if v < 1 << 128:
                    yield (0, v)
                    if v < 1 << 1023:
                        yield from floats(float(v))
        except (ValueError, OverflowError):
            pass


def pi_scaled(bits):
    """floor(pi * 2^bits), up to a few units"""
    g = bits + 64

    def atan_inv(n):
        t = s = (1 << g) // n
        k = 1
        while t:
            t //= -n * n
            k += 2
            s += t // k
        return s
    return (16 * atan_inv(5) - 4 * atan_inv(239)) >> (g - bits)


def near_multiples_of_half_pi():
    """For every binade, the floats closest to a multiple of pi/2 (continued fractions)."""
    N = 2400
    pi = pi_scaled(N)
    out = set()
    for w, p, emin, emax in ((32, 24, -30, 104), (64, 53, -60, 971)):
        bias = (127 if w == 32 else 1023) + p - 1
        for e in range(emin, emax + 1):
            # m * 2^e close to k * pi/2:  convergents k/m of 2^e / (pi/2)
            a, b = (1 << (N + 1 + max(e, 0))), pi << max(-e, 0)
            k0, k1, m0, m1 = 0, 1, 1, 0
            best = []
            while b and m1 < 1 << p:
                q, r = divmod(a, b)
                k0, k1, m0, m1 = k1, q * k1 + k0, m1, q * m1 + m0
                a, b = b, r
                if 0 < m1 < 1 << p:
                    best.append(m1)
            for m in best[-3:]:
                n = m.bit_length()
                ex = e + bias - (p - n)
                if 0 < ex < (255 if w == 32 else 2047):
                    out.add((w, ex << (p - 1) | (m << (p - n)) & ((1 << (p - 1)) - 1)))
    return out


def write(repo, path):
    seen = {(s, w, v) for w, v in near_multiples_of_half_pi() for s in ("sin", "cos", "tan", "sincos")}
    for d in DIRS:
        for base, _, fs in os.walk(os.path.join(repo, d)):
            for f in fs:
                if f.endswith(".rs"):
                    try:
                        text = open(os.path.join(base, f), errors="replace").read()
                    except OSError:
                        continue
                    # unit tests at the end of a file say nothing about where the code branches
                    text = text.split("#[cfg(test)]")[0]
                    for w, v in literals(text):
                        seen.add((f[:-3], w, v))
    with open(path, "w") as o:
        for s, w, v in sorted(seen):
            o.write("%s %d %x\n" % (s, w, v))
    return len(seen)


if __name__ == "__main__":
    import sys
    print(write(sys.argv[1], sys.argv[2]))
