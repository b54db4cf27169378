from gens import hx, unhex, huge, scalar, text
import ucd
ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline oracle over the recorded case mapping of every code point (exhaustive) and of random strings"
RULE = ("a case is a block of 512 code points (all of 0..10FFFF and a few beyond, each run) or one random string; "
        "non-trivial: something with a case counterpart is in it")
ASSUMPTIONS = ["Python's unicodedata supplies the simple mappings",
               "sharp s maps to capital sharp s and U+0149 to U+02BC, as the library's special-case table says"]
DRIVERS = {"char": {"src": "char.cpp"}}
WORKERS = {"quick": 16, "thorough": 64}
BLOCK = 512
ENV = {"RT_LEAK": "1"}


def batches(rng, idx, tier):
    out = []
    n = WORKERS[tier]
    for i, lo in enumerate(range(0, 0x110000, BLOCK)):
        if i % n == idx:
            out.append("case %d %d" % (lo, lo + BLOCK))
    if idx == 0:
        out += ["case %d %d" % (lo, lo + 16) for lo in (0x110000, 0x1fffff, 0x7ffffff0, 0xfffffff0 - 16)]
    casing = sorted(ucd.MUST_UP | ucd.MUST_LO)
    for _ in range(500 if tier == "quick" else 5000):
        s = text(rng, big=400)
        if rng.random() < 0.6:
            s = "".join(chr(rng.choice(casing)) if rng.random() < 0.6 else c for c in s)
        out.append("scase " + hx(s))
    t = huge(rng)[:70000]
    out.append("scase " + hx("".join(chr(rng.choice(casing)) if i % 3 == 0 else c for i, c in enumerate(t))))
    yield "char", out


def judge(case, line):
    t = case.split()
    g = line.split(" ")
    if t[0] == "case":
        up = [int(x, 16) for x in g[0].split(",")[:-1]]
        down = [int(x, 16) for x in g[1].split(",")[:-1]]
        for i, c in enumerate(range(int(t[1]), int(t[2]))):
            if c > 0x10ffff:
                if up[i] != c or down[i] != c:
                    return ("outside", "U+%X is mapped to U+%X / U+%X" % (c, up[i], down[i]))
                continue
            if up[i] not in ucd.allowed_upper(c):
                return ("upper:%04X" % c, "ToUppercase(U+%04X) = U+%04X, Unicode: %s" % (c, up[i], ["U+%04X" % x for x in ucd.allowed_upper(c)]))
            if down[i] not in ucd.allowed_lower(c):
                return ("lower:%04X" % c, "ToLowercase(U+%04X) = U+%04X, Unicode: %s" % (c, down[i], ["U+%04X" % x for x in ucd.allowed_lower(c)]))
        cps = [(c, u, d) for c, u, d in zip(range(int(t[1]), int(t[2])), up, down) if 0 < c <= 0x10ffff and not 0xd800 <= c < 0xe000]
        if unhex(g[2]) != "".join(chr(u) + "," for _, u, _ in cps).encode():
            return ("char-upper", "ToUppercase(Char) differs from ToUppercase(code point) in block %s" % t[1])
        if unhex(g[3]) != "".join(chr(d) + "," for _, _, d in cps).encode():
            return ("char-lower", "ToLowercase(Char) differs from ToLowercase(code point) in block %s" % t[1])
        if g[4:6] != ["1", "1"]:
            return ("string", "String::ToUppercase/ToLowercase differ from mapping each character in block %s" % t[1])
        return None
    s = unhex(t[1]).decode()
    for name, got, again, allowed, n in (("ToUppercase", g[0], g[2], ucd.allowed_upper, g[5]), ("ToLowercase", g[1], g[3], ucd.allowed_lower, g[6])):
        r = unhex(got).decode("utf-8", "replace")
        if len(r) != len(s) or int(n) != len(s):
            return (name + ":length", "%s of %d characters has %s (%r)" % (name, len(s), n, s[:80]))
        for a, b in zip(s, r):
            if ord(b) not in allowed(ord(a)):
                return (name + ":string", "%s maps %r to %r in %r" % (name, a, b, s[:80]))
        if again != got:
            return (name + ":idempotent", "%s is not idempotent on %r" % (name, s[:80]))
    if g[4] != t[1]:
        return ("source", "the string was changed by case mapping: %r" % s[:80])
    return None




def nontrivial(case, r):
    t = case.split()
    if t[0] == "scase":
        s = unhex(t[1]).decode()
        return s.upper() != s or s.lower() != s
    return any(len(ucd.counterparts(c)[k]) > 1 for c in range(int(t[1]), min(int(t[2]), 0x110000)) for k in (0, 1))


def features(case, r, f):
    t = case.split()
    f[t[0]] += 1
    if t[0] == "case" and r[0] == "ok":
        lo = int(t[1])
        g = r[1].split(" ")
        f["code points observed"] += int(t[2]) - lo
        f["mapped to upper"] += sum(1 for i, x in enumerate(g[0].split(",")[:-1]) if int(x, 16) != lo + i)
        f["mapped to lower"] += sum(1 for i, x in enumerate(g[1].split(",")[:-1]) if int(x, 16) != lo + i)
