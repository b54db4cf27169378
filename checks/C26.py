ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "recorded outcomes of the six comparisons against mathematical comparison, exhaustive for 8-bit pairs, ASan/UBSan"
RULE = ("a case is a block of pairs of two integer types compared with all six functions: every pair of 8-bit values of every signedness, and boundary-dense pairs of "
        "all 169 type pairs; non-trivial: all cases (each has pairs on both sides)")
ASSUMPTIONS = ["Python integers compare mathematically", "x86-64 type widths, char signed"]
DRIVERS = {"cmp": {"src": "cmp.cpp"}}
WORKERS = {"quick": 32, "thorough": 240}
BITS = {"b": 8, "B": 8, "c": 8, "h": 16, "H": 16, "i": 32, "I": 32, "l": 64, "L": 64, "q": 64, "Q": 64, "w": 32, "W": 32}
SIGNED = set("bchilqw")
TY = sorted(BITS)


def rng_of(t):
    n = BITS[t]
    return (-2 ** (n - 1), 2 ** (n - 1) - 1) if t in SIGNED else (0, 2 ** n - 1)


def value(rng, t):
    lo, hi = rng_of(t)
    k = rng.random()
    if k < 0.75:
        v = rng.choice([0, 1, -1, lo, hi, lo + 1, hi - 1, hi // 2] + [s * 2 ** n + d for n in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1) for s in (1, -1)])
        if lo <= v <= hi:
            return v
    if k < 0.9:
        v = rng.randrange(-300, 300)
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def batches(rng, idx, tier):
    out = []
    n = WORKERS[tier]
    if tier == "quick" or idx < 24:
        for i, (t, u) in enumerate((a, b) for a in "bBc" for b in "bBc"):
            lo, hi = rng_of(t)
            lo2, hi2 = rng_of(u)
            for j in range(lo, hi + 1, 16):
                if (i * 16 + (j - lo) // 16) % 24 == idx:
                    out.append("x %s %s %d %d %d %d" % (t, u, j, min(hi + 1, j + 16), lo2, hi2 + 1))
    reps = 3 if tier == "quick" else 12
    for t in TY:
        for u in TY:
            for _ in range(reps):
                ps = []
                for _ in range(60):
                    a, b = value(rng, t), value(rng, u)
                    k = rng.random()
                    lo, hi = rng_of(u)
                    if k < 0.25 and lo <= a <= hi:
                        b = a
                    elif k < 0.5:   # the same bit pattern, or one that the usual conversions make equal
                        w = a & (2 ** BITS[u] - 1)
                        b = w if w <= hi else w - 2 ** BITS[u]
                    elif k < 0.6 and lo <= a + 1 <= hi:
                        b = a + 1
                    ps.append("%d %d" % (a, b))
                out.append("p %s %s %s" % (t, u, " ".join(ps)))
    yield "cmp", out


def pairs(case):
    t = case.split()
    v = [int(x) for x in t[3:]]
    if t[0] == "x":
        return [(a, b) for a in range(v[0], v[1]) for b in range(v[2], v[3])]
    return list(zip(v[::2], v[1::2]))


NAMES = ["cmp_eq", "cmp_ne", "cmp_less", "cmp_greater", "cmp_le", "cmp_ge"]


def judge(case, line):
    ps = pairs(case)
    if len(line) != len(ps):
        return ("protocol", "%d outcomes for %d pairs" % (len(line), len(ps)))
    for (a, b), c in zip(ps, line):
        m = ord(c) - 48
        e = (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5
        if m != e:
            bad = [n for i, n in enumerate(NAMES) if (m ^ e) >> i & 1]
            return (bad[0], "%s wrong for %s %d and %s %d" % (", ".join(bad), case.split()[1], a, case.split()[2], b))
    return None


def nontrivial(case, r):
    return r[0] == "ok"


def features(case, r, f):
    t = case.split()
    f["blocks " + t[0]] += 1
    if r[0] == "ok":
        f["pairs"] += len(r[1])
        if (t[1] in SIGNED) != (t[2] in SIGNED):
            f["pairs of mixed signedness"] += len(r[1])
