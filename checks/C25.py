import math
import struct
ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "online monitor of every returned value (range, coverage of sub-ranges, frequency) under ASan/UBSan and libstdc++ assertions"
RULE = ("a case is a type and a range with the number of calls made, or a probability; every returned value is compared with the range, and enough calls are "
        "made that missing any of the values / sixteenths / residues of the range by chance has probability below 1e-12, and that the number of values in each initial part of the range is within 9 standard deviations of its share; non-trivial: more than one call on a range of more than one value")
ASSUMPTIONS = ["min <= max, both finite", "uniform values: the miss probabilities are computed for a uniform distribution"]
DRIVERS = {"random": {"src": "random.cpp", "extra": ("-D_GLIBCXX_ASSERTIONS",)}}
WORKERS = {"quick": 32, "thorough": 320}
INT = {"h": (-2**15, 2**15 - 1), "H": (0, 2**16 - 1), "i": (-2**31, 2**31 - 1), "I": (0, 2**32 - 1), "l": (-2**63, 2**63 - 1), "L": (0, 2**64 - 1)}
FMAX = {"f": struct.unpack("<f", b"\xff\xff\x7f\x7f")[0], "d": 1.7976931348623157e308}


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def irange(rng, t):
    lo, hi = INT[t]
    k = rng.random()
    if k < 0.12:
        return lo, hi
    if k < 0.30:
        w = rng.randrange(0, 64)
    elif k < 0.4:
        w = 0
    elif k < 0.55:
        w = rng.randint((hi - lo) // 8, hi - lo)
    else:
        w = min(hi - lo, rng.randrange(1, 2 ** rng.randrange(1, (hi - lo).bit_length() + 1)))
    anchors = [lo, hi - w, -w, -w // 2, 0, 1, rng.randint(lo, hi - w), 2**31 - w // 2, 2**32 - w // 2, 2**15 - w // 2, 2**16 - w // 2, -2**31 - w // 2, 2**63 - w // 2]
    a = rng.choice(anchors)
    if not (lo <= a and a + w <= hi):
        a = rng.randint(lo, hi - w)
    return a, a + w


def fval(rng, t):
    k = rng.random()
    sgn = rng.choice([-1, 1])
    if k < 0.2:
        return 0.0
    if k < 0.35:
        return sgn * FMAX.get(t, 1.7976931348623157e308)
    if k < 0.5:
        return sgn * float(rng.randrange(1, 2000))
    if k < 0.6:
        return sgn * rng.random()
    e = rng.randrange(-140, 120) if t == "f" else rng.randrange(-1060, 1020)
    v = math.ldexp(1 + rng.random(), e)
    if t == "f":
        v = f32(v)
    return sgn * v


def ftok(t, v):
    return v.hex()


def frange(rng, t):
    k = rng.random()
    if k < 0.12:
        return None  # the whole range of the type
    a, b = fval(rng, t), fval(rng, t)
    if k < 0.25:
        b = a
    elif k < 0.35:
        b = math.nextafter(a, math.inf) if t != "f" else f32(a * (1 + 2**-22) if a else 1e-40)
    if t == "f":
        a, b = f32(a), f32(b)
    a, b = min(a, b), max(a, b)
    if math.isinf(a) or math.isinf(b):
        return None
    return a, b


def batches(rng, idx, tier):
    out = []
    n = 100 if tier == "quick" else 150
    for _ in range(n):
        t = rng.choice("hHiIlL")
        a, b = irange(rng, t)
        w = b - a + 1
        if w <= 64:
            k, calls = w, max(int(w * (math.log(w) + 30)) + 30, 900)
        else:
            k, calls = 16, 1100
        if w == 1:
            calls = 40
        out.append("r %s %d %d %d %d" % (t, a, b, calls, k))
        t = rng.choice("fdD")
        r = frange(rng, t)
        if r is None:
            lo, hi = ("-" + MAXTOK[t], MAXTOK[t])
        else:
            lo, hi = (ftok(t, x) for x in r)
        out.append("r %s %s %s %d %d" % (t, lo, hi, 700, 16))
    for t in "hHiIlLfdD":
        out.append("d %s 1100 16" % t)
    for _ in range(6):
        k = rng.random()
        p = rng.choice([0.0, 1.0, 0.5, 0.25, 0.999, 0.001, 1e-9, 1 - 1e-9, math.nextafter(1.0, 0), 5e-324]) if k < 0.6 else rng.random()
        out.append("b %s %d" % (p.hex(), 3000))
        q = rng.choice([-0.0, -5e-324, -1.0, math.nextafter(1.0, 2), 2.0, math.inf, -math.inf, math.nan, -1e300, 1e300, 100.0, 50.0])
        out.append("b %s %d" % ("nan" if q != q else q.hex() if abs(q) != math.inf else str(q), 50))
    out.append("bd 3000")
    if idx % 16 == 0:
        t = "hH"[idx // 16 % 2]
        out.append("r %s %d %d 3000000 65536" % (t, INT[t][0], INT[t][1]))
    if idx % 16 == 1:
        t = rng.choice("hHiIlL")
        a = rng.randint(INT[t][0], INT[t][1] - 5000)
        out.append("r %s %d %d %d 5000" % (t, a, a + 4999, 5000 * 39))
    yield "random", out


MAXTOK = {"f": FMAX["f"].hex(), "d": FMAX["d"].hex(), "D": "0xf.fffffffffffffffp+16380"}


def tail(n, p, t):
    """Log probability of the tail of Binomial(n, p) at t, on t's side of the mean."""
    if p in (0.0, 1.0):
        return 0.0 if t == n * p else -math.inf

    def pmf(k):
        return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(p) + (n - k) * math.log1p(-p)
    ks = range(t, n + 1) if t >= n * p else range(0, t + 1)
    m = max(pmf(k) for k in ks)
    return m + math.log(sum(math.exp(pmf(k) - m) for k in ks))


def judge(case, line):
    t = case.split()
    g = line.split(" ")
    if t[0] in ("b", "bd"):
        p = 0.5 if t[0] == "bd" else float("nan") if t[1] == "nan" else float(t[1]) if "inf" in t[1] else float.fromhex(t[1])
        if not 0.0 <= p <= 1.0:
            return None if g[0].startswith("E:") else ("boolean-range", "RandomBoolean(%r) did not throw" % p)
        if g[0].startswith("E:"):
            return ("boolean-throws", "RandomBoolean(%r) threw %s" % (p, g[0]))
        if tail(int(t[-1]), p, int(g[0])) < math.log(1e-13):
            return ("boolean-frequency", "RandomBoolean(%r) was true %s of %s times" % (p, g[0], t[-1]))
        return None
    if g[0].startswith("E:"):
        return ("throws", "Random threw %s on %s" % (g[0], case))
    if g[:3] != ["0", "0", "0"]:
        return ("range:" + t[1], "values below/above/NaN: %s on %s" % (g[:3], case))
    bad = uneven(t, g)
    if bad:
        return ("even:" + t[1], bad + " on " + case)
    if t[0] == "d":
        if "0" in g[3] or t[1] not in "fdD" and "0" in g[4]:
            return ("default-reach:" + t[1], "sixteenths %s, residues %s of the type's range reached in %s calls: %s" % (g[3], g[4], t[2], case))
        return None
    if t[1] in "fdD":
        # a range with too few representable values need not reach every sixteenth
        if WIDE(t) and "0" in g[3]:
            return ("reach:" + t[1], "sixteenths %s of the range reached: %s" % (g[3], case))
        return None
    w = int(t[3]) - int(t[2]) + 1
    if "0" in g[3] or w > 64 and "0" in g[4]:
        return ("reach:" + t[1], "%s/%s of the range reached (1 = reached), residues %s: %s" % (g[3].count("1"), len(g[3]), g[4], case))
    return None


def uneven(t, g):
    """Whether some initial part of the range got far more or far fewer values than its size says."""
    counts = [int(x) for x in g[8:]]
    n, k = sum(counts), len(counts)
    if not k:
        return None
    if t[1] in "fdD":
        if t[0] == "r" and not WIDE(t):
            return None
        ends = [(i + 1) / k for i in range(k)]
    else:
        w = int(t[3]) - int(t[2]) + 1 if t[0] == "r" else INT[t[1]][1] - INT[t[1]][0] + 1
        ends = [-(-w * (i + 1) // k) / w for i in range(k)]
    c = 0
    for i in range(k - 1):
        c += counts[i]
        p = ends[i]
        if abs(c - n * p) > 9 * math.sqrt(n * p * (1 - p)) + 6:
            return "%d of %d values in the lowest %.4f of the range" % (c, n, p)
    return None


def WIDE(t):
    lo, hi = (float.fromhex(x) if "p+16380" not in x else math.copysign(math.inf, -1 if x[0] == "-" else 1) for x in t[2:4])
    if math.isinf(hi):
        return True
    eps = 2.0**-23 if t[1] == "f" else 2.0**-52
    tiny = 2.0**-149 if t[1] == "f" else 5e-324
    m = max(abs(lo), abs(hi))
    return hi / 4 - lo / 4 > 512 * max(m * eps, tiny)


def nontrivial(case, r):
    t = case.split()
    return r[0] == "ok" and (t[0] in ("b", "bd", "d") or t[2] != t[3])


def features(case, r, f):
    t = case.split()
    f[t[0] + (" " + t[1] if t[0] in "rd" else "")] += 1
    if r[0] == "ok" and t[0] in "rd":
        g = r[1].split(" ")
        f["calls"] += int(t[4] if t[0] == "r" else t[2])
        if len(g) > 7:
            f["sub-ranges reached"] += g[3].count("1")
            f["calls that returned the lower end"] += int(g[5])
            f["calls that returned the upper end"] += int(g[6])
            f["consecutive equal values"] += int(g[7])
            f["distributions judged"] += len(g) > 8
