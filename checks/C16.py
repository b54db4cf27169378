import math
import re
from fractions import Fraction
from bignum import digits, long_digits
import bigprog
from gens import hx, unhex, text, scalar
ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline differential oracle (exact rationals) over recorded results"
RULE = ("a case is a pair of decimals (0-40 digits on each side of the point, some up to 200, and up to 2000 for addition, subtraction and comparison, zeros at either end of the fraction, carries across the "
        "point, equal values spelled differently, the same object) under every operator, one decimal under power and root, "
        "or text to parse; non-trivial: both operands non-zero, or text with a digit")
ASSUMPTIONS = ["Python's rationals are exact", "a missing integer or fraction part reads as 0; text of only a point or sign and point is not generated"]
DRIVERS = {"big": {"src": "big.cpp"}}
WORKERS = {"quick": 48, "thorough": 240}
NUM = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z")


def frac(rng):
    k = rng.random()
    f = digits(rng, 40)[:rng.randrange(1, 40)]
    if k < 0.2:
        return ""
    if k < 0.45:
        f = "0" * rng.randrange(1, 8) + f
    if k < 0.3 or k > 0.8:
        f += "0" * rng.randrange(1, 5)
    return f


def dec(rng):
    s = rng.choice(["", "", "-", "-", "+"])
    i = digits(rng, 40)
    k = rng.random()
    if k < 0.1:
        i = "0"
    if k < 0.05:
        i = ""
    if k > 0.9:
        i = "0" * rng.randrange(1, 4) + i
    f = frac(rng)
    if f or i and rng.random() < 0.05:
        return s + i + "." + f
    return s + (i or "0")


def small(rng):
    s = dec(rng)
    return s if len(s) < 20 else s[:rng.randrange(4, 18)].rstrip(".")


def val(s):
    m = re.match(r"([+-]?)([0-9]*)\.?([0-9]*)\Z", s)
    v = Fraction(int((m.group(2) + m.group(3)) or "0"), 10 ** len(m.group(3)))
    return -v if m.group(1) == "-" else v


def scale(v):
    n = 0
    d = v.denominator
    while 10 ** n % d:
        n += 1
    return n


def plain(v):
    """An exact decimal spelling of a finite decimal fraction."""
    n = scale(v)
    k = abs(v.numerator) * 10 ** n // v.denominator
    s = str(k).rjust(n + 1, "0")
    return ("-" if v < 0 else "") + (s[:-n] + "." + s[-n:] if n else s)


def second(rng, a):
    k = rng.random()
    v = val(a)
    if k < 0.65:
        return dec(rng)
    if k < 0.75:
        return a + "0" * rng.randrange(1, 4) if "." in a else a + ".00"
    if k < 0.85:
        return plain(-v)
    n = scale(v) + rng.randrange(0, 2)
    return plain(v + Fraction(rng.choice([-1, 1]), 10 ** n))


def batches(rng, idx, tier):
    out = []
    for _ in range(700):
        a = dec(rng)
        b = second(rng, a)
        out.append("fb %s %s %d" % (hx(a), hx(b), rng.random() < 0.06))
    if idx == 0:
        S = ["0", "-0", "0.0", "0.1", "-0.1", "0.01", "1", "1.0", "-1", "0.9", "0.99", "1.01", "-1.01", "10", "9.9", "-9.99", "0.09", "100.001"]
        out += ["fb %s %s 0" % (hx(a), hx(b)) for a in S for b in S]
    for _ in range(150):
        a = dec(rng)
        n = len(a)
        root = n <= 14
        if root and rng.random() < 0.5:
            r = val(dec(rng)[:7].rstrip("-+.") or "3")
            a = plain(r * r)
            root = len(a) <= 18
        out.append("fu %s %d %d" % (hx(a), rng.choice([0, 1, 2, 3, 5, -1]) if n > 12 else rng.choice([0, 1, 2, 4, 7, 9, -3]), root))
    for _ in range(300):
        s = dec(rng)
        k = rng.random()
        i = rng.randrange(len(s) + 1)
        if k < 0.1:
            s = rng.choice(["", "-", "+", "1.2.3", "1..2", "1.-5", "1.+5", "+-1", "--1", "-+.5", "1e5", "0x1", " 1", "1 ", "1. 5", "1,5", "٣.٤", "1.٣", "inf", "nan"])
        elif k < 0.3:
            s = s[:i] + rng.choice("+-. ,eE") + s[i:]
        elif k < 0.45:
            s = s[:i] + chr(scalar(rng)) + s[i:]
        elif k < 0.55:
            s = text(rng, n=rng.randrange(1, 6))
        if re.match(r"[+-]?\.\Z", s):
            continue
        out.append("fp " + hx(s))
    for _ in range(50):
        d = rng.choice([0.0, 0.5, -0.5, 0.001, 1e15, -123456.75, 0.000001, 1 / 3, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1), rng.uniform(-0.01, 0.01)])
        out.append("fd %r" % d)
    for _ in range(60):
        out.append(bigprog.generate(rng, False, lambda r: small(r), val, 10, 60))
    def long_dec(n, m):
        i, f = long_digits(rng, max(n, 1)), long_digits(rng, max(m, 1))
        if rng.random() < 0.3:
            f = "0" * (m // 2) + f[m // 2:]
        return rng.choice(["", "-", "+"]) + (i if n else "0") + ("." + f if m else "")
    for _ in range(2 if tier == "quick" else 6):  # long operands
        a = long_dec(rng.choice([0, 5, rng.randrange(60, 200)]), rng.choice([0, 7, rng.randrange(60, 200), 130]))
        b = long_dec(rng.choice([0, 5, rng.randrange(60, 200)]), rng.choice([0, 7, rng.randrange(60, 200), 130]))
        out.append("fb %s %s 0" % (hx(a), hx(b)))
    for _ in range(3):
        n = rng.choice([0, 255, 256, 257, 1000, 2000])
        m = rng.choice([0, 255, 256, 257, 1000, 2000])
        a = long_dec(n, m)
        b = long_dec(*rng.choice([(n, m), (1, m + 1), (n, 0), (n + 1, 300)])) if rng.random() < 0.8 else a + ("0" if "." in a else ".000")
        out.append("fl %s %s" % (hx(a), hx(b)))
    yield "big", out


def trunc(num, den, n):
    q = abs(num) * 10 ** n // abs(den)
    v = Fraction(int(q), 10 ** n)
    return -v if (num < 0) != (den < 0) else v


def expect(case):
    t = case.split()
    if t[0] == "fb":
        a, b = val(unhex(t[1]).decode()), val(unhex(t[2]).decode())
        if t[3] == "1":
            b = a
        n = max(scale(a), scale(b))
        w = ["%d" % x for x in (a == b, a != b, a < b, a > b, a <= b, a >= b, a == b, a < b, a > b)]
        return [("+", [a + b]), ("-", [a - b]), ("*", [a * b]), ("/", "E" if b == 0 else [trunc(a / b, 1, n)]), ("cmp", w),
                ("a+b-b", ["1", "0", "0", a]), ("ab-ba", ["1", "1", Fraction(0)]), ("stream", [(a, b)]), ("copies", [b, a, a]), ("operands", [a, b])]
    if t[0] == "fl":
        a, b = val(unhex(t[1]).decode()), val(unhex(t[2]).decode())
        w = ["%d" % x for x in (a == b, a != b, a < b, a > b, a <= b, a >= b, a == b, a < b, a > b)]
        return [("+", [a + b]), ("-", [a - b]), ("cmp", w), ("abs", [abs(a)]), ("operands", [a, b])]
    if t[0] == "fu":
        a, e = val(unhex(t[1]).decode()), int(t[2])
        r = [("parse", [a]), ("abs", [abs(a)]), ("sqr", [a * a]), ("pow", "E" if e < 0 else [a ** e])]
        if t[3] == "1":
            n = scale(a)
            r.append(("sqrt", "E" if a < 0 else [Fraction(math.isqrt(int(a * 10 ** (2 * n))), 10 ** n)]))
        return r
    if t[0] == "fp":
        s = unhex(t[1]).decode()
        if NUM.match(s):
            return [("parse", [val(s), "1"]), ("parse", [val(s)]), ("parse", [val(s)])]
        return [("accepted", "E")] * 3
    return [("double", [val("%f" % float(t[1]))])]


def judge(case, line):
    if case.startswith("fx"):
        return bigprog.judge(case, line, val)
    got = [x.split() for x in line.split(" ;")[:-1]]
    want = expect(case)
    if len(got) != len(want):
        return ("events", "%d results, expected %d" % (len(got), len(want)))
    desc = " ".join(unhex(x).decode() if x[0] == "x" else x for x in case.split())[:600]
    for (name, w), g in zip(want, got):
        if w == "E":
            if not g[0].startswith("E:"):
                return (name, "%s did not throw but gave %s on %s" % (name, [unhex(x) if x[0] == "x" else x for x in g], desc))
            continue
        if g[0].startswith("E:") or len(g) != len(w):
            return (name, "%s gave %s on %s" % (name, g, desc))
        for x, y in zip(g, w):
            if isinstance(y, str):
                ok = x == y
            else:
                s = unhex(x).decode()
                if isinstance(y, tuple):
                    p = s.split(" ")
                    ok = len(p) == 2 and all(NUM.match(q) and val(q) == z for q, z in zip(p, y))
                else:
                    ok = bool(NUM.match(s)) and val(s) == y and not (y == 0 and s[0] == "-")
            if not ok:
                return (name, "%s gave %s, expected %s on %s" % (name, unhex(x).decode() if x[0] == "x" else x, y if not isinstance(y, Fraction) else plain(y), desc))
    return None


def nontrivial(case, r):
    if case[1] == "x":
        return True
    t = case.split()
    if t[0] == "fb":
        return val(unhex(t[1]).decode()) != 0 and val(unhex(t[2]).decode()) != 0
    return t[0] != "fp" or any(c in unhex(t[1]) for c in b"0123456789")


def features(case, r, f):
    t = case.split()
    if case[1] == "x":
        f["programs"] += 1
        f["program steps"] += len(t[2].split(","))
        return
    if t[0] == "fb":
        a, b = val(unhex(t[1]).decode()), val(unhex(t[2]).decode())
        f["signs %s%s" % ("-0+"[(a > 0) - (a < 0) + 1], "-0+"[(b > 0) - (b < 0) + 1])] += 1
        f["scales " + ("equal" if scale(a) == scale(b) else "different")] += 1
    else:
        f[{"fu": "power and root", "fp": "parse", "fd": "double", "fl": "very long operands"}[t[0]]] += 1
