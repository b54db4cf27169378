import math
from bignum import integer, long_digits, related, spell
import bigprog
from gens import hx, unhex
ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline differential oracle (Python integers) over recorded results"
RULE = ("a case is a pair of integers (up to 800 digits, up to 1250 for products and up to 70000 for addition, subtraction, comparison and unbalanced products; runs of 9 and 0, powers, close neighbours, prefixes and multiples of each "
        "other, the same object) under every operator, or one integer under power, square, root and absolute value; "
        "non-trivial: both operands non-zero")
ASSUMPTIONS = ["Python's integers are exact"]
DRIVERS = {"big": {"src": "big.cpp"}}
WORKERS = {"quick": 48, "thorough": 240}


def batches(rng, idx, tier):
    out = []
    big = 60 if tier == "quick" else 200
    for _ in range(1300):
        a = integer(rng, big)
        b = related(rng, a, big)
        same = rng.random() < 0.06
        out.append("ib %d %d %s %s" % (rng.randrange(7), 9 if same else rng.randrange(7), hx(spell(rng, a)), hx(spell(rng, a if same else b))))
    if idx == 0:
        for a in range(-13, 14):
            for b in range(-13, 14):
                out.append("ib 0 0 %s %s" % (hx(str(a)), hx(str(b))))
    for _ in range(250):
        a = integer(rng, big)
        d = len(str(abs(a)))
        e = rng.choice([0, 1, 2, 3, 5, -1]) if d > 20 else rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 33, -1, -2147483648]) if d < 5 else rng.randrange(0, 9)
        root = d <= 26
        if root and rng.random() < 0.6:
            r = abs(integer(rng, 12)) % 10 ** 12
            a = r * r + rng.choice([-1, 0, 0, 1])
        out.append("iu %d %s %d %d" % (rng.randrange(7), hx(spell(rng, a)), e, root))
    for _ in range(80):
        out.append(bigprog.generate(rng, True, lambda r: spell(r, integer(r, 30)), int, 12, 90))
    for _ in range(2 if tier == "quick" else 6):  # long operands
        a = int(rng.choice(["", "-"]) + long_digits(rng, rng.randrange(250, 800)))
        b = int(rng.choice(["", "-"]) + long_digits(rng, rng.choice([1, 2, 9, 40, rng.randrange(100, 800), rng.randrange(250, 800)])))
        if rng.random() < 0.2:
            b = rng.choice([1, -1]) * a + rng.randrange(-1, 2)
        if rng.random() < 0.5:
            a, b = b, a
        out.append("ib %d %d %s %s" % (rng.randrange(7), rng.randrange(7), hx(str(a)), hx(str(b))))
    for _ in range(6):
        n = rng.choice([255, 256, 257, 1000, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70001])
        a = int(rng.choice(["", "-"]) + long_digits(rng, n))
        b = int(rng.choice(["", "-"]) + long_digits(rng, rng.choice([n, n, n + 1, n - 1, 1, 300, 65536])))
        if rng.random() < 0.3:
            b = rng.choice([1, -1]) * a + rng.choice([-1, 0, 1, 10 ** (n // 2)])
        out.append("il %s %s" % (hx(str(a)), hx(str(b))))
    for _ in range(2 if tier == "quick" else 5):  # products of operands of a thousand digits and unbalanced ones
        n, m = rng.choice([(rng.randrange(800, 1250), rng.randrange(800, 1250)), (1, 70001), (16, 65537), (rng.randrange(2, 40), 30000), (257, 4097)])
        a, b = [int(rng.choice(["", "-"]) + (long_digits(rng, x) if rng.random() < 0.5 else "".join(rng.choice("89999") for _ in range(x)))) for x in (n, m)]
        out.append("iq %s %s" % (hx(str(a)), hx(str(b))))
    yield "big", out


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def ops(case):
    t = case.split()
    if t[0] == "ib":
        a, b = int(unhex(t[3])), int(unhex(t[4]))
        if t[2] == "9":
            b = a
        want = [("+", [str(a + b)]), ("-", [str(a - b)]), ("*", [str(a * b)])]
        if b == 0:
            want += [("/", "E"), ("%", "E"), ("cmp", None), ("sum-difference", ["1", "0", "0", str(a)]), ("division identity", "E")]
        else:
            q = tdiv(a, b)
            want += [("/", [str(q)]), ("%", [str(a - q * b)]), ("cmp", None), ("sum-difference", ["1", "0", "0", str(a)]),
                     ("division identity", ["1", "0", "0", str(a)])]
        want += [("difference of products", ["1", "0"]), ("stream", ["%d %d" % (a, b)]), ("operands", [str(a), str(b)])]
        return want
    if t[0] == "il":
        a, b = int(unhex(t[1])), int(unhex(t[2]))
        return [("+", [str(a + b)]), ("-", [str(a - b)]), ("cmp", ["%d" % x for x in (a == b, a != b, a < b, a > b, a <= b, a >= b, a == b, a < b, a > b)]),
                ("abs", [str(abs(a))]), ("sum-difference", ["1", "0", "0"]), ("operands", [str(a), str(b)])]
    if t[0] == "iq":
        a, b = int(unhex(t[1])), int(unhex(t[2]))
        return [("*", [str(a * b)]), ("* (swapped)", [str(a * b)])] + ([("sqr", [str(a * a)])] if len(str(a)) <= 1400 else []) + [("operands", [str(a), str(b)])]
    a, e, root = int(unhex(t[2])), int(t[3]), t[4] == "1"
    want = [("parse", [str(a)]), ("abs", [str(abs(a))]), ("sqr", [str(a * a)]), ("pow", "E" if e < 0 else [str(a ** e)])]
    if root:
        want.append(("sqrt", "E" if a < 0 else [str(math.isqrt(a))]))
    want += [("self-assignment", [str(a), str(a)]), ("moving", ["-7", str(a), str(a)])]
    return want


def judge(case, line):
    if case.startswith("ix"):
        return bigprog.judge(case, line, int)
    got = [x.split() for x in line.split(" ;")[:-1]]
    want = ops(case)
    # the stream, when empty of padding, ends with the last event
    if line.endswith(" ;") is False:
        return ("events", "truncated result")
    if len(got) != len(want):
        return ("events", "%d results, expected %d" % (len(got), len(want)))
    for (name, w), g in zip(want, got):
        if w is None:
            continue
        t = case.split()
        desc = " ".join(unhex(x).decode() if x[0] == "x" else x for x in t)[:600]
        if w == "E":
            if not g[0].startswith("E:"):
                return (name, "%s did not throw on %s" % (name, desc))
            continue
        if g[0].startswith("E:"):
            return (name, "%s threw %s on %s" % (name, g[0], desc))
        g = [unhex(x).decode() if x[0] == "x" else x for x in g]
        if g != w:
            return (name, "%s gave %s, expected %s on %s" % (name, " ".join(g)[:600], " ".join(w)[:600], desc))
    return None


def nontrivial(case, r):
    if case[1] == "x":
        return True
    t = case.split()
    return t[0] not in ("ib",) or (int(unhex(t[3])) != 0 and int(unhex(t[4])) != 0)


def features(case, r, f):
    t = case.split()
    if case[1] == "x":
        f["programs"] += 1
        f["program steps"] += len(t[2].split(","))
        return
    if t[0] == "il":
        f["operands of 1000 digits and more" if len(t[1]) > 2000 else "long operands"] += 1
        if len(t[1]) > 131000:
            f["operands of 65535 digits and more"] += 1
        return
    if t[0] == "iq":
        f["products of long operands"] += 1
        return
    if t[0] == "ib":
        a, b = int(unhex(t[3])), int(unhex(t[4]))
        f["signs %s%s" % ("-0+"[(a > 0) - (a < 0) + 1], "-0+"[(b > 0) - (b < 0) + 1])] += 1
        f["digits of larger operand %d.." % (len(str(max(abs(a), abs(b)))) // 20 * 20)] += 1
        if a and b:
            f["magnitude " + ("less" if abs(a) < abs(b) else "equal" if abs(a) == abs(b) else "greater")] += 1
    else:
        f["power and root"] += 1
