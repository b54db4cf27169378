"""Straight-line programs over four number registers (C14-C16): results feed later operations, and every result is
compared with its own text read back and with another register."""
import math
import re
from fractions import Fraction
from gens import hx, unhex
NUM = re.compile(r"-?[0-9]+(\.[0-9]*)?\Z")


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def scale(v):
    n = 0
    while 10 ** n % v.denominator:
        n += 1
    return n


def apply(isint, op, x, y, e):
    """The mathematical result; None if it throws."""
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op in "/%" and y == 0:
        return None
    if op == "/":
        if isint:
            return tdiv(x, y)
        n = max(scale(x), scale(y))
        return Fraction(int(x / y * 10 ** n), 10 ** n)
    if op == "%":
        return x - tdiv(x, y) * y
    if op == "p":
        return None if e < 0 else x ** e
    if op == "q":
        return x * x
    if op == "r":
        if x < 0:
            return None
        if isint:
            return math.isqrt(x)
        n = scale(x)
        return Fraction(math.isqrt(int(x * 10 ** (2 * n))), 10 ** n)
    if op == "b":
        return abs(x)
    raise AssertionError(op)


def digits(v):
    return len(str(abs(v))) if isinstance(v, int) else len(str(abs(v.numerator))) + scale(v)


def generate(rng, isint, numeral, value, length, limit):
    """numeral(rng) -> text, value(text) -> int or Fraction."""
    init = [numeral(rng) for _ in range(4)]
    regs = [value(s) for s in init]
    ops = []
    for _ in range(length):
        d, a, b, c = (rng.randrange(4) for _ in range(4))
        op = rng.choice("+--*/%pqrb=ms0+-*/" if isint else "+--*/pqrb=ms0+-*/")
        e, s = 0, ""
        if op == "p":
            e = rng.choice([0, 0, 1, 2, 3, 4, -1])
            if digits(regs[a]) * max(e, 1) > limit:
                op = "-"
        if op in "*q" and digits(regs[a]) + digits(regs[b] if op == "*" else regs[a]) > limit:
            op = "-"
        if op == "r" and digits(regs[a]) > 18:
            op = "b"
        if not isint and op == "/" and digits(regs[a]) + digits(regs[b]) > limit:
            op = "+"
        if op == "m" and d == a:
            op = "="
        if op == "0":
            op, s = "s", rng.choice(["0", "-0", "1", "-1", "00", "10", "9"])
        elif op in "sm":
            s = numeral(rng)
        ops.append("%s.%d.%d.%d.%d.%d.%s" % (op, d, a, b, c, e, s.encode().hex()))
        if op == "=":
            regs[d] = regs[a]
        elif op == "s":
            regs[d] = value(s)
        elif op == "m":
            regs[d] = regs[a]
            regs[a] = value(s)
        else:
            r = apply(isint, op, regs[a], regs[b], e)
            if r is not None:
                regs[d] = r
    return "%s %s %s" % ("ix" if isint else "fx", ",".join(hx(s) for s in init), ",".join(ops))


def judge(case, line, value):
    t = case.split()
    isint = t[0] == "ix"
    regs = [value(unhex(s).decode()) for s in t[1].split(",")]
    got = [x.split() for x in line.split(" ;")[:-1]]
    ops = t[2].split(",")
    if len(got) != len(ops):
        return ("program:events", "%d results, expected %d" % (len(got), len(ops)))
    for i, (o, g) in enumerate(zip(ops, got)):
        op, d, a, b, c, e, s = o.split(".")
        d, a, b, c, e, s = int(d), int(a), int(b), int(c), int(e), bytes.fromhex(s).decode()
        before = "%s, %s" % (regs[a], regs[b])
        if op == "=":
            r = regs[a]
        elif op == "s":
            r = value(s)
        elif op == "m":
            r = regs[a]
            regs[a] = value(s)
        else:
            r = apply(isint, op, regs[a], regs[b], e)
        what = "step %d (%s of %s)" % (i, op, before[:300])
        if r is None:
            if not g[0].startswith("E:"):
                return ("program:" + op, "%s did not throw" % what)
            r = regs[d]
            g = g[1:]
        regs[d] = r
        if len(g) != 13:
            return ("program:" + op, "%s gave %s" % (what, g))
        text = unhex(g[0]).decode()
        if (text != str(r)) if isint else not (NUM.match(text) and value(text) == r and not (r == 0 and text[0] == "-")):
            return ("program:" + op, "%s gave %s, expected %s" % (what, text[:300], r))
        if g[1:4] != ["1", "0", "0"]:
            return ("program:cmp", "%s: the result %s and its text read back compare (== < >) as %s" % (what, text[:300], g[1:4]))
        y = regs[c]
        w = ["%d" % x for x in (r == y, r != y, r < y, r > y, r <= y, r >= y, r == y, r < y, r > y)]
        if g[4:] != w:
            return ("program:cmp", "%s: %s and %s compare (== != < > <= >= Equal LessThan GreaterThan) as %s" % (what, text[:300], y, g[4:]))
    return None
