import re
from bignum import integer, long_digits, related, spell
import bigprog
from gens import hx, unhex, text, scalar
ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline differential oracle (Python integers) over recorded text and comparisons"
RULE = ("a case is a numeral or near-numeral to parse (signs, leading zeros, digits of other scripts, spaces, embedded signs), a pair "
        "of machine integers, or a pair of integers compared by every operator; non-trivial: a pair, or text with a digit")
ASSUMPTIONS = ["Python's integers are exact"]
DRIVERS = {"big": {"src": "big.cpp"}}
WORKERS = {"quick": 48, "thorough": 240}
NUM = re.compile(r"[+-]?[0-9]+\Z")


def bad(rng):
    s = spell(rng, integer(rng, 40))
    k = rng.random()
    i = rng.randrange(len(s) + 1)
    if k < 0.1:
        return rng.choice(["", "-", "+", "+-", "--1", "+-1", " 1", "1 ", "0x10", "1e5", "1.0", "1,000", ".", "-.", "1-", "1+1", "NaN", "٣", "-٣", "１", "१", "²"])
    if k < 0.3:
        return s[:i] + rng.choice("+-. ,eExX_'") + s[i:]
    if k < 0.5:
        return s[:i] + chr(rng.choice([0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce, 0x30 + 0x100, 0x2f, 0x3a, 0x2460, 0xb2]) + rng.randrange(10) % 2) + s[i:]
    if k < 0.8:
        return s[:i] + chr(scalar(rng)) + s[i:]
    if k < 0.9:
        return text(rng, n=rng.randrange(1, 6))
    return s


def batches(rng, idx, tier):
    out = []
    for _ in range(700):
        s = spell(rng, integer(rng)) if rng.random() < 0.4 else bad(rng)
        out.append("ip " + hx(s))
    E = [0, 1, -1, 9, 10, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 10 ** 18, -10 ** 18]
    for _ in range(200):
        a = rng.choice(E) if rng.random() < 0.5 else rng.randrange(-2 ** 63, 2 ** 63) >> rng.randrange(0, 60)
        b = rng.choice([x for x in E if x >= 0] + [2 ** 64 - 1]) if rng.random() < 0.4 else rng.randrange(0, 2 ** 64) >> rng.randrange(0, 60)
        if rng.random() < 0.2 and a >= 0:
            b = a
        out.append("im %d %d" % (a, b))
    for _ in range(500):
        a = integer(rng, 60)
        b = related(rng, a, 60)
        if rng.random() < 0.3:
            s = list(str(abs(a)))
            s[rng.randrange(len(s))] = rng.choice("0123456789")
            b = int("".join(s)) * rng.choice([1, -1])
        out.append("ib %d %d %s %s" % (rng.randrange(7), rng.randrange(7), hx(spell(rng, a)), hx(spell(rng, b))))
    for _ in range(100):
        out.append(bigprog.generate(rng, True, lambda r: spell(r, integer(r, 30)), int, 12, 90))
    for n in [rng.randrange(250, 3000), rng.choice([32768, 65535, 65536, 65537, 70001])]:  # long numerals
        s = rng.choice(["", "", "-", "+"]) + rng.choice(["", "", "0" * rng.choice([300, 65536])]) + long_digits(rng, n)
        if rng.random() < 0.3:
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(["+", "-", " ", "a", "\u0663", "."]) + s[i:]
        out.append("ip " + hx(s))
    yield "big", out


def judge(case, line):
    if case.startswith("ix"):
        return bigprog.judge(case, line, int)
    t = case.split()
    got = [x.split() for x in line.split(" ;")[:-1]]
    if t[0] == "ip":
        s = unhex(t[1]).decode()
        for g in got:
            if NUM.match(s):
                if g[0][0] != "x" or unhex(g[0]).decode() != str(int(s)):
                    return ("parse", "%r parsed as %s, expected %s" % (s, g[0] if g[0][0] != "x" else unhex(g[0]), int(s)))
            elif not g[0].startswith("E:"):
                return ("accepted", "%r is not a numeral and was accepted as %r" % (s, unhex(g[0])))
        return None
    if t[0] == "im":
        a, b = int(t[1]), int(t[2])
        for g, w in zip(got[:2], (a, b)):
            if g[0][0] != "x" or unhex(g[0]).decode() != str(w):
                return ("machine", "built from %d: %s" % (w, g))
        if got[2] != ["%d" % x for x in (a < b, a == b, a > b)]:
            return ("machine:cmp", "%d and %d compare as < == > %s" % (a, b, got[2]))
        if got[3] != ["x30", "1", "1", "0"]:
            return ("default", "default BigInteger: %s" % got[3])
        if got[4] != ["x30", "1", "1", "0"]:
            return ("default", "copies of a default BigInteger: %s" % got[4])
        return None
    a, b = int(unhex(t[3])), int(unhex(t[4]))
    w = ["%d" % x for x in (a == b, a != b, a < b, a > b, a <= b, a >= b, a == b, a < b, a > b)]
    if got[5] != w:
        return ("cmp", "%d and %d compare (== != < > <= >= Equal LessThan GreaterThan) as %s, expected %s" % (a, b, got[5], w))
    for k, name in ((6, "a+b-b"), (7, "a/b*b+a%b")):
        if got[k][0].startswith("E:"):
            continue
        if got[k][:3] != ["1", "0", "0"] or unhex(got[k][3]).decode() != str(a):
            return ("derived", "%s and a compare as == < > %s and print as %s, for a=%d b=%d" % (name, got[k][:3], unhex(got[k][3]), a, b))
    if got[8] != ["1", "x30"]:
        return ("zero", "a*b-b*a equals 0: %s, prints %s, for a=%d b=%d" % (got[8][0], got[8][1:], a, b))
    if [unhex(x).decode() for x in got[10]] != [str(a), str(b)]:
        return ("text", "operands print as %s" % got[10])
    return None


def nontrivial(case, r):
    if case[1] == "x":
        return True
    return not case.startswith("ip") or any(c in unhex(case.split()[1]) for c in b"0123456789")


def features(case, r, f):
    t = case.split()
    if case[1] == "x":
        f["programs"] += 1
        f["program steps"] += len(t[2].split(","))
        return
    if t[0] == "ip":
        f["parsed" if NUM.match(unhex(t[1]).decode()) else "rejected"] += 1
    else:
        f["machine" if t[0] == "im" else "compared"] += 1
