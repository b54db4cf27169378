from gens import hx, unhex, scalar, BOUND
ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline oracle over the recorded encodings of every scalar value (exhaustive), ordering sampled"
RULE = ("a case is a block of 512 code points (every scalar value is covered once per run) or one ordered pair of code "
        "points; non-trivial: a block with scalar values, or a pair of different characters")
ASSUMPTIONS = ["Python's UTF-8 codec is the reference"]
DRIVERS = {"char": {"src": "char.cpp"}}
WORKERS = {"quick": 16, "thorough": 64}
BLOCK = 512


def batches(rng, idx, tier):
    out = []
    n = WORKERS[tier]
    for i, lo in enumerate(range(0, 0x110000, BLOCK)):
        if i % n == idx:
            out.append("enc %d %d" % (max(lo, 1), lo + BLOCK))
    for _ in range(6000 if tier == "quick" else 40000):
        a = scalar(rng)
        b = rng.choice([scalar(rng), min(a + 1, 0x10ffff), a, rng.choice(BOUND)])
        b = b if not 0xd800 <= b < 0xe000 else 0xe000
        out.append("ord %d %d" % (a, b))
    if idx == 0:
        out += ["ord %d %d" % (a, b) for a in BOUND for b in BOUND]
        out += ["byte %d" % b for b in range(1, 128)]
    yield "char", out


def judge(case, line):
    t = case.split()
    g = line.split(" ")
    if t[0] == "enc":
        cps = [c for c in range(int(t[1]), int(t[2])) if not 0xd800 <= c < 0xe000]
        if not cps:
            return None
        data, pos = unhex(g[0]), 0
        back = g[2].split(",")
        for i, c in enumerate(cps):
            e = chr(c).encode()
            n = int(g[1][i])
            if data[pos:pos + n] != e:
                return ("encode", "U+%04X is encoded as %s" % (c, data[pos:pos + n].hex()))
            pos += n
            if int(back[i], 16) != c:
                return ("decode", "U+%04X is decoded as U+%s" % (c, back[i]))
            if g[3][i] != "1":
                return ("paths", "the construction, assignment or output paths disagree for U+%04X" % c)
        return None
    if t[0] == "ord":
        a, b = int(t[1]), int(t[2])
        want = [a < b, a <= b, a > b, a >= b, a == b, a != b, False, True, False, True, True, False]
        for i, (x, w) in enumerate(zip(g, want)):
            if x != "01"[w]:
                return ("order", "comparison %s of U+%04X with U+%04X is %s" % (["<", "<=", ">", ">=", "==", "!="][i % 6], a, b if i < 6 else a, x))
        return None
    c = int(t[1])
    if unhex(g[0]) != bytes([c]) or int(g[1]) != c or g[2] != "1" or unhex(g[3]) != bytes([c]):
        return ("byte", "Char(%d) is %s" % (c, line))
    return None


def nontrivial(case, r):
    t = case.split()
    return t[0] == "enc" and not 0xd800 <= int(t[1]) < 0xe000 or t[0] == "ord" and t[1] != t[2]


def features(case, r, f):
    t = case.split()
    if t[0] == "enc" and r[0] == "ok":
        f["scalar values observed"] += len(r[1].split(" ")[1]) if r[1][0] != "-" and not 0xd800 <= int(t[1]) < 0xe000 else 0
    f[t[0]] += 1
