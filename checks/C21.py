import jsonref as J
from gens import huge
ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "recorded parse trees and serialized texts against an independent strict RFC 8259 reader, ASan/UBSan, allocation balance"
RULE = ("a case is a generated JSON document written as text with random spacing, escapes and number notations (or built through the API) that is "
        "parsed, read member by member, serialized compactly and structured, and parsed again; non-trivial: a document with at least 2 members or one "
        "container, string with an escape, or floating number")
ASSUMPTIONS = ["text contains no raw NUL", "integers are within 64 bits and floating numbers within the floating range (others belong to C22)",
               "the reference rounds decimal text to the library's 32-bit floating type exactly"]
DRIVERS = {"json": {"src": "json.cpp"}}
WORKERS = {"quick": 24, "thorough": 400}
ENV = {"RT_LEAK": "1"}


def val(rng, v):
    k = v[0]
    if k == "n":
        return rng.choice(["nul", "mn", "dft"])
    if k == "b":
        return "%s %d" % (rng.choice(["bt", "mb"]), v[1])
    if k == "i":
        names = ["i64", "mi"] + [n for n, lo, hi in (("i8", -128, 127), ("u8", 0, 255), ("i16", -2 ** 15, 2 ** 15 - 1), ("u16", 0, 65535),
                                                    ("i32", -2 ** 31, 2 ** 31 - 1), ("u32", 0, 2 ** 32 - 1), ("u64", 0, 2 ** 63 - 1)) if lo <= v[1] <= hi]
        return "%s %d" % (rng.choice(names), v[1])
    if k == "d":
        return "%s %d" % (rng.choice(["f", "mf", "dbl"]), v[1])
    if k == "s":
        return "%s x%s" % (rng.choice(["cs", "ss", "ms"]), v[1].encode().hex())
    if not v[1]:
        return "ma" if k == "a" else "mo"
    return None


def build_case(rng):
    d = {}
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 10])):
        k = J.gstr(rng)
        while True:
            v = J.gval(rng, 1, 0)
            if v[0] == "d" and rng.random() < 0.2:
                v = ("d", rng.choice([0x7f800000, 0xff800000, 0x7fc00000]))
            t = val(rng, v)
            if t:
                break
        d[k] = v
        out.append("x%s %s" % (k.encode().hex(), t))
    return "build %d %d %d %s" % (rng.choice([0, 1, 2, 4, 7]), rng.random() < 0.2, len(out), " ".join(out))


def batches(rng, idx, tier):
    cases = []
    for _ in range(500):
        doc = J.gdoc(rng, dup=True)
        cases.append(J.parse_case(rng, J.write(rng, doc)))
    cases += [build_case(rng) for _ in range(150)]
    # the decimal and binary neighbourhood of every kind of float, and integers around powers of ten and two
    for _ in range(60):
        n = rng.randrange(1, 12)
        items = []
        for i in range(n):
            if rng.random() < 0.5:
                e = rng.randrange(64)
                v = rng.choice([1, -1]) * (rng.choice([2 ** e, 10 ** min(e, 18)]) + rng.randrange(-2, 3))
                items.append(("k%d" % i, ("i", max(J.I64MIN, min(J.I64MAX, v)))))
            else:
                items.append(("k%d" % i, ("d", (rng.randrange(255) << 23 | rng.choice([0, 1, 0x7fffff, 0x400000, rng.getrandbits(23)])) | rng.choice([0, 1 << 31]))))
        cases.append(J.parse_case(rng, J.write(rng, ("o", items))))
    for d in (1, 100, 511, 512):
        cases.append("deep %d %d 1" % (d, rng.randrange(3)))
    # more characters, elements and members than 16 bits count
    n = rng.choice([32768, 65535, 65536, 65537, 70001])
    k = idx % 5
    if k == 0:
        v = ("s", huge(rng)[:70001])
    elif k == 1:
        v = ("a", [rng.choice([("i", i), ("b", True), ("n",)]) for i in range(n)])
    elif k == 2:
        v = ("o", [(str(i * 7919 % 1000003), ("i", i)) for i in range(n // 13)])
    elif k == 3:
        v = ("a", [("a", [("s", J.gstr(rng))] * rng.choice([1, 255, 256, 257])) for _ in range(120)])
    if k == 4:
        cases.append("build %d 0 %d %s" % (rng.choice([0, 4]), n // 13, " ".join("x%s mi %d" % (str(i * 7919 % 1000003).encode().hex(), i) for i in range(n // 13))))
    else:
        cases.append(J.parse_case(rng, J.write(rng, ("o", [("first", ("i", 1)), (rng.choice(["v", huge(rng)[:66000]]), v), ("last", ("s", "end"))]))))
    yield "json", cases


def expected_build(case):
    c = case.split()
    i = 4
    d = {}
    for _ in range(int(c[3])):
        k = bytes.fromhex(c[i][1:]).decode()
        t = c[i + 1]
        i += 2
        if t in ("nul", "mn", "dft"):
            v = ("n",)
        elif t == "ma":
            v = ("a", [])
        elif t == "mo":
            v = ("o", [])
        else:
            a = c[i]
            i += 1
            v = ("b", a == "1") if t in ("bt", "mb") else ("d", int(a)) if t in ("f", "mf", "dbl") else \
                ("s", bytes.fromhex(a[1:]).decode()) if t in ("cs", "ss", "ms") else ("i", int(a))
        d[k] = v
    return ("o", list(d.items()))


def judge_deep(case, line):
    depth, kind, closed = map(int, case.split()[1:])
    t = line.split()
    ok = closed == 1 and depth <= J.MAXDEPTH or depth == 1
    if ok:
        if t[1] != "0" or t[3] != "o" or t[4:] != ["1", "1", "1"]:
            return ("deep", "nesting of %d levels: recorded %s" % (depth, line[:200]))
    elif t[1] != "1" or len(t[2]) < 3 or t[3] != "n":
        return ("deep:accepted", "nesting of %d levels, closed %d: recorded %s" % (depth, closed, line[:200]))
    return None


def judge(case, line):
    if case[0] == "p":
        return J.judge_parse(case, line)
    if case[0] == "d":
        return judge_deep(case, line)
    t = line.split()
    return J.judge_texts(t[1:], expected_build(case), "a built document: " + case[:300])


def nontrivial(case, r):
    if case[0] == "p":
        text = bytes.fromhex(case.split()[5][1:])
        return text.count(b":") > 1 or any(x in text for x in (b"[", b"\\", b"."))
    return case[0] == "d" or int(case.split()[3]) > 1


def features(case, r, f):
    f[case.split()[0]] += 1
    if case[0] == "p":
        c = case.split()
        f["input mode " + c[1]] += 1
        J.f_canon_feats(bytes.fromhex(c[5][1:]).decode(), f)
        if c[3] == "1":
            f["under a grouping global locale"] += 1
