from gens import hx, unhex, huge, scalar, text
ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline oracle over recorded search and comparison results (Python code-point strings)"
RULE = ("a case is a pair of strings, a start position and a character, put through every search and comparison; pairs "
        "are built to overlap, repeat, share prefixes and differ late; non-trivial: the pattern occurs or the strings "
        "share a prefix")
ASSUMPTIONS = ["text contains no NUL; results for the empty pattern are only checked in Contains/StartsWith/EndsWith on non-empty texts",
               "for ReverseFind with an explicit start position both conventions (match starting at or before it, match lying at or before it) are accepted"]
DRIVERS = {"str1": {"src": "str1.cpp"}}
WORKERS = {"quick": 40, "thorough": 200}
NPOS = 2 ** 64 - 1


def pair(rng):
    k = rng.random()
    if k < 0.45:  # small alphabet, periodic
        al = rng.choice(["ab", "a", "aé", "é€", "a😀", "xyz", "aAéÉ", "\u07ff\u0800", "\uffff\U00010000"])
        if rng.random() < 0.4:
            u = "".join(rng.choice(al) for _ in range(rng.randrange(1, 5)))
            a = (u * rng.randrange(1, 12))[:rng.randrange(1, 40)]
        else:
            a = "".join(rng.choice(al) for _ in range(rng.randrange(0, 30)))
        if a and rng.random() < 0.6:
            i = rng.randrange(len(a))
            b = a[i:i + rng.randrange(1, 9)]
        else:
            b = "".join(rng.choice(al) for _ in range(rng.randrange(0, 6)))
        if rng.random() < 0.2:
            b += rng.choice(al)
    elif k < 0.7:
        a = text(rng, big=1500)
        i = rng.randrange(len(a) + 1)
        j = rng.choice([len(a), rng.randrange(i, len(a) + 1)])
        b = a[i:j] if rng.random() < 0.8 else a[:j]
        if b and rng.random() < 0.3:
            i = rng.randrange(len(b))
            b = b[:i] + chr(scalar(rng)) + b[i + 1:]
        if rng.random() < 0.3:
            a = a + b + a[:5] + b
    elif k < 0.85:  # order: late difference
        p = text(rng, n=rng.randrange(0, 30))
        a, b = p + text(rng, n=rng.randrange(0, 3)), p + text(rng, n=rng.randrange(0, 3))
    else:
        a, b = text(rng), text(rng, n=rng.randrange(0, 4))
    return a, b


def long_pattern(rng):
    """A pattern of up to 70000 characters in blocks over separate alphabets, at the end or inside of a longer text."""
    blocks = [rng.choice(["ab", "cd", "\u00e9\u20ac", "xyzw", "pqrs\u0101", "\U0001f600a"]) for _ in range(rng.randrange(2, 5))]
    b = "".join("".join(rng.choices(al, k=rng.choice([1, 5, 40, 250, 260, 1000, 4096, rng.choice([20000, 33000, 34000])]))) + rng.choice(["", "Q", "\u0151"])
                for al in blocks)[:70001]
    junk = "".join(rng.choices(rng.choice(blocks + ["abcdwxyz"]), k=rng.choice([0, 1, 3, 100, 300, 1000, 5000, 35000, 45000])))
    bad = b if rng.random() < 0.5 else ""
    if bad:
        i = rng.randrange(len(b))
        bad = b[:i] + "#" + b[i + 1:]
    a = (junk + bad + b if rng.random() < 0.85 else junk + bad) + "".join(rng.choices("abQ", k=rng.choice([0, 0, 1, 300])))
    if rng.random() < 0.3:
        a, b = a[::-1], b[::-1]
    return a, b


def batches(rng, idx, tier):
    out = []
    for _ in range(4):
        a, b = long_pattern(rng)
        p = rng.choice([0, 0, 1, len(a) // 2, max(0, len(a) - len(b)), len(a), NPOS])
        out.append("q %s %s %d %d" % (hx(a), hx(b), p, ord(rng.choice(a)) if a else 97))
    for i in range(9012):
        a, b = pair(rng)
        if i >= 9000:
            # the search takes quadratic time on periodic texts: no long pattern in those
            t, a, b = "".join(chr(scalar(rng)) for _ in range(2000)) + huge(rng)[:68001], a[:200], b[:200]
            j = rng.choice([0, len(t) - 1, rng.randrange(len(t))])
            a, b = rng.choice([(t, t[j:j + rng.choice([1, 3, 300, 1000])][:1000]), (t + a + b, b), (t + a, t + b), (t + a + b, b + a)])
        n = len(a)
        p = rng.choice([0, 1, n, n + 1, max(0, n - 1), max(0, n - len(b)), NPOS, 2 ** 63, rng.randrange(0, n + 2),
                        rng.randrange(0, n + 2), rng.randrange(0, n + 2)])
        k = ord(rng.choice(a)) if a and rng.random() < 0.8 else scalar(rng)
        out.append("q %s %s %d %d" % (hx(a), hx(b), p, k))
    yield "str1", out


def judge(case, line):
    _, ha, hb, p, k = case.split()
    a, b, p, k = unhex(ha).decode(), unhex(hb).decode(), int(p), chr(int(k))
    s1, s2, s3 = [x.split() for x in line.split(" |")]
    n = len(a)
    ctx = "text %r, pattern %r, position %d" % (a[:120], b[:120], p)

    def from_(i):
        return a.find(b, i) if i <= n else -1
    if b:
        last = a.rfind(b)
        rp = {a.rfind(b, 0, min(p, n) + len(b)), a.rfind(b, 0, min(p, n) + 1) if p < n else last}
        checks = [("Find", s1[0], {a.find(b)}), ("Find from", s1[1], {from_(p)}), ("Find(const char*) from", s1[2], {from_(p)}),
                  ("ReverseFind", s1[3], {last}), ("ReverseFind from", s1[4], rp), ("ReverseFind(const char*)", s1[5], {last})]
        for what, got, want in checks:
            if int(got) not in want:
                return (what, "%s gives %s, expected %s: %s" % (what, got, sorted(want), ctx))
    flags = [("Contains", b in a), ("StartsWith", a.startswith(b)), ("EndsWith", a.endswith(b))]
    for (what, want), got in zip(flags, s1[6:]):
        if (b or a) and got != "01"[want]:
            return (what, "%s is %s: %s" % (what, got, ctx))

    def first(pred, start):
        return next((i for i in range(start, n) if pred(a[i])), -1) if start <= n else -1
    want = [first(lambda c: c == k, 0), first(lambda c: c == k, p), first(lambda c: c != k, 0), first(lambda c: c != k, p)]
    for what, g, w in zip(("FindIf", "FindIf from", "FindIfNot", "FindIfNot from"), s2, want):
        if int(g) != w:
            return (what, "%s(%r) gives %s, expected %d: %s" % (what, k, g, w, ctx))
    rel = [a < b, a <= b, a > b, a >= b, a == b, a != b]
    rev = [b < a, b <= a, b > a, b >= a, b == a, b != a]
    want = rel + rel + rev + [True, False, False, True]
    for i, (g, w) in enumerate(zip(s3, want)):
        if g != "01"[w]:
            what = ["<", "<=", ">", ">=", "==", "!="][i % 6] + ["", " (const char*)", " (swapped)", " (self)"][i // 6]
            return ("compare" + what, "comparison %s is %s: %r with %r" % (what, g, a[:120], b[:120]))
    return None


def nontrivial(case, r):
    _, ha, hb, p, k = case.split()
    a, b = unhex(ha), unhex(hb)
    return bool(b) and (b in a or a[:1] == b[:1])


def features(case, r, f):
    _, ha, hb, p, k = case.split()
    a, b = unhex(ha), unhex(hb)
    f["pairs"] += 1
    if b and b in a:
        f["pattern occurs"] += 1
        if a.find(b) != a.rfind(b):
            f["several occurrences"] += 1
    if int(p) > len(a):
        f["start past the end"] += 1
