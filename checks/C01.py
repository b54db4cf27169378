from gens import hx, unhex, scalar, text, length
ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: ASan/UBSan + offline oracle over recorded construction/extraction events"
RULE = ("a case is one text put through 20+ construction paths; the recorded lengths, per-index characters, "
        "iterations and output bytes are compared with Python's own UTF-8 codec; non-trivial: at least one "
        "multi-byte character or more than 3 characters")
ASSUMPTIONS = ["text contains no NUL", "Python's str/UTF-8 codec is the reference"]
DRIVERS = {"str1": {"src": "str1.cpp"}}
WORKERS = {"quick": 16, "thorough": 160}


def batches(rng, idx, tier):
    out = []
    n = 16 if tier == "quick" else 160
    # every scalar value appears: slice idx of the code space, in chunks of 24
    lo = 1 + idx * (0x110000 // n)
    hi = 0x110000 if idx == n - 1 else lo + 0x110000 // n
    cps = [c for c in range(lo, hi) if not 0xd800 <= c < 0xe000]
    for i in range(0, len(cps), 97):
        out.append("rt " + hx("".join(map(chr, cps[i:i + 97]))))
    for _ in range(350):
        out.append("rt " + hx(text(rng, big=1500)))
    for c in rng.sample(range(1, 0xd800), 150):
        out.append("rt " + hx(chr(c)))
    for n in range(0, 40):
        out.append("rt " + hx(text(rng, n=n)))
    out.append("rt " + hx(text(rng, n=[4096, 10000, 20000, 9999, 32768, 65535, 65536, 65537, 70001][idx % 9])))
    yield "str1", out


def expect(s):
    b = s.encode()
    it = b"".join(c.encode() + b"," for c in s)
    rit = b"".join(c.encode() + b"," for c in reversed(s))
    e = [str(len(s)), str(len(s)), str(len(b)), "1" if not s else "0", "0" if not s else "1", hx(b), hx(it), hx(rit),
         "1", "1", "1", "1", "1", hx(b), "".join("%x," % ord(c) for c in s) or "-"] + ["E:out_of_range"] * 10 + ["1", "1"]
    return e


NAMES = ["size", "Length", "ByteCount", "IsEmpty", "NotEmpty", "str", "iteration", "reverse iteration",
         "const iteration", "const reverse iteration", "operator[]", "At", "data", "operator<<", "code points"] + \
    ["At(past the end)"] * 10 + ["mutable iteration", "mutable reverse iteration"]


def judge(case, line):
    s = unhex(case.split()[1]).decode()
    got = line.split(" ")
    e = expect(s)
    for i, (a, b) in enumerate(zip(got, e)):
        if a != b:
            return ("construct:" + NAMES[i], "%s is %s, expected %s, for text %r" % (NAMES[i], a[:200], b[:200], s[:100]))
    rest = got[len(e):]
    ways = 28 - (1 if "\n" in s else 0)
    if rest != ["="] * (ways - 1):
        i = next((i for i, x in enumerate(rest) if x != "="), len(rest))
        return ("way:%d" % (i + 1), "construction path %d gives a different String for %r: %s" % (i + 1, s[:100], " ".join(rest[i:])[:400]))
    return None


def nontrivial(case, r):
    b = bytes.fromhex(case.split()[1][1:])
    return r[0] == "ok" and (len(b) > 3 or any(x > 0x7f for x in b))


def features(case, r, f):
    b = bytes.fromhex(case.split()[1][1:])
    f["texts"] += 1
    for x in b:
        if x >= 0xf0:
            f["4-byte characters"] += 1
        elif x >= 0xe0:
            f["3-byte characters"] += 1
        elif x >= 0xc0:
            f["2-byte characters"] += 1
        elif x < 0x80:
            f["1-byte characters"] += 1
