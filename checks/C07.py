import rt
import ucd
from gens import scalar, BOUND
ID = "C07"
LEVEL = "exploration"
TECHNIQUE = ("ASan/UBSan + offline oracle over the recorded classification of every code point (exhaustive) and of scattered repeated calls; "
             "ThreadSanitizer and comparison with a single thread for concurrent calls")
RULE = ("a case is a block of 512 code points (all of them each run) or a list of up to 60 code points classified twice in "
        "opposite orders, or a group of such lists run by 2-8 threads of a fresh process; non-trivial: some member has a class")
ASSUMPTIONS = ["Python's unicodedata supplies general categories"]
DRIVERS = {"char": {"src": "char.cpp"},
           "tsan": {"src": "char.cpp", "flags": rt.TSAN, "extra": ("-DRT_MT",), "name": "mt-char-tsan"},
           "plain": {"src": "char.cpp", "flags": ["-O2", "-g1", "-pthread"], "extra": ("-DRT_MT",), "name": "mt-char-plain"}}
WORKERS = {"quick": 16, "thorough": 64}
BLOCK = 512
ENV = {"RT_LEAK": "1"}
MUST_UPPER = set(range(0x41, 0x5b)) | set(range(0x410, 0x430)) | (set(range(0x391, 0x3aa)) - {0x3a2})
MUST_LOWER = set(range(0x61, 0x7b)) | set(range(0x430, 0x450)) | (set(range(0x3b1, 0x3ca)) - {0x3c2})


def batches(rng, idx, tier):
    out = []
    n = WORKERS[tier]
    for i, lo in enumerate(range(0, 0x110000, BLOCK)):
        if i % n == idx:
            out.append("cls %d %d" % (lo, lo + BLOCK))
    if idx == 0:
        out += ["cls %d %d" % (lo, lo + 16) for lo in (0x110000, 0x200000, 0x7ffffff0, 0xffffffe0)]
    pool = sorted(ucd.SPACE | MUST_UPPER | MUST_LOWER) + list(range(0x30, 0x3a)) * 4 + list(range(0x660, 0x66a)) + list(range(0xff10, 0xff1a))
    lists = ["list " + " ".join(str(rng.choice(pool) if rng.random() < 0.6 else scalar(rng)) for _ in range(rng.randrange(1, 60)))
             for _ in range(1500 if tier == "quick" else 8000)]
    yield "char", out + lists

    def group(cases, rounds):
        return " @@ ".join(["%d %d %d %d" % (rng.choice([2, 4, 8]), rng.randrange(3), rounds, rng.randrange(1, 2 ** 40))] + cases)
    gs = []
    for _ in range(12):
        k = rng.randrange(1, 12)
        few = [rng.choice(pool) if rng.random() < 0.6 else scalar(rng) for _ in range(rng.randrange(2, 30))]
        gs.append(group(["list " + " ".join(str(rng.choice(few)) for _ in range(rng.randrange(1, 60))) for _ in range(k)]
                        if rng.random() < 0.5 else rng.sample(lists, k), rng.choice([1, 5, 30])))
    yield "tsan", gs
    for _ in range(12):
        # many rounds over the same lists
        gs.append(group(rng.sample(lists, rng.randrange(2, 9)), 200))
    yield "plain", gs


def verdict(c, m):
    sp, dg, up, lo, le = m & 1, m & 2, m & 4, m & 8, m & 16
    if bool(sp) != (c in ucd.SPACE):
        return "IsSpace is %s" % bool(sp)
    cat = ucd.category(c) if c <= 0x10ffff else "Cn"
    if dg and cat != "Nd" or not dg and cat == "Nd" and c in BMP_DIGITS:
        return "IsDigit is %s, category %s" % (bool(dg), cat)
    if up and not (cat == "Lu") or not up and c in MUST_UPPER:
        return "IsUppercase is %s, category %s" % (bool(up), cat)
    if lo and not (cat == "Ll") or not lo and c in MUST_LOWER:
        return "IsLowercase is %s, category %s" % (bool(lo), cat)
    if bool(le) != bool(up or lo):
        return "IsLetter is %s but IsUppercase %s, IsLowercase %s" % (bool(le), bool(up), bool(lo))
    return None


BMP_DIGITS = {c for c in range(0x10000) if ucd.category(c) == "Nd"} - set(range(0xde6, 0xdf0))  # Sinhala Lith digits: either answer


def judge(case, line):
    t = case.split()
    if t[0].isdigit():
        r = line.split()
        if int(r[3]):
            return ("concurrent", "%s concurrent calls answered otherwise than alone: %s" % (r[3], bytes.fromhex(r[4][1:]).decode("utf-8", "replace")))
        return None
    g = line.split(" ")
    if t[0] == "cls":
        dig = g[1].split(",")
        for i, c in enumerate(range(int(t[1]), int(t[2]))):
            v = verdict(c, ord(g[0][i]) - 64)
            if v:
                return ("class:" + v.split()[0], "U+%04X: %s" % (c, v))
            d = int(dig[i])
            if 0x30 <= c <= 0x39:
                ok = d == c - 0x30
            elif c in BMP_DIGITS:
                import unicodedata
                ok = d in (-1, unicodedata.decimal(chr(c)))
            else:
                ok = d == -1
            if not ok and not (0x10000 <= c <= 0x10ffff and ucd.category(c) == "Nd"):
                return ("ToDigit", "ToDigit(U+%04X) = %d" % (c, d))
        return None
    cps = [int(x) for x in t[1:]]
    if g[1] != g[0][::-1]:
        return ("repeat", "classifying the same characters twice gave different answers: %s / %s" % (g[0], g[1][::-1]))
    for c, m in zip(cps, g[0]):
        v = verdict(c, ord(m) - 64)
        if v:
            return ("class:" + v.split()[0], "U+%04X: %s" % (c, v))
    return None


def nontrivial(case, r):
    return r[0] == "ok" and (case[0].isdigit() or any(x != "@" for x in r[1].split(" ")[0]))


def features(case, r, f):
    t = case.split()
    if t[0].isdigit():
        if r[0] == "ok":
            g = r[1].split()
            f["concurrent groups"] += 1
            f["concurrent lists classified"] += int(g[0])
            f["of which overlapping another thread's"] += int(g[1])
        return
    f[t[0]] += 1
    if r[0] == "ok" and t[0] == "cls":
        m = r[1].split(" ")[0]
        f["code points observed"] += len(m)
        for x in m:
            k = ord(x) - 64
            for b, n in ((1, "spaces"), (2, "digits"), (4, "uppercase"), (8, "lowercase")):
                if k & b:
                    f[n] += 1
