from gens import hx, unhex, huge, scalar, text
ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline model checking of recorded editing histories (code-point list model)"
RULE = ("a case is one history of 5-60 editing operations over four strings; after every operation every string whose "
        "content changed is recorded and compared with a list-of-code-points model; non-trivial: at least 5 operations "
        "that changed a string")
ASSUMPTIONS = ["text contains no NUL", "a moved-from string may hold anything: the workload clears it"]
DRIVERS = {"str1": {"src": "str1.cpp"}}
WORKERS = {"quick": 48, "thorough": 200}
ENV = {"RT_LEAK": "1"}
NPOS = 2 ** 64 - 1
MAXLEN = 20000


class Model:
    """Interprets the same history on Python strings; used by the generator (for lengths) and by the oracle."""

    def __init__(self):
        self.r = ["", "", "", ""]

    def apply(self, op, a):
        r = self.r
        if op in ("new", "newb", "lit"):
            r[a[0]] = a[1]
        elif op == "newn":
            r[a[0]] = chr(a[2]) * a[1]
        elif op == "newc":
            r[a[0]] = chr(a[2]) * a[1]
        elif op in ("cpy", "asg", "vec"):
            r[a[0]] = r[a[1]]
        elif op == "mov":
            t = r[a[1]]
            r[a[1]] = ""
            r[a[0]] = t
        elif op == "masg":
            t = r[a[1]]
            r[a[0]] = t
            if a[0] != a[1]:
                r[a[1]] = ""
        elif op == "plus":
            r[a[0]] = r[a[1]] + r[a[2]]
        elif op == "plusc":
            r[a[0]] = r[a[1]] + a[2]
        elif op == "pe":
            r[a[0]] += r[a[1]]
        elif op == "pb":
            r[a[0]] += chr(a[1])
        elif op == "pbs":
            if a[1] >= len(r[a[0]]):
                return "E:out_of_range"
            r[a[0]] += r[a[0]][a[1]]
        elif op == "apc":
            r[a[0]] += a[1]
        elif op == "apn":
            r[a[0]] += a[2] * a[1]
        elif op == "apk":
            r[a[0]] += chr(a[2]) * a[1]
        elif op == "aps":
            if a[2] >= len(r[a[0]]):
                return "E:out_of_range"
            r[a[0]] += r[a[0]][a[2]] * a[1]
        elif op in ("ins", "inss", "insk", "insz"):
            s = r[a[0]]
            if op == "insz" and a[3] >= len(s):
                return "E:out_of_range"
            if a[1] > len(s):
                return "E:out_of_range"
            mid = {"ins": lambda: a[2], "inss": lambda: r[a[2]], "insk": lambda: chr(a[3]) * a[2],
                   "insz": lambda: s[a[3]] * a[2]}[op]()
            r[a[0]] = s[:a[1]] + mid + s[a[1]:]
        elif op in ("sub", "sub1"):
            s = r[a[1]]
            if a[2] > len(s):
                return "E:out_of_range"
            r[a[0]] = s[a[2]:] if op == "sub1" else s[a[2]:a[2] + a[3]]
        elif op in ("clr", "emp"):
            r[a[0]] = ""
        elif op == "set":
            if a[1] < len(r[a[0]]):
                r[a[0]] = r[a[0]][:a[1]] + chr(a[2]) + r[a[0]][a[1] + 1:]
        elif op == "seta":
            if a[1] >= len(r[a[0]]):
                return "E:out_of_range"
            r[a[0]] = r[a[0]][:a[1]] + chr(a[2]) + r[a[0]][a[1] + 1:]
        elif op == "rev":
            r[a[0]] = r[a[0]][::-1]
        else:
            raise ValueError(op)
        return "ok"


# argument kinds: r register, s string, n count, p position(of register arg0/arg1), c scalar, b ascii byte, k one char
OPS = {"new": "rs", "newb": "rs", "lit": "rs", "newn": "rnb", "newc": "rnc", "cpy": "rr", "asg": "rr", "vec": "rr",
       "mov": "rr", "masg": "rr", "plus": "rrr", "plusc": "rrs", "pe": "rr", "pb": "rc", "pbs": "ri", "apc": "rs",
       "apn": "rnk", "apk": "rnc", "aps": "rni", "ins": "rps", "inss": "rpr", "insk": "rpnc", "insz": "rpni",
       "sub": "rrqm", "sub1": "rrq", "clr": "r", "emp": "r", "set": "ric", "seta": "ric", "rev": "r"}
W = [("new", 3), ("newb", 2), ("lit", 1), ("newn", 1), ("newc", 1), ("cpy", 2), ("asg", 3), ("vec", 1), ("mov", 2),
     ("masg", 2), ("plus", 4), ("plusc", 1), ("pe", 5), ("pb", 3), ("pbs", 2), ("apc", 3), ("apn", 2), ("apk", 2), ("aps", 2),
     ("ins", 5), ("inss", 6), ("insk", 3), ("insz", 3), ("sub", 6), ("sub1", 3), ("clr", 1), ("emp", 1), ("set", 2),
     ("seta", 2), ("rev", 1)]
NAMES = [n for n, w in W for _ in range(w)]


def pos(rng, n, past=0.08):
    k = rng.random()
    if k < past:
        return rng.choice([n + 1, n + 2, n + 100, NPOS, NPOS - 1, 2 ** 63, 2 ** 32])
    if k < 0.3:
        return 0
    if k < 0.5:
        return n
    if k < 0.6:
        return max(0, n - 1)
    return rng.randrange(0, n + 1)


def gen_history(rng, steps, limit=MAXLEN):
    m, out = Model(), ["hist"]
    small = rng.random() < 0.5
    for _ in range(steps):
        op = rng.choice(NAMES)
        a, toks = [], []
        for kind in OPS[op]:
            if kind == "r":
                v = rng.randrange(4) if len(a) == 0 or rng.random() < 0.7 else a[0]
            elif kind == "s" and limit > MAXLEN and rng.random() < 0.5:
                v = huge(rng)
            elif kind == "s":
                v = text(rng, big=600, n=rng.randrange(0, 8) if small else None)
            elif kind == "n":
                v = rng.choice([0, 1, 2, 3, 5, 8, 17, 40] + ([100, 257] if not small else []) + ([65535, 65536, 70001] if limit > MAXLEN else []))
            elif kind == "b":
                v = rng.randrange(0x20, 0x7f)
            elif kind == "c":
                v = scalar(rng)
            elif kind == "k":
                v = chr(scalar(rng))
            elif kind == "i":
                v = pos(rng, len(m.r[a[0]]))
                if v == len(m.r[a[0]]) and rng.random() < 0.7:
                    v = max(0, v - 1)
            elif kind == "p":
                v = pos(rng, len(m.r[a[0]]))
            elif kind == "q":
                v = pos(rng, len(m.r[a[1]]))
            elif kind == "m":
                n = len(m.r[a[1]])
                v = rng.choice([0, 1, n, n + 1, NPOS, NPOS - 1, 2 ** 63, rng.randrange(0, n + 2), rng.randrange(0, n + 2)])
            a.append(v)
            toks.append(hx(v) if isinstance(v, str) else str(v))
        saved = list(m.r)
        m.apply(op, a)
        if sum(map(len, m.r)) > limit:
            m.r = saved
            continue
        out += [op] + toks
    return " ".join(out)


def parse(case):
    t = case.split()[1:]
    i = 0
    while i < len(t):
        op = t[i]
        sig = OPS[op]
        args = [(unhex(x).decode() if x[0] == "x" else int(x)) for x in t[i + 1:i + 1 + len(sig)]]
        i += 1 + len(sig)
        yield op, args


def batches(rng, idx, tier):
    yield "str1", [gen_history(rng, rng.choice([6, 12, 25, 60])) for _ in range(1600)] + [gen_history(rng, 8, 300000) for _ in range(6)]


def judge(case, line):
    m = Model()
    shown = [(0, b"")] * 4
    events = line.split(" ;")
    for (op, a), ev in zip(parse(case), events):
        t = ev.split()
        want = m.apply(op, a)
        if t[0] != want:
            return ("%s:status" % op, "%s%r reported %s, expected %s" % (op, tuple(str(x)[:60] for x in a), t[0], want))
        obs = list(shown)
        for j in range(1, len(t), 3):
            obs[int(t[j])] = (int(t[j + 1]), unhex(t[j + 2]))
        exp = [(len(s), s.encode()) for s in m.r]
        if obs != exp:
            k = next(k for k in range(4) if obs[k] != exp[k])
            return ("%s:content" % op, "after %s%r string %d holds %d characters %r, expected %d characters %r" % (
                op, tuple(str(x)[:60] for x in a), k, obs[k][0], obs[k][1][:150], exp[k][0], exp[k][1][:150]))
        shown = obs
    if len(events) - 1 != sum(1 for _ in parse(case)):
        return ("events", "recorded %d operations of %d" % (len(events) - 1, sum(1 for _ in parse(case))))
    return None


def nontrivial(case, r):
    return r[0] == "ok" and sum(1 for e in r[1].split(" ;") if len(e.split()) > 1) >= 5


def features(case, r, f):
    f["operations observed"] += r[1].count(";") if r[0] == "ok" else 0
    f["rejected positions observed"] += r[1].count("E:")
    for t in case.split():
        if t in OPS:
            f["op " + t] += 1
