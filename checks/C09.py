from gens import hx, unhex, huge, scalar, text
ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + allocation balance + offline model checking of recorded append/read histories"
RULE = ("a case is a history of 4-50 operations over four builders, read at random points and at the end, compared with a "
        "list-of-strings model; non-trivial: at least 3 appends and a read")
ASSUMPTIONS = ["a moved-from builder is discarded by the workload", "text contains no NUL"]
DRIVERS = {"sb": {"src": "sb.cpp"}}
WORKERS = {"quick": 32, "thorough": 160}
ENV = {"RT_LEAK": "1"}
ARGS = {"new0": "", "newc": "b", "newp": "s", "news": "s", "newf": "si", "mk0": "", "mkc": "b", "mks": "s", "mkf": "si", "cpy": "r",
        "mov": "r", "app": "s", "appp": "s", "appf": "si", "line": "s", "linef": "si", "apps": "r", "bad": "", "badl": "", "read": ""}
W = dict(new0=1, newc=1, newp=1, news=1, newf=1, mk0=1, mkc=1, mks=1, mkf=1, cpy=4, mov=3, app=8, appp=3, appf=4, line=4, linef=3,
         apps=3, bad=1, badl=1, read=8)
NAMES = [n for n, w in W.items() for _ in range(w)]


def gen(rng, big=False):
    out = ["h"]
    size = [0] * 4
    for _ in range(rng.choice([4, 10, 20, 50] if not big else [8, 14])):
        op = rng.choice(NAMES)
        out += [op, str(rng.randrange(4))]
        for k in ARGS[op]:
            if k == "b":
                out.append(str(rng.randrange(0x20, 0x7f)))
            elif k == "s":
                s = text(rng, big=3000) if rng.random() < 0.7 else rng.choice(["", "a", "{}", "{0}", "}}", "%d", "line\n", "\n"])
                if big and rng.random() < 0.5:
                    s = huge(rng)
                out.append(hx(s))
            elif k == "i":
                out.append(str(rng.choice([0, -1, 7, 2 ** 31 - 1, -2 ** 31, rng.randrange(10 ** 6)])))
            elif k == "r":
                out.append(str(rng.randrange(4)))
    return " ".join(out)


def batches(rng, idx, tier):
    yield "sb", [gen(rng) for _ in range(2500)] + [gen(rng, True) for _ in range(4)]


def parse(case):
    t = case.split()[1:]
    i = 0
    while i < len(t):
        op, a = t[i], int(t[i + 1])
        n = len(ARGS[op])
        args = [unhex(x).decode() if x[0] == "x" else int(x) for x in t[i + 2:i + 2 + n]]
        i += 2 + n
        yield op, a, args


CAP = 10 ** 6


def judge(case, line):
    b = [""] * 4
    evs = line.split(" ;")
    for (op, a, x), ev in zip(parse(case), evs):
        t = ev.split()
        if op in ("new0", "mk0"):
            b[a] = ""
        elif op in ("newc", "mkc"):
            b[a] = chr(x[0])
        elif op in ("newp", "news", "mks"):
            b[a] = x[0]
        elif op in ("newf", "mkf"):
            b[a] = "%s|%d{}" % (x[0], x[1])
        elif op == "cpy":
            b[a] = b[x[0]]
        elif op == "mov":
            t0 = b[x[0]]
            b[x[0]] = ""
            b[a] = t0
        elif op in ("app", "appp"):
            b[a] += x[0]
        elif op == "appf":
            b[a] += "%d:%s}" % (x[1], x[0])
        elif op == "line":
            b[a] += x[0] + "\n"
        elif op == "linef":
            b[a] += "%d:%s}\n" % (x[1], x[0])
        elif op == "apps":
            b[a] += b[x[0]]
        if op in ("bad", "badl"):
            if not t or not t[0].startswith("E:"):
                return ("badformat", "%s did not throw" % op)
        elif t[-1:] != ["ok"]:
            return (op, "%s reported %s" % (op, ev))
        if op == "read" and (unhex(t[0]) != b[a].encode() or t[1] != "1"):
            return ("read", "the builder reads %r, expected %r" % (unhex(t[0])[:200], b[a].encode()[:200]))
        if sum(map(len, b)) > CAP:
            return None
    final = evs[-1].split()
    for k in range(4):
        if unhex(final[k]) != b[k].encode():
            return ("final", "builder %d holds %r (%d bytes), expected %r (%d bytes) after %s" % (
                k, unhex(final[k])[-100:], len(unhex(final[k])), b[k].encode()[-100:], len(b[k].encode()), case[:300]))
    return None


def nontrivial(case, r):
    t = case.split()
    return sum(1 for x in t if x.startswith(("app", "line"))) >= 3 and "read" in t


def features(case, r, f):
    for op, a, x in parse(case):
        f[op] += 1
