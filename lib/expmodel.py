"""Workload and model of Expected histories, shared by C17 and C18."""
GROUPS = [["NN", "TT", "MN"], ["NT", "CN", "UG"], ["NC", "SS", "NM"], ["iN", "Ni", "ii"], ["GG", "iG"]]
DRIVERS = {"exp%d" % g: {"src": "expected.cpp", "extra": ("-DGROUP=%d" % g,), "name": "exp%d" % g} for g in range(len(GROUPS))}
NARG = {"newvc": 1, "newec": 1, "mkerr": 1, "cpy": 1, "asg": 1, "map": 1, "mapl": 1, "maps": 1, "mape": 1, "mapes": 1, "and": 2, "then": 2,
        "or": 2, "catch": 2, "andset": 2, "orset": 2, "onerr": 0, "filter": 1, "unwrap": 1, "unwrapd": 0, "unwrapdv": 1, "unwrape": 1,
        "newv": 1, "newe": 1, "mkval": 1, "mov": 1, "masg": 1, "setv": 1, "sete": 1, "obs": 0, "expect": 0, "expecte": 0, "fold": 1,
        "inspect": 1, "custom": 0}
ANY = ["newv", "newe", "mkval", "mov", "mov", "masg", "masg", "masg", "setv", "setv", "sete", "sete", "obs", "obs", "obs", "expect",
       "expecte", "fold", "inspect", "custom"]
COPY = ["newvc", "newec", "mkerr", "cpy", "cpy", "asg", "asg", "asg", "asg", "map", "mapl", "maps", "mape", "mapes", "and", "then", "or",
        "catch", "andset", "andset", "orset", "orset", "onerr", "filter", "unwrap", "unwrapd", "unwrapdv", "unwrape"]
WRITES = ["setv", "sete", "asg", "masg", "mov", "cpy", "andset", "orset", "newvc", "newec", "map", "and", "or", "filter", "unwrap", "mape"]


def copyable(k):
    return not (set(k) & set("MU"))


def gen(rng, faults):
    g = rng.randrange(len(GROUPS))
    k = rng.choice(GROUPS[g])
    ops = ANY + COPY if copyable(k) else ANY
    out = [k]
    for _ in range(rng.choice([6, 15, 30, 60])):
        op = rng.choice(ops)
        if rng.random() < faults:
            op = rng.choice([w for w in WRITES if w in ops])
            out += ["fuse", str(rng.randrange(2)), str(rng.choice([1, 1, 1, 2, 2, 3, 4])), str(rng.randrange(4))]
        out += [op, str(rng.randrange(4))]
        if op in ("cpy", "asg", "mov", "masg"):
            out.append(out[-1] if rng.random() < 0.12 else str(rng.randrange(4)))
        elif op == "filter":
            out.append(str(rng.randrange(2)))
        elif NARG[op] == 2:
            out += [str(rng.randrange(1, 1000)), str(rng.randrange(2))]
        elif NARG[op] == 1:
            out.append(str(rng.randrange(1, 1000)))
    return "exp%d" % g, " ".join(out)


def parse(case):
    t = case.split()
    i = 1
    rec = None
    while i < len(t):
        if t[i] == "fuse":
            rec = int(t[i + 3])
            i += 4
            continue
        n = NARG[t[i]]
        yield t[i], [int(x) for x in t[i + 1:i + 2 + n]], rec
        rec = None
        i += 2 + n


def run(case, line):
    """Yields (operation, arguments, expected tokens, recorded tokens); None in the expectation matches anything."""
    kinds = case.split()[0]
    moved = {"N": lambda v: -1, "T": lambda v: -1, "M": lambda v: -1, "S": lambda v: -1, "C": lambda v: v, "i": lambda v: v,
             "G": lambda v: None, "U": lambda v: -1}
    default = {"G": -1}
    h = [("v", 0)] * 4
    evs = line.split(" ;")
    for (op, a, rec), ev in zip(parse(case), evs):
        t = ev.split()
        boom = t == ["BOOM"]
        k, x = a[0], a[1:]
        s, p = h[k]

        def steal(j):
            st, pv = h[j]
            h[j] = (st, moved[kinds[0 if st == "v" else 1]](pv) if pv is not None else None)

        def add(v, d):
            return None if v is None else v + d

        def obs(e):
            return (["1", "0", "1", e[1], "L"] if e[0] == "v" else ["0", "1", "0", "L", e[1]])
        RECOVER = [("v", 0), ("v", 1), ("e", 2), ("e", 3)]
        if boom:
            if rec is None:
                yield op, a, ["ok"], t
                return
            if op in ("mov", "masg"):
                h[x[0]] = RECOVER[rec]
            if op in ("mov", "masg", "setv", "sete", "asg", "andset", "orset"):
                h[k] = RECOVER[rec]
            continue
        want = []
        called = [1, p]
        no = [0, 0]
        if op in ("newv", "newvc", "mkval", "setv"):
            h[k] = ("v", x[0])
        elif op in ("newe", "newec", "mkerr", "sete"):
            h[k] = ("e", x[0])
        elif op in ("cpy", "asg"):
            h[k] = h[x[0]]
        elif op in ("mov", "masg"):
            if k != x[0]:
                e = h[x[0]]
                steal(x[0])
                h[k] = e
        elif op == "obs":
            want = obs((s, p))
        elif op in ("map", "maps"):
            want = obs(("v", add(p, x[0]))) + called if s == "v" else obs((s, p)) + no
        elif op == "mapl":
            want = [1, None if p is None else p * 3 + x[0]] + called if s == "v" else [0, p] + no
        elif op in ("mape", "mapes"):
            want = obs(("e", add(p, x[0]))) + called if s == "e" else obs((s, p)) + no
        elif op in ("and", "then"):
            want = obs(("v" if x[1] else "e", add(p, x[0]))) + called if s == "v" else obs((s, p)) + no
        elif op in ("or", "catch"):
            want = obs(("v" if x[1] else "e", add(p, x[0]))) + called if s == "e" else obs((s, p)) + no
        elif op in ("andset", "orset"):
            if s == ("v" if op == "andset" else "e"):
                h[k] = ("v" if x[1] else "e", add(p, x[0]))
                want = called
            else:
                want = no
        elif op == "onerr":
            want = obs((s, p)) + (called if s == "e" else no)
        elif op == "filter":
            if s == "v":
                want = obs((s, p) if x[0] else ("e", default.get(kinds[1], 0))) + called
            else:
                want = obs((s, p)) + no
        elif op in ("unwrap", "unwrapdv"):
            want = [p if s == "v" else x[0]]
        elif op == "unwrapd":
            want = [p if s == "v" else default.get(kinds[0], 0)]
        elif op == "unwrape":
            want = [p] + no if s == "v" else [x[0]] + called
        elif op == "expect":
            want = [p if s == "v" else "R"]
        elif op == "expecte":
            want = [p if s == "e" else "R"]
        elif op == "fold":
            want = [None if p is None else x[0] * 7 + p] + called if s == "v" else [x[0]] + no
        elif op == "inspect":
            want = [None if p is None else p + x[0] if s == "v" else p - x[0]] + called
        elif op == "custom":
            want = [5 if s == "v" else 6, 1, 1 if s == "v" else 0]
        want = [None if w is None else str(w) for w in want] + ["ok"]
        yield op, a, want, t
