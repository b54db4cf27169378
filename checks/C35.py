ID = "C35"
LEVEL = "exploration"
TECHNIQUE = "destruction event log of the observed objects against a model of the pointers, ASan/UBSan, allocation balance; recorded sizes and limits against sizeof"
RULE = ("a case is a history of 5-80 operations over five Ptrs to objects of the harness, or the table of sizes, or of limits; non-trivial: a history "
        "in which an object is created, shared and deleted, and the tables")
ASSUMPTIONS = ["a Ptr whose object was deleted through another Ptr is not dereferenced or deleted again", "limits of integer types"]
DRIVERS = {"misc": {"src": "misc.cpp"}}
WORKERS = {"quick": 48, "thorough": 160}
ENV = {"RT_LEAK": "1"}
NARG = {"new": 1, "asg": 1, "of": 1, "nul": 0, "drop": 0, "rst": 0, "rstn": 1, "dst": 0, "cc": 1, "mc": 1, "ca": 1, "ma": 1, "val": 0, "pass": 0, "obs": 0, "eq": 1}
OPS = [o for o in NARG for _ in range({"obs": 4, "ca": 3, "asg": 2, "new": 2, "ma": 2, "cc": 2}.get(o, 1))]


class Model:
    def __init__(self):
        self.h = [None] * 5
        self.live = set()

    def dangling(self, a):
        return self.h[a] is not None and self.h[a] not in self.live

    def ok(self, op, a, b):
        if op in ("rst", "rstn", "dst", "val", "obs"):
            return not self.dangling(a)
        if op == "eq":  # whatever they point to: addresses; a new object may have the address of a deleted one
            return not self.dangling(a) and not self.dangling(b)
        return op != "of" or b in self.live

    def apply(self, op, a, b):
        h, t = self.h, []
        if op in ("new", "asg", "rstn"):
            if op == "rstn" and h[a] is not None:
                self.live.discard(h[a])
                t = ["D%d" % h[a]]
            self.live.add(b)
            h[a] = b
            return ["ok"] + t
        if op == "of":
            h[a] = b
        elif op in ("nul", "drop"):
            h[a] = None
        elif op in ("rst", "dst"):
            if h[a] is not None:
                self.live.discard(h[a])
                t = ["D%d" % h[a]]
            h[a] = None
            return ["ok"] + t
        elif op in ("cc", "ca"):
            h[a] = h[b]
        elif op in ("mc", "ma"):
            h[a] = h[b]
        elif op == "val":
            return [str(-1 if h[a] is None else h[a]), "ok"]
        elif op == "obs":
            n = h[a]
            return ["1", "0", "-1", "R", "R", "ok"] if n is None else ["0", "1", str(n), str(n), str(n), "ok"]
        elif op == "eq":
            return ["1", "0", "ok"] if h[a] == h[b] else ["0", "1", "ok"]
        return ["ok"]


def history(rng):
    m, ops, serial = Model(), [], 0
    for _ in range(rng.randrange(5, 81)):
        for _ in range(50):
            op, a = rng.choice(OPS), rng.randrange(5)
            if op in ("new", "asg", "rstn"):
                b = serial
            elif op == "of":
                b = rng.choice(sorted(m.live)) if m.live else -1
            else:
                b = rng.randrange(5)
            if m.ok(op, a, b):
                break
        else:
            continue
        if op in ("new", "asg", "rstn"):
            serial += 1
        m.apply(op, a, b)
        ops += [op, str(a)] + ([str(b)] if NARG[op] else [])
    return "p " + " ".join(ops)


def batches(rng, idx, tier):
    yield "misc", ["s", "l"] + [history(rng) for _ in range(1500)]


def judge(case, line):
    if case == "s":
        for g in line.split(";"):
            v = list(map(int, g.split()))
            if not v:
                continue
            n = v[0]
            want = {7: [n, n, 8 * n, n, n, n, 8 * n], 3: [n, n, 8 * n]}[len(v)]
            if v != want:
                return ("size", "type of %d bytes: SizeOf gives %s instead of %s" % (n, v[1:], want[1:]))
        return None
    if case == "l":
        for g in line.split(";"):
            v = list(map(int, g.split()))
            if not v:
                continue
            n, signed, boolean = v[:3]
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, 1 if boolean else (1 << (8 * n)) - 1)
            if v[3:] != [lo, hi, lo, hi]:
                return ("limits", "type of %d bytes (signed: %d): MinValue, MaxValue, ValueRange give %s instead of %s" % (n, signed, v[3:], [lo, hi, lo, hi]))
        return None
    m, t, want, ops = Model(), case.split()[1:], [], []
    i = 0
    while i < len(t):
        op, a = t[i], int(t[i + 1])
        b = int(t[i + 2]) if NARG[op] else None
        want.append(" ".join(m.apply(op, a, b)))
        ops.append(" ".join(t[i:i + 2 + NARG[op]]))
        i += 2 + NARG[op]
    want += ["", " ".join("D%d" % n for n in sorted(m.live))]
    got = [g.strip() for g in line.split(";")][:-1]
    for k, (w, g) in enumerate(zip(want, got)):
        if w != g:
            return ("ptr:" + (ops[k].split()[0] if k < len(ops) else "end"), "after %s: expected [%s], observed [%s]; history: %s" % (
                ops[k] if k < len(ops) else "the end of the history", w, g, " / ".join(ops[:k + 1])[-900:]))
    if len(want) != len(got):
        return ("ptr:count", "recorded %d results for %d operations" % (len(got), len(want)))
    return None


def nontrivial(case, r):
    return case in ("s", "l") or (" new " in case or " asg " in case) and (" ca " in case or " cc " in case) and r[0] == "ok" and " D" in r[1]


def features(case, r, f):
    if case.startswith("p"):
        t = case.split()
        f["histories"] += 1
        f["operations"] += len(t) // 2
        if r[0] == "ok":
            f["objects deleted through a Ptr"] += r[1].rsplit(";", 2)[0].count("D")
            f["null dereferences"] += r[1].count("R") // 2
