import copy
ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "destruction event log of tracked objects against an ownership model, ASan/UBSan, allocation balance"
RULE = ("a case is a history of 8-120 operations over five SharedPtrs, three WeakPtrs and three UniquePtrs to objects that themselves "
        "hold pointers (chains, shared tails); non-trivial: at least 3 objects and one sharing or transfer of ownership")
ASSUMPTIONS = ["cycles of owners are not built", "an expired WeakPtr is not compared"]
DRIVERS = {"ptr": {"src": "ptr.cpp"}}
WORKERS = {"quick": 64, "thorough": 320}
ENV = {"RT_LEAK": "1"}
NARG = {"new": 1, "asgraw": 1, "asgnull": 0, "reset": 0, "resetn": 1, "resets": 0, "cc": 1, "mc": 1, "ca": 1, "ma": 1, "swap": 1, "link": 1,
        "adv": 0, "advm": 0, "val": 0, "pass": 0, "obs": 0, "eq": 1, "wset": 1, "wnew": 1, "wclr": 0, "wcc": 1, "wca": 1, "wmc": 1, "wma": 1,
        "many": 1, "manyx": 1, "wmany": 1, "wlock": 1, "wobs": 0, "unew": 1, "uasg": 1, "ureset": 0, "uresetn": 1, "uresets": 0, "urel": 0, "umc": 1, "uma": 1, "uswap": 1,
        "ulink": 1, "uadv": 0, "uobs": 0, "ueq": 1, "arm": 1, "uarm": 1}
W = {"ca": 4, "ma": 4, "obs": 5, "new": 4, "link": 5, "adv": 3, "advm": 2, "wobs": 4, "wset": 3, "wlock": 3, "unew": 3, "ulink": 3, "uobs": 3, "uadv": 2,
     "uma": 3, "cc": 3, "mc": 2, "arm": 3, "uarm": 3}
OPS = [o for o in NARG for _ in range(W.get(o, 1))]


class Model:
    def __init__(self):
        self.h = [None] * 5
        self.w = [None] * 3
        self.u = [None] * 3
        self.next = {}   # shared node -> node or None
        self.unext = {}
        self.dead = []
        self.arm = {}    # shared node -> (kind, slot): what its destructor does
        self.uarm = {}
        self.dying = set()

    def owners(self, n):
        return sum(x == n for x in self.h) + sum(x == n for x in self.next.values())

    def sweep(self, n):
        if n is None or n not in self.next or n in self.dying or self.owners(n):
            return
        self.dying.add(n)
        self.dead.append("D%d" % n)
        if n in self.arm:
            kind, s = self.arm.pop(n)
            if kind == "p":
                self.dead.append("DP%d:%d" % (s, -1 if self.h[s] is None else self.h[s]))
            elif kind == "l":
                self.dead.append("DL%d:%d" % (s, self.w[s] if self.alive(self.w[s]) else -1))
            else:
                t, self.h[s] = self.h[s], None
                self.sweep(t)
        t = self.next.pop(n)
        self.dying.discard(n)
        self.sweep(t)

    def ukill(self, n):
        while n is not None:
            self.dead.append("D%d" % n)
            if n in self.uarm:
                kind, s = self.uarm.pop(n)
                if kind == "p":
                    self.dead.append("DP%d:%d" % (s, -1 if self.u[s] is None else self.u[s]))
                else:
                    t, self.u[s] = self.u[s], None
                    self.ukill(t)
            n = self.unext.pop(n)

    def reaches(self, a, b, nx):
        while a is not None:
            if a == b:
                return True
            a = nx[a]
        return False

    def ok(self, op, a, b):
        """Whether the operation is in the workload in this state."""
        if op == "link":
            return self.h[a] is not None and not self.reaches(self.h[b], self.h[a], self.next)
        if op in ("adv", "advm"):
            return self.h[a] is not None
        if op == "ulink":
            return a != b and self.u[a] is not None
        if op in ("uadv", "uarm"):
            return self.u[a] is not None
        if op == "arm":
            return self.h[a] is not None
        return True

    def container_dies(self, op, a, b):
        """Whether the assigned pointer is destroyed by the destructors that the assignment runs."""
        if op not in ("link", "ulink") or not (self.arm or self.uarm):
            return False
        m = copy.deepcopy(self)
        m.apply(op, a, b)
        return "D%d" % (self.h if op == "link" else self.u)[a] in m.dead

    def alive(self, n):
        return n is not None and n in self.next and n not in self.dying

    def apply(self, op, a, b):
        """Returns the expected tokens."""
        h, w, u = self.h, self.w, self.u
        self.dead = []
        t = []

        def seth(i, n):
            old = h[i]
            h[i] = n
            self.sweep(old)

        def sid(n):
            return "-1" if n is None else str(n)
        if op in ("new", "asgraw", "resetn"):
            self.next[b] = None
            seth(a, b)
        elif op in ("asgnull", "reset"):
            seth(a, None)
        elif op in ("cc", "ca"):
            seth(a, h[b])
        elif op in ("mc", "ma"):
            if a != b:
                n = h[b]
                h[b] = None
                seth(a, n)
        elif op == "swap":
            h[a], h[b] = h[b], h[a]
        elif op == "link":
            old = self.next[h[a]]
            self.next[h[a]] = h[b]
            self.sweep(old)
        elif op == "adv":
            seth(a, self.next[h[a]])
        elif op == "advm":
            n = self.next[h[a]]
            self.next[h[a]] = None
            old = h[a]
            h[a] = n
            self.sweep(old)
        elif op in ("val", "pass"):
            t = [sid(h[a])]
        elif op == "obs":
            n = h[a]
            t = [sid(n), str(int(n is None)), str(int(n is not None))] + ([sid(n)] * 2 if n is not None else ["R", "R"])
        elif op == "eq":
            t = [str(int(h[a] == h[b])), str(int(h[a] != h[b]))]
        elif op in ("many", "manyx"):
            n = h[a]
            if op == "manyx":
                seth(a, None)
            t = [str(b), "0", sid(n), "0", sid(n), str(len(self.dead))]
        elif op == "wmany":
            t = [str(b if self.alive(w[a]) else 0), "0"]
        elif op in ("wset", "wnew"):
            w[a] = h[b]
        elif op == "wclr":
            w[a] = None
        elif op in ("wcc", "wca"):
            w[a] = w[b]
        elif op in ("wmc", "wma"):
            if a != b:
                w[a] = w[b]
                w[b] = None
        elif op == "wlock":
            n = w[a] if self.alive(w[a]) else None
            seth(b, n)
            t = [sid(h[b])]
        elif op == "wobs":
            n = w[a] if self.alive(w[a]) else None
            t = [str(int(n is None)), sid(n)] + ([sid(n)] * 2 if n is not None else ["R", "R"])
        elif op in ("unew", "uasg", "uresetn"):
            self.unext[b] = None
            n = u[a]
            u[a] = b
            self.ukill(n)
        elif op == "ureset":
            n, u[a] = u[a], None
            self.ukill(n)
        elif op == "urel":
            t = [sid(u[a]), "1", "0"]
            n, u[a] = u[a], None
            self.ukill(n)
        elif op == "arm":
            self.arm[h[a]] = ("prl"[b % 3], b // 3)
        elif op == "uarm":
            self.uarm[u[a]] = ("pr"[b % 2], b // 2)
        elif op in ("umc", "uma"):
            if a != b:
                n = u[a]
                u[a] = u[b]
                u[b] = None
                self.ukill(n)
        elif op == "uswap":
            u[a], u[b] = u[b], u[a]
        elif op == "ulink":
            n = self.unext[u[a]]
            self.unext[u[a]] = u[b]
            u[b] = None
            self.ukill(n)
        elif op == "uadv":
            n = u[a]
            u[a] = self.unext[n]
            self.unext[n] = None
            self.ukill(n)
        elif op == "uobs":
            n = u[a]
            t = [sid(n), str(int(n is None)), str(int(n is not None))] + ([sid(n)] * 2 if n is not None else ["R", "R"])
        elif op == "ueq":
            t = [str(int(u[a] == u[b])), str(int(u[a] != u[b]))]
        return t


def gen(rng):
    out = ["h"]
    m = Model()
    ident = 0
    ops = rng.choice([OPS, OPS, [o for o in OPS if o[0] != "u"], [o for o in OPS if o[0] == "u"], [o for o in OPS if o[0] not in "uw"]])
    span = rng.choice([2, 5])
    for _ in range(rng.choice([8, 20, 50, 120])):
        op = rng.choice(ops)
        na = 5 if op[0] not in "uw" else 3
        a = rng.randrange(min(span, na))
        b = None
        if NARG[op]:
            if op in ("new", "asgraw", "resetn", "unew", "uasg", "uresetn"):
                ident += 1
                b = ident
            elif op in ("many", "manyx", "wmany"):
                b = rng.choice([1, 2, 3, 9, 20] if rng.random() < 0.98 else [255, 256, 257, 1000] if rng.random() < 0.7 else [32768, 65534, 65535, 65536, 70001])
            elif op in ("arm", "uarm"):
                kind = rng.randrange(3 if op == "arm" else 2)
                b = rng.randrange(5 if op == "arm" and kind < 2 else 3) * (3 if op == "arm" else 2) + kind
            else:
                nb = 5 if op in ("wset", "wnew", "wlock") else na
                b = a if rng.random() < 0.1 and a < nb else rng.randrange(min(span, nb))
        if not m.ok(op, a, b) or m.container_dies(op, a, b):
            continue
        m.apply(op, a, b)
        out += [op, str(a)] + ([str(b)] if b is not None else [])
    return " ".join(out)


def batches(rng, idx, tier):
    yield "ptr", [gen(rng) for _ in range(1500)]


def parse(case):
    t = case.split()[1:]
    i = 0
    while i < len(t):
        n = NARG[t[i]]
        yield t[i], int(t[i + 1]), int(t[i + 2]) if n else None
        i += 2 + n


def judge(case, line):
    m = Model()
    evs = (" " + line).split(" ;")[:-1]
    i = 0
    for op, a, b in parse(case):
        want = m.apply(op, a, b)
        t = evs[i].split()
        i += 1
        got = [x for x in t if x[0] != "D"]
        dead = [x for x in t if x[0] == "D"]
        if got != want + ["ok"]:
            return (op, "operation %d, %s %s %s, recorded %s, expected %s in %s" % (i, op, a, b, got, want, case[:600]))
        if sorted(dead) != sorted(m.dead):
            return (op + ":destroyed", "operation %d, %s %s %s, destroyed objects %s, expected %s in %s" % (i, op, a, b, dead, m.dead, case[:600]))
    for k in range(11):
        m.dead = []
        if k < 5:
            n = m.h[k]
            m.h[k] = None
            m.sweep(n)
        elif k >= 8:
            n, m.u[k - 8] = m.u[k - 8], None
            m.ukill(n)
        dead = evs[i].split()
        i += 1
        if sorted(dead) != sorted(m.dead):
            return ("final", "destroying pointer %d at the end destroyed %s, expected %s in %s" % (k, dead, m.dead, case[:600]))
    return None


def nontrivial(case, r):
    ops = [x[0] for x in parse(case)]
    return sum(o in ("new", "asgraw", "resetn", "unew", "uasg", "uresetn") for o in ops) >= 3 and any(
        o in ("cc", "ca", "mc", "ma", "link", "uma", "umc", "ulink", "wlock") for o in ops)


def features(case, r, f):
    for op, a, b in parse(case):
        f[op] += 1
    if r[0] == "ok":
        f["objects destroyed"] += r[1].count(" D")
        f["pointers looked at during a destruction"] += r[1].count(" DP") + r[1].count(" DL")
