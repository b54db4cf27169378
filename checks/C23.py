import jsonref as J
import C21
ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "whole trees recorded after every operation of generated histories against a tree model, ASan/UBSan, allocation balance"
RULE = ("a case is a history of 4-60 operations (reads, writes through paths, appends, conversions, copies, moves, swaps, document operations) over four values "
        "and two documents; after every operation all six are read back completely; non-trivial: at least 5 operations of which one copies, moves or converts")
ASSUMPTIONS = ["a moved-from value may hold anything: the workload sets it to null", "a value is not moved into its own part",
               "integers stored are within the signed 64-bit range", "text contains no NUL"]
DRIVERS = {"json": {"src": "json.cpp"}}
WORKERS = {"quick": 64, "thorough": 600}
ENV = {"RT_LEAK": "1"}


class N:
    __slots__ = ("k", "v")

    def __init__(self, k="n", v=None):
        self.k, self.v = k, v

    def take(self, o):
        self.k, self.v = o.k, o.v

    def copy(self):
        if self.k == "a":
            return N("a", [x.copy() for x in self.v])
        if self.k == "o":
            return N("o", {k: x.copy() for k, x in self.v.items()})
        return N(self.k, self.v)

    def tup(self):
        if self.k == "a":
            return ("a", [x.tup() for x in self.v])
        if self.k == "o":
            return ("o", [(k, x.tup()) for k, x in self.v.items()])
        return ("n",) if self.k == "n" else (self.k, self.v)

    def size(self):
        return 1 + sum(x.size() for x in (self.v if self.k == "a" else self.v.values() if self.k == "o" else ()))

    def depth(self):
        return 1 + max([x.depth() for x in (self.v if self.k == "a" else self.v.values() if self.k == "o" else ())] or [0])

    def contains(self, o):
        return self is o or any(x.contains(o) for x in (self.v if self.k == "a" else self.v.values() if self.k == "o" else ()))


def from_tup(t):
    if t[0] == "a":
        return N("a", [from_tup(x) for x in t[1]])
    if t[0] == "o":
        return N("o", {k: from_tup(x) for k, x in t[1]})
    return N(t[0], t[1] if len(t) > 1 else None)


MK = ("a", [("i", 1), ("s", "two"), ("d", 0x40200000), ("b", False), ("a", []), ("n",)])
RAW = [("s", "raw"), ("i", 1), ("b", True), ("d", 0x3f000000)]


def un(x):
    return bytes.fromhex(x[1:]).decode()


class Rd:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def num(self):
        return int(self.nx())

    def path(self):
        s = self.num()
        el = []
        for _ in range(self.num()):
            c = self.nx()
            el.append((c, un(self.nx()) if c in "kK" else self.num()))
        return s, el

    def value(self):
        t = self.nx()
        if t in ("nul", "mn", "dft"):
            return N()
        if t == "ma":
            return N("a", [])
        if t == "mo":
            return N("o", {})
        if t == "mk":
            return from_tup(MK)
        a = self.nx()
        if t in ("bt", "mb"):
            return N("b", a == "1")
        if t in ("f", "mf", "dbl"):
            return N("d", int(a))
        if t in ("cs", "ss", "ms"):
            return N("s", un(a))
        if t == "pj":
            return from_tup(J.parse(un(a)))
        return N("i", int(a))


class World:
    def __init__(self):
        self.s = [N() for _ in range(4)]
        self.d = [N("o", {}), N("o", {})]
        self.err = [False, False]

    def root(self, s):
        return self.s[s] if s < 4 else self.d[s - 4]

    def at(self, path):
        s, el = path
        x = self.root(s)
        for c, k in el:
            if c in "kK":
                if x.k != "o":
                    x.k, x.v = "o", {}
                x = x.v.setdefault(k, N())
            else:
                if x.k != "a":
                    x.k, x.v = "a", []
                while len(x.v) <= k:
                    x.v.append(N())
                x = x.v[k]
        return x

    def cat(self, path):
        """None if the path does not exist."""
        s, el = path
        x = self.root(s)
        for c, k in el:
            if c in "kK":
                if x.k != "o" or k not in x.v:
                    return None
                x = x.v[k]
            else:
                if x.k != "a" or k >= len(x.v):
                    return None
                x = x.v[k]
        return x

    def copyroots(self):
        w = World()
        w.s = [x.copy() for x in self.s]
        w.d = [x.copy() for x in self.d]
        w.err = list(self.err)
        return w

    def size(self):
        return sum(x.size() for x in self.s + self.d)

    def apply(self, r):
        """Executes one operation; returns (expected tokens or a function that judges them, whether it is in the workload)."""
        op = r.nx()
        if op in ("set", "cst"):
            p = r.path()
            v = r.value()
            self.at(p).take(v)
            return []
        if op in ("arr", "app"):
            p = r.path()
            vs = [r.value() for _ in range(r.num())]
            x = self.at(p)
            if op == "arr" or x.k != "a":
                x.k, x.v = "a", []
            x.v.extend(vs)
            return []
        if op == "apr":
            x = self.at(r.path())
            if x.k != "a":
                x.k, x.v = "a", []
            x.v.extend(from_tup(t) for t in RAW)
            return []
        if op == "apn":
            p, q = r.path(), r.path()
            src = self.cat(q)
            if src is None:
                return None
            x = self.at(p)
            if self.cat(q) is not src:
                return None
            c = src.copy()
            if x.k != "a":
                x.k, x.v = "a", []
            x.v.append(c)
            return []
        if op == "cpa":
            p, q = r.path(), r.path()
            src = self.cat(q)
            if src is None:
                return None
            x = self.at(p)
            if self.cat(q) is not src:
                return None
            x.take(src.copy())
            return ["1"]
        if op == "mva":
            p, q = r.path(), r.path()
            reset = r.num()
            src = self.at(q)
            x = self.at(p)
            if self.cat(q) is not src:
                return None
            if x is src:
                return ["1"] if not reset else None
            if src.contains(x):
                return None
            inside = x.contains(src)
            if inside and reset:
                return None
            if not inside and not reset:
                return None
            x.take(N(src.k, src.v))
            if reset:
                src.k, src.v = "n", None
            return ["1"]
        if op == "cpc":
            k, q = r.num(), r.path()
            src = self.cat(q)
            if src is None:
                return None
            self.s[k] = src.copy()
            return []
        if op == "mvc":
            k, q = r.num(), r.path()
            src = self.at(q)
            n = N(src.k, src.v)
            src.k, src.v = "n", None
            self.s[k] = n
            return []
        if op == "swp":
            p, q = r.path(), r.path()
            a = self.at(p)
            b = self.at(q)
            if self.cat(p) is not a or (a is not b and (a.contains(b) or b.contains(a))):
                return None
            a.k, a.v, b.k, b.v = b.k, b.v, a.k, a.v
            return []
        if op == "tch":
            self.at(r.path())
            return []
        if op == "get":
            x = self.cat(r.path())
            if x is None:
                return ["E:out_of_range"]
            sz = str(len(x.v)) if x.k in "ao" else "-1"
            return [x.k] + [str(int(x.k == c)) for c in "noasdib"] + [sz, sz, "x" + (x.v.encode().hex() if x.k == "s" else ""),
                                                                     str(x.v) if x.k == "i" else "0", str(int(x.k == "b" and x.v)), str(x.v) if x.k == "d" else "0"]
        if op == "has":
            x = self.cat(r.path())
            k = un(r.nx())
            return ["E:out_of_range"] if x is None else [str(int(x.k == "o" and k in x.v))]
        if op == "gd":
            x = self.cat(r.path())
            return ["E:out_of_range"] if x is None else ["E:logic_error"] if x.k != "o" else [str(len(x.v))]
        if op == "ts":
            x = self.cat(r.path())
            r.num()
            r.num()
            if x is None:
                return ["E:out_of_range"]
            return x.tup()
        if op == "dadd":
            k, key, q = r.num(), un(r.nx()), r.path()
            src = self.cat(q)
            if src is None:
                return None
            root = self.d[k]
            # a null document (failed parse) becomes an object; nothing inside it can be the source then
            if root.k != "o":
                root.k, root.v = "o", {}
            c = src.copy()
            root.v.setdefault(key, N()).take(c)
            return []
        if op == "drem":
            k, key = r.num(), un(r.nx())
            if self.d[k].k == "o":
                self.d[k].v.pop(key, None)
            return []
        if op in ("dcpa", "dcpc"):
            k, q = r.num(), r.num()
            if op == "dcpc":
                r.num()
            self.d[k], self.err[k] = self.d[q].copy(), self.err[q]
            return []
        if op == "dmva":
            k, q = r.num(), r.num()
            if k != q:
                self.d[k], self.err[k] = self.d[q], self.err[q]
                self.d[q], self.err[q] = N("o", {}), False
            return []
        if op == "dmvc":
            k, q = r.num(), r.num()
            r.num()
            n, e = self.d[q], self.err[q]
            self.d[q], self.err[q] = N("o", {}), False
            self.d[k], self.err[k] = n, e
            return []
        if op == "dpar":
            k, t = r.num(), un(r.nx())
            try:
                self.d[k], self.err[k] = from_tup(J.parse(t)), False
            except J.Bad:
                self.d[k], self.err[k] = N(), True
            return []
        raise AssertionError(op)


OPS = ["set"] * 10 + ["cst"] * 4 + ["arr"] * 3 + ["app"] * 4 + ["apr", "apn", "apn"] + ["cpa"] * 5 + ["mva"] * 4 + ["cpc"] * 2 + ["mvc"] * 2 + ["swp"] * 2 + \
      ["tch"] + ["get"] * 4 + ["has"] * 2 + ["gd"] + ["ts"] * 2 + ["dadd"] * 3 + ["drem"] * 3 + ["dcpa", "dcpc", "dmva", "dmvc"] + ["dpar"] * 2


def gen_path(rng, w, keys, exist=None):
    """A path that mostly follows existing structure."""
    s = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 4, 5])
    x = w.root(s)
    el = []
    need = s >= 4
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if need:
        n = max(n, 1)
    for j in range(n):
        follow = x is not None and x.k in "ao" and rng.random() < 0.9
        usek = (x.k == "o") if follow else rng.random() < 0.5
        if need and j == 0:
            usek = True
        if usek:
            k = rng.choice(list(x.v)) if follow and x.k == "o" and x.v and rng.random() < (0.75 if exist is None else exist) else rng.choice(keys)
            el.append((rng.choice("kkK"), k))
            x = x.v.get(k) if x is not None and x.k == "o" else None
        else:
            m = len(x.v) if x is not None and x.k == "a" else 0
            k = rng.randrange(m) if m and rng.random() < (0.8 if exist is None else exist) else m + rng.choice([0, 0, 0, 1, 3])
            el.append((rng.choice("iiI"), k))
            x = x.v[k] if x is not None and x.k == "a" and k < m else None
    return "%d %d" % (s, len(el)) + "".join(" %s %s" % (c, "x" + k.encode().hex() if c in "kK" else k) for c, k in el)


def gen_value(rng):
    k = rng.random()
    if k < 0.07:
        return rng.choice(["mk", "mo", "ma"])
    if k < 0.17:
        return "pj x" + J.write(rng, ("o", [(J.gstr(rng)[:3], J.gval(rng, 4, 2)) for _ in range(rng.randrange(3))])).encode().hex()
    while True:
        v = J.gval(rng, 1, 0)
        if v[0] == "d" and rng.random() < 0.05:
            v = ("d", rng.choice([0x7f800000, 0xff800000]))
        if v[0] == "s" and len(v[1]) > 30:
            v = ("s", v[1][:30])
        t = C21.val(rng, v)
        if t:
            return t


def gen_op(rng, w, keys):
    op = rng.choice(OPS)
    P = lambda e=None: gen_path(rng, w, keys, e)
    if op in ("set", "cst"):
        return "%s %s %s" % (op, P(), gen_value(rng))
    if op in ("arr", "app"):
        n = rng.randrange(1, 4)
        return "%s %s %d %s" % (op, P(), n, " ".join(gen_value(rng) for _ in range(n)))
    if op in ("apr", "tch"):
        return op + " " + P()
    if op in ("apn", "cpa", "swp", "mva"):
        p = P()
        q = P(0.97)
        if rng.random() < 0.35 and int(p[0]) < 4:
            # a source inside the destination, or the destination inside the source
            s = w.s[int(p[0])]
            paths = []

            def walk(x, pre):
                paths.append(pre)
                if x.k == "a":
                    for i, y in enumerate(x.v):
                        walk(y, pre + [("i", i)])
                elif x.k == "o":
                    for k, y in x.v.items():
                        walk(y, pre + [("k", k)])
            walk(s, [])
            a = rng.choice(paths)
            b = rng.choice([z for z in paths if z[:len(a)] == a])
            if rng.random() < 0.3 and op != "mva":
                a, b = b, a
            fmt = lambda el: "%s %d" % (p[0], len(el)) + "".join(" %s %s" % (c, "x" + k.encode().hex() if c == "k" else k) for c, k in el)
            p, q = fmt(a), fmt(b)
        return "%s %s %s" % (op, p, q) + ("" if op != "mva" else " %d" % rng.randrange(2))
    if op in ("cpc", "mvc"):
        return "%s %d %s" % (op, rng.randrange(4), P(0.97))
    if op in ("get", "gd"):
        return op + " " + P(0.85)
    if op == "has":
        return "has %s x%s" % (P(0.95), rng.choice(keys).encode().hex())
    if op == "ts":
        return "ts %s %d %d" % (P(0.95), rng.randrange(2), rng.choice([0, 1, 2, 2, 4]))
    k, q = rng.randrange(2), rng.randrange(2)
    if op == "dadd":
        return "dadd %d x%s %s" % (k, rng.choice(keys).encode().hex(), P(0.97))
    if op == "drem":
        ks = list(w.d[k].v) if w.d[k].k == "o" and w.d[k].v and rng.random() < 0.8 else keys
        return "drem %d x%s" % (k, rng.choice(ks).encode().hex())
    if op in ("dcpa", "dmva"):
        return "%s %d %d" % (op, k, q)
    if op in ("dcpc", "dmvc"):
        return "%s %d %d %d" % (op, k, q, rng.randrange(2))
    t = J.write(rng, ("o", [(rng.choice(keys), J.gval(rng, 4, 2)) for _ in range(rng.randrange(4))]))
    if rng.random() < 0.3:
        t = t[:-rng.randrange(1, 4)] + rng.choice(["", "x", "}"])
    return "dpar %d x%s" % (k, t.encode().hex())


def wide(rng):
    """Keys and operations that set up an object or array of many members, at once or one by one."""
    n = rng.choice([17, 33, 65, 66, 90, 129, 200, 257, 300])
    keys = ["%s%d" % (rng.choice(["m", "", "é", "a long key that is not stored inline "]), i) for i in range(n)]
    rng.shuffle(keys)
    k = rng.random()
    if k < 0.3:
        t = J.write(rng, ("o", [(x, ("i", i)) for i, x in enumerate(keys)]))
        return keys, [rng.choice(["set 0 0 pj x", "set 1 1 k x61 pj x", "dpar 0 x"]) + t.encode().hex()]
    if k < 0.5:
        return keys, ["set 0 0 pj x" + J.write(rng, ("o", [("m", ("a", [("i", i) for i in range(n)]))])).encode().hex()]
    keys = keys[:90]
    s = rng.choice([0, 4])
    if k < 0.85 or s:
        return keys, ["set %d 1 k x%s i64 %d" % (s, x.encode().hex(), i) for i, x in enumerate(keys)]
    return keys, ["set 0 1 i %d i64 %d" % (i, i) for i in range(len(keys))]


def gen(rng):
    keys = ["a", "b", "k" * rng.randrange(1, 30), rng.choice(["é", "", "\U0001f600x", 'q"\\', "0"]), J.gstr(rng)[:5]]
    first, limit, ops = [], 150, rng.choice([4, 10, 20, 40, 60])
    if rng.random() < 0.04:
        keys, first = wide(rng)
        limit, ops = 900, rng.choice([4, 10, 16])
    keys = list(dict.fromkeys(keys))
    w = World()
    out = ["h", str(len(keys))] + ["x" + k.encode().hex() for k in keys]
    for n in range(len(first) + ops):
        s = first[n] if n < len(first) else gen_op(rng, w, keys)
        t = w.copyroots()
        r = Rd(s.split())
        if t.apply(r) is None:
            continue
        assert r.i == len(r.t), s
        if t.size() > limit or max(x.depth() for x in t.s + t.d) > 60:
            continue
        w = t
        out.append(s)
    return " ".join(out)


def batches(rng, idx, tier):
    yield "json", [gen(rng) for _ in range(160)]


def judge(case, line):
    r = Rd(case.split())
    r.nx()
    keys = [un(r.nx()) for _ in range(r.num())]
    w = World()
    t = line.split()
    i = 0
    step = 0
    while r.i < len(r.t):
        i0 = r.i
        want = w.apply(r)
        step += 1
        op = " ".join(r.t[i0:r.i])
        where = "operation %d (%s) of %s" % (step, op[:300], case[:1200])
        j = t.index("|", i)
        got = t[i:j]
        name = op.split()[0]
        if isinstance(want, tuple):
            if len(got) != 1 or got[0][0] != "x":
                return ("ts", "ToString gave %s at %s" % (got[:3], where))
            text = bytes.fromhex(got[0][1:]).decode("utf-8", "surrogateescape")
            try:
                v = J.parse(text, root_object=False, depth_limit=None)
            except J.Bad as e:
                return ("ts", "ToString is not JSON (%s): %r at %s" % (e, text[:200], where))
            if J.tokens(v) != J.tokens(J.canon(want)):
                return ("ts", "ToString reads as another value: %r at %s" % (text[:300], where))
        elif got != want:
            return (name, "recorded %s, expected %s at %s" % (got[:20], want[:20], where))
        i = j + 1
        for k, x in enumerate(w.s):
            e = J.tokens(x.tup())
            if t[i:i + len(e)] != e:
                return (name + ":value", "value %d is %s, expected %s after %s" % (k, t[i:i + len(e)][:60], e[:60], where))
            i += len(e)
        for k, x in enumerate(w.d):
            e = ["D", x.k, str(int(w.err[k])), str(len(x.v)) if x.k == "o" else "-1"]
            for key in keys:
                e += ["1"] + J.tokens(x.v[key].tup()) if x.k == "o" and key in x.v else ["0"]
            if t[i:i + len(e)] != e:
                return (name + ":document", "document %d is %s, expected %s after %s" % (k, t[i:i + len(e)][:60], e[:60], where))
            i += len(e)
            text = bytes.fromhex(t[i][1:]).decode("utf-8", "surrogateescape")
            try:
                v = J.parse(text, root_object=False, depth_limit=None)
            except J.Bad as e2:
                return (name + ":document text", "document %d serializes to %r (%s) after %s" % (k, text[:200], e2, where))
            if J.tokens(v) != J.tokens(J.canon(x.tup())):
                return (name + ":document text", "document %d serializes to %r after %s" % (k, text[:300], where))
            i += 1
        if t[i] != ";":
            return ("driver", "out of step: %s at %s" % (t[i:i + 5], where))
        i += 1
    return None


def nontrivial(case, r):
    c = " %s " % case
    return sum(c.count(" %s " % o) for o in set(OPS)) >= 5 and any(" %s " % o in c for o in ("cpa", "mva", "cpc", "mvc", "swp", "apn", "dcpa", "dmva"))


def features(case, r, f):
    for x in case.split():
        if x in ALL:
            f[x] += 1


ALL = set(OPS)
