"""Workload and model shared by C11 and C12: three File handles over two paths."""
import zlib
from gens import hx, unhex, huge, scalar, text

ARGS = {"ext": "pt", "open": "hp", "openf": "hp", "mk": "hp", "lit": "hp", "copy": "hh", "del": "h", "close": "h", "reopen": "h",
        "erase": "h", "rd": "h", "rl": "h", "rld": "hd", "sp": "ho", "gp": "h", "eof": "h"}
DELIMS = [10, 10, 44, 59, 97, 32, 9, 13]


def nput(kind):
    return 2 if kind == "f" else 1


def parse(case):
    t = case.split()
    i = 1 if t[0] == "h" else 2
    while i < len(t):
        op = t[i]
        if op == "put":
            n = 3 + nput(t[i + 3])
        else:
            n = len(ARGS[op])
        yield op, t[i + 1:i + 1 + n]
        i += 1 + n


def put_bytes(a):
    """a = [handle, method, kind, xhex, (int)]"""
    s = unhex(a[3])
    if a[2] == "f":
        s += b"|%d{}" % int(a[4])
    if a[1] in ("wl", "al"):
        s += b"\n"
    return s


class Handle:
    def __init__(self, path, pos=0):
        self.path, self.open, self.pos, self.eof = path, True, pos, False


class Model:
    """eof/pos None = unspecified until the next SetPosition."""

    def __init__(self, hole=0):
        """The first file starts with hole bytes that are not part of data; positions are relative to their end."""
        self.hole = hole
        self.data = [b"", b""]
        self.h = [None, None, None]

    def apply(self, op, a):
        """Returns the expected value list, or None where nothing is specified."""
        if op == "ext":
            self.data[int(a[0])] += unhex(a[1])
            return []
        k = int(a[0])
        if op in ("open", "openf", "mk", "lit"):
            self.h[k] = Handle(int(a[1]), 0 if a[1] != "0" else -self.hole)
            return []
        if op == "copy":
            p = self.h[int(a[1])].path
            self.h[k] = Handle(p, 0 if p else -self.hole)
            return []
        h = self.h[k]
        if op == "del":
            self.h[k] = None
            return []
        if op == "close":
            h.open = False
            if h.eof:
                h.eof = h.pos = None
            return []
        if op == "reopen":
            h.open = True
            if h.eof is not False:
                h.eof = h.pos = None
            return []
        if op == "erase":
            self.data[h.path] = b""
            h.open, h.pos, h.eof = True, 0, False
            for g in self.h:
                if g is not None and g is not h and g.path == h.path:
                    g.pos = g.eof = None
            return []
        if op == "put":
            self.data[h.path] += put_bytes(a)
            if h.eof or not h.open and h.eof is None:
                h.eof = h.pos = None
            h.open = True
            return []
        if op == "rd":
            if h.eof:
                h.eof = h.pos = None
            h.open = True
            return [self.data[h.path]]
        if op in ("rl", "rld"):
            d = bytes([int(a[1])]) if op == "rld" else b"\n"
            h.open = True
            if h.pos is None or h.eof is None:
                h.pos = h.eof = None
                return None
            if h.eof:
                return [b""]
            c = self.data[h.path]
            if h.pos > len(c):
                h.pos = h.eof = None
                return None
            e = c.find(d, h.pos)
            if e < 0:
                v = c[h.pos:]
                h.pos = len(c)
                h.eof = True
            else:
                v = c[h.pos:e]
                h.pos = e + 1
            return [v]
        if op == "sp":
            h.pos, h.eof = int(a[1]) - (0 if h.path else self.hole), False
            return []
        if op == "gp":
            return None if h.pos is None else [h.pos + (0 if h.path else self.hole)]
        if op == "eof":
            return None if h.eof is None else [h.eof, not h.eof]
        raise ValueError(op)


def payload(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice(["", "\n", "a", ",", "{}", "{0}", "}}", "%s\r\n", "é\n"])
    if k < 0.22:
        s = text(rng, n=1) * rng.choice([100, 500, 1023, 1024, 1025, 4096, 8190, 8191, 8192, 8193])
        return s[:9000] if rng.random() < 0.95 else huge(rng)[:66000]
    s = text(rng, big=600)
    return "".join(c if rng.random() < 0.9 else rng.choice("\n\n,; ") for c in s)


def gen(rng, reads, steps=None):
    m, out = Model(), ["h"]

    def do(op, *a):
        a = [str(x) for x in a]
        m.apply(op, a)
        out.append(op)
        out.extend(a)
    if rng.random() < 0.5:
        do("ext", 0, hx(payload(rng)))
    for _ in range(steps or rng.choice([6, 15, 30, 60])):
        live = [i for i in range(3) if m.h[i]]
        if sum(map(len, m.data)) > 120000:
            break
        if not live or rng.random() < 0.06:
            do(rng.choice(["open", "open", "openf", "mk", "lit"]), rng.randrange(3), 0 if rng.random() < 0.7 else 1)
            continue
        k = rng.choice(live)
        h = m.h[k]
        x = rng.random()
        if x < (0.34 if not reads else 0.2):
            kind = rng.choice(["s", "c", "t", "y", "z", "f", "s", "c"])
            a = [k, rng.choice(["w", "wl", "a", "al"]), kind, hx(payload(rng))]
            if kind == "f":
                a.append(rng.randrange(-10 ** 6, 10 ** 6))
            do("put", *a)
        elif x < 0.37:
            do("ext", h.path, hx(payload(rng)))
        elif x < 0.40:
            do("erase", k)
        elif x < 0.44:
            do("close", k)
        elif x < 0.47:
            do("reopen", k)
        elif x < 0.49:
            do("copy", rng.choice([i for i in range(3) if i != k]), k)
        elif x < 0.51:
            do("del", k)
        elif x < 0.59:
            do("rd", k)
        elif x < 0.80:
            if (h.pos is None or h.eof is None) and rng.random() < 0.9:
                if not h.open:
                    do("reopen", k)
                c = m.data[h.path].decode()
                p = len(c[:rng.choice([0, 0, len(c), rng.randrange(len(c) + 1)])].encode())
                do("sp", k, p)
            for _ in range(rng.choice([1, 1, 2, 5, 12])):
                if rng.random() < 0.7:
                    do("rl", k)
                else:
                    do("rld", k, rng.choice(DELIMS))
                if rng.random() < 0.5:
                    do("eof", k)
                if rng.random() < 0.3:
                    do("gp", k)
        elif x < 0.88:
            if not h.open:
                do("reopen", k)
            c = m.data[h.path].decode()
            p = len(c[:rng.choice([0, 0, len(c), rng.randrange(len(c) + 1)])].encode())
            do("sp", k, p)
        elif x < 0.94:
            do("gp", k)
        else:
            do("eof", k)
    return " ".join(out)


HOLES = [2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 2 ** 32 - 3, 2 ** 32, 2 ** 32 + 7, 5 * 2 ** 30, 2 ** 33 + 1]


def hole(case):
    t = case.split(" ", 2)
    return int(t[1]) if t[0] == "g" else 0


def gen_big(rng):
    """A history at the end of a file of several GB (a hole); only what lies behind the hole is read."""
    n = rng.choice(HOLES) + rng.choice([0, 0, rng.randrange(1000)])
    m, out = Model(n), ["g", str(n)]

    def do(op, *a):
        a = [str(x) for x in a]
        m.apply(op, a)
        out.append(op)
        out.extend(a)
    for _ in range(rng.choice([6, 15, 30])):
        live = [i for i in range(3) if m.h[i]]
        if not live or rng.random() < 0.08:
            do(rng.choice(["open", "mk", "lit"]), rng.randrange(3), 0)
            continue
        k = rng.choice(live)
        h = m.h[k]
        x = rng.random()
        if x < 0.4:
            do("put", k, rng.choice(["w", "wl", "a", "al"]), rng.choice("sctyz"), hx(payload(rng)[:300]))
        elif x < 0.45:
            do("ext", 0, hx(payload(rng)[:300]))
        elif x < 0.5:
            do(rng.choice(["close", "reopen"]), k)
        elif x < 0.53:
            do("copy", rng.choice([i for i in range(3) if i != k]), k)
        elif x < 0.9:
            if not h.open:
                do("reopen", k)
            c = m.data[0].decode()
            if h.pos is None or h.eof is None or h.pos < 0 or rng.random() < 0.3:
                do("sp", k, n + len(c[:rng.choice([0, 0, len(c), rng.randrange(len(c) + 1)])].encode()))
            for _ in range(rng.choice([1, 1, 2, 5])):
                do(*rng.choice([("rl", k), ("rl", k), ("rld", k, rng.choice(DELIMS))]))
                do("gp", k)
                if rng.random() < 0.5:
                    do("eof", k)
        else:
            do("gp", k)
    return " ".join(out)


def events(case, line):
    """Yields (op, args, expected values or None, observed values, status, sizes+crcs, model)."""
    if line.startswith("nohole"):
        return
    m = Model(hole(case))
    evs = line.split(" ;")
    ops = list(parse(case))
    for (op, a), ev in zip(ops, evs):
        t = ev.split()
        want = m.apply(op, a)
        disk = t[-4:]
        body = t[:-4]
        yield op, a, want, body[:-1], body[-1] if body else "none", disk, m


def crc(b):
    return str(zlib.crc32(b))
