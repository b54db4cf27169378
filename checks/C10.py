from gens import hx, unhex, huge, scalar, text
ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "forked processes under ASan/UBSan with piped descriptors drained after every call; offline byte-exactness oracle"
RULE = ("a case is a process with a generated stdin (pipe, trickled pipe or file) and a history of up to 40 stream calls; the "
        "pipes are read after every call; non-trivial: at least 4 calls of which one reads or writes multi-byte text")
ASSUMPTIONS = ["input and output are well-formed UTF-8 without NUL", "a single write is below 400 kB (pipe capacity)"]
DRIVERS = {"io": {"src": "io.cpp"}}
WORKERS = {"quick": 24, "thorough": 160}
WV = ["s", "c", "t", "y", "z", "f", "ls", "lc", "lt", "ly", "lz", "lf", "l0"]


def payload(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice(["", "\n", "{}", "{0}", "}}", "%s", "\t", "a\nb\n", "\r\n"])
    if k < 0.14:
        return text(rng, n=rng.choice([1000, 4095, 4096, 8191, 8192, 8193, 20000])) if rng.random() < 0.9 else huge(rng)[:66000]
    return text(rng, big=600)


def gen(rng):
    lines = []
    for _ in range(rng.randrange(0, 12)):
        lines.append(rng.choice(["", "x", "é", "😀", " ", "\r"]) if rng.random() < 0.3 else text(rng, big=800).replace("\n", " "))
    if rng.random() < 0.01:
        lines.insert(rng.randrange(len(lines) + 1), huge(rng)[:66000].replace("\n", " "))
    data = "\n".join(lines)
    if rng.random() < 0.6 and data:
        data += "\n"
    mode = rng.choice("ppft" if len(data) < 600 else "pf") + ("m" if rng.random() < 0.4 else "")
    out = [mode, hx(data)]
    for _ in range(rng.choice([3, 8, 20, 40])):
        k = rng.random()
        if k < 0.62:
            v = rng.choice(WV)
            out += [rng.choice(["wo", "we", "wl"]), v]
            if v != "l0":
                out.append(hx(payload(rng)))
                if v in ("f", "lf"):
                    out.append(str(rng.choice([0, -5, 12345, 2 ** 31 - 1, rng.randrange(1000)])))
        elif k < 0.8:
            op = rng.choice(["rl", "rl", "rlp", "rlf"])
            out += [op] if op == "rl" else [op, hx(text(rng, n=rng.randrange(0, 10)))]
        else:
            op = rng.choice(["rc", "rc", "rcp", "rcf"])
            out += [op] if op == "rc" else [op, hx(text(rng, n=rng.randrange(0, 10)))]
    return " ".join(out)


def batches(rng, idx, tier):
    yield "io", [gen(rng) for _ in range(300)]


def parse(case):
    t = case.split()[2:]
    i = 0
    while i < len(t):
        op = t[i]
        if op[0] == "w":
            v = t[i + 1]
            n = 0 if v == "l0" else 2 if v in ("f", "lf") else 1
            yield op, v, t[i + 2:i + 2 + n]
            i += 2 + n
        else:
            n = 0 if op in ("rl", "rc") else 1
            yield op, None, t[i + 1:i + 1 + n]
            i += 1 + n


def judge(case, line):
    t = case.split()
    data = unhex(t[1])
    merged = "m" in t[0]
    rest = data
    evs = line.split(" ;")
    ops = list(parse(case))
    if len(evs) - 1 != len(ops):
        return ("events", "%d of %d calls completed" % (len(evs) - 1, len(ops)))
    for (op, v, a), ev in zip(ops, evs):
        e = ev.split()
        o = er = b""
        val = None
        if op[0] == "w":
            s = unhex(a[0]) if a else b""
            if v in ("f", "lf"):
                s = s + b"|" + ("%4d" % int(a[1])).encode() + b"{}"
            if v[0] == "l":
                s += b"\n"
            if op == "wo" or merged:
                o = s
            else:
                er = s
        else:
            if a:
                o = unhex(a[0])
                if op in ("rlf", "rcf"):
                    o += b"?7 "
            ln, sep, rest2 = rest.partition(b"\n")
            rest = rest2
            val = ln
            if op[1] == "c":
                val = ln.decode()[:1].encode()
        if val is not None:
            if e[0][0] != "x" or e[1] != "ok":
                return (op, "%s reported %s" % (op, ev[:100]))
            if unhex(e[0]) != val:
                return (op + ":value", "%s returned %r, expected %r" % (op, unhex(e[0])[:200], val[:200]))
            e = e[2:]
        else:
            if e[0] != "ok":
                return (op + v, "%s %s reported %s" % (op, v, ev[:100]))
            e = e[1:]
        if unhex(e[0]) != o:
            return (op + (v or "") + ":stdout", "after %s %s stdout received %r, expected %r" % (op, v or "", unhex(e[0])[:200], o[:200]))
        if unhex(e[1]) != er:
            return (op + (v or "") + ":stderr", "after %s %s stderr received %r, expected %r" % (op, v or "", unhex(e[1])[:200], er[:200]))
    return None


def nontrivial(case, r):
    ops = list(parse(case))
    return len(ops) >= 4 and any(o[0][0] == "w" and o[2] and any(b > 127 for b in unhex(o[2][0])) for o in ops)


def features(case, r, f):
    f["stdin " + case[0]] += 1
    for op, v, a in parse(case):
        f[op + (" " + v if v else "")] += 1
