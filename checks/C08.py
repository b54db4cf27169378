import re
import struct
from gens import hx, unhex, huge, scalar, text
ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline oracle over recorded Format results (independent interpreter of the format grammar)"
RULE = ("a case is a format string with 0-12 typed arguments, well-formed, mutated or random; non-trivial: it has a "
        "replacement field, an escaped brace or an error")
ASSUMPTIONS = ["what a field that is not [index][:[[fill]align][width][.precision][s|d|f]] does is unspecified (it must not crash)",
               "precision is only meaningful with f on numbers; widths are up to 70001"]
DRIVERS = {"fmt": {"src": "fmt.cpp"}}
WORKERS = {"quick": 32, "thorough": 200}
ENV = {"RT_LEAK": "1"}
INTS = {"a": (-128, 127), "A": (0, 255), "h": (-2 ** 15, 2 ** 15 - 1), "H": (0, 2 ** 16 - 1), "i": (-2 ** 31, 2 ** 31 - 1), "I": (0, 2 ** 32 - 1),
        "l": (-2 ** 63, 2 ** 63 - 1), "L": (0, 2 ** 64 - 1), "q": (-2 ** 63, 2 ** 63 - 1), "Q": (0, 2 ** 64 - 1)}
FIELD = re.compile(r"([0-9]+)?(?::(?:(.)?([<>^]))?([1-9][0-9]*)?(?:\.([0-9]+))?([sdf])?)?\Z", re.S)


def arg(rng, kind=None):
    k = kind or rng.choice("aAhHiIlLqQfdebcsStyz" + "ids" * 4)
    if k in INTS:
        lo, hi = INTS[k]
        v = rng.choice([lo, hi, 0, max(lo, -1), 1, rng.randrange(lo, hi + 1), rng.randrange(max(lo, -1000), min(hi, 1000) + 1)])
        return "%s %d" % (k, v)
    if k in "fde":
        v = rng.choice([0.0, -0.0, 1.0, -1.5, 64.9326, 0.5, 0.999999, 1e-7, 123456789.125, rng.uniform(-1000, 1000),
                        rng.uniform(-1, 1), rng.uniform(-1e15, 1e15), float(rng.randrange(-10 ** 6, 10 ** 6)), 0.05, -0.004])
        return "%s %s" % (k, repr(v))
    if k == "b":
        return "b %d" % rng.randrange(2)
    s = rng.choice(["", "a", "{}", "{0}", "}}", "%s", "é", "😀x", text(rng, n=rng.randrange(0, 12)), text(rng, n=rng.randrange(0, 60))])
    return "%s %s" % (k, hx(s))


def spec(rng, kind):
    s = ""
    k = rng.random()
    if k < 0.3:
        s += rng.choice("<>^")
    elif k < 0.6:
        f = rng.choice(["*", "0", "-", "<", ">", "^", ":", ".", "é", "€", "😀", " ", "#", "5", chr(scalar(rng))])
        if f in "{}":
            f = "*"
        s += f + rng.choice("<>^")
    if rng.random() < 0.7:
        s += str(rng.choice([1, 2, 3, 5, 8, 9, 10, 11, 16, 20, 31, 33, 64, 100, 257, rng.randrange(1, 40)]))
    if kind in "fde" or kind in INTS and rng.random() < 0.2:
        k = rng.random()
        if k < 0.7:
            s += ".%d" % rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 40])
            s += "f"
        elif k < 0.85:
            s += "f"
    elif rng.random() < 0.3:
        s += "d" if kind in INTS else "s" if kind not in "fde" else ""
    return s


def lit(rng):
    t = text(rng, n=rng.choice([0, 0, 1, 2, 3, 6, 15]))
    return t.replace("{", "{{").replace("}", "}}")


def gen(rng):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 12])
    sig = None
    if rng.random() < 0.3:
        sig = rng.choice(["ids", "si", "dd", "bqc", "cSsi", "iiii"])
        n = len(sig)
    args = [arg(rng, sig[i] if sig else None) for i in range(n)]
    f, auto = lit(rng), 0
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])):
        k = rng.random()
        if k < 0.12:
            f += rng.choice(["{{", "}}", "{{}}", "{{{{", "}}}}"])
        elif n == 0:
            f += rng.choice(["", "", "{{0}}", "{}", "{0}", "{:5}"]) if rng.random() < 0.3 else ""
        elif k < 0.55:
            i = 0 if n == 1 else auto
            auto += 1
            if i >= n and rng.random() < 0.85:
                continue
            f += "{}" if rng.random() < 0.5 or i >= n else "{:%s}" % spec(rng, args[i][0])
        else:
            i = rng.randrange(n) if rng.random() < 0.97 else rng.choice([n, n + 1, 99, 2 ** 32, 2 ** 64 - 1, 2 ** 64])
            idx = str(i) if rng.random() < 0.95 else "0" + str(i)
            f += "{%s}" % idx if rng.random() < 0.4 or i >= n else "{%s:%s}" % (idx, spec(rng, args[i][0]))
        f += lit(rng)
    k = rng.random()
    if k < 0.12 and f:  # mutate
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(len(f) + 1)
            f = rng.choice([f[:i] + f[i + 1:], f[:i] + rng.choice("{}:<>^.0159fds") + f[i:], f[:i], f[i:]])
    elif k < 0.16:
        f = "".join(rng.choice("{}:<>^.0159fds é*") for _ in range(rng.randrange(1, 14)))
    return "fmt %s %d %s" % (hx(f), n, " ".join(args))


def small(f):
    return not re.search(r"[0-9]{4,}", re.sub(r"\{[0-9]+", "{", f)) and all(c < "\u0660" or c > "\u1a99" for c in f)


def batches(rng, idx, tier):
    out = []
    while len(out) < 6000:
        c = gen(rng)
        if small(unhex(c.split()[1]).decode()):
            out.append(c)
    for _ in range(6):  # long texts, wide fields, many fields
        a = [arg(rng, rng.choice("scSi")) for _ in range(3)]
        k = rng.random()
        if k < 0.4:
            a[rng.randrange(3)] = "s " + hx(huge(rng))
        f = rng.choice(["{1}{0:9}", "{}{}{}", "{2}{2}", "{0:*>%d}|{2}" % rng.choice([255, 256, 999, 1000, 2999]), "{0}{1:é^%d}" % rng.choice([65535, 65536, 70001])])
        if k > 0.7:
            f = huge(rng)[:70000].replace("{", "{{").replace("}", "}}") + f
        elif k > 0.5:
            f = "{0}{1}{{{2}" * rng.choice([90, 300, 22000])
        out.append("fmt %s 3 %s" % (hx(f), " ".join(a)))
    yield "fmt", out


def values(t):
    out, i = [], 0
    while i < len(t):
        k, v = t[i], t[i + 1]
        i += 2
        if k in INTS:
            out.append(("int", str(int(v))))
        elif k in "fde":
            x = float(v)
            if k == "f":
                x = struct.unpack("f", struct.pack("f", x))[0]
            out.append(("float", "%f" % x))
        elif k == "b":
            out.append(("str", "true" if v == "1" else "false"))
        else:
            out.append(("str", unhex(v).decode()))
    return out


def model(f, args):
    """Returns ('ok', text), ('error', why) or ('any', why)."""
    out, i, auto, n = [], 0, 0, len(args)
    unknown = None
    while i < len(f):
        c = f[i]
        if c == "{":
            if f[i + 1:i + 2] == "{":
                out.append("{")
                i += 2
                continue
            e = f.find("}", i)
            if e < 0:
                return ("error", "unclosed {") if not unknown else ("any", unknown)
            body = f[i + 1:e]
            i = e + 1
            m = FIELD.match(body)
            if not m:
                unknown = "field %r" % body
                out.append("?")
                if not body[:1].isdigit():
                    auto += 1
                continue
            idx, fill, align, width, prec, typ = m.groups()
            if idx is not None:
                a = int(idx)
            elif n == 1:
                a = 0
            else:
                a = auto
                auto += 1
            if a >= n:
                return ("error", "argument %d of %d" % (a, n)) if not unknown else ("any", unknown)
            kind, v = args[a]
            if ":" in body:
                if typ == "f":
                    if kind == "str":
                        unknown = "f on text"
                    elif prec is not None:
                        ip, _, fp = v.partition(".")
                        p = int(prec)
                        v = ip + ("." + (fp + "0" * p)[:p] if p else "")
                elif prec is not None or (typ == "d" and kind != "int"):
                    unknown = "precision or type not meaningful"
                w = int(width or 0)
                pad = max(0, w - len(v))
                fill = fill if fill is not None else " "
                if align == ">":
                    v = fill * pad + v
                elif align == "^":
                    v = fill * (pad // 2) + v + fill * (pad - pad // 2)
                else:
                    v = v + fill * pad
            out.append(v)
        elif c == "}":
            if f[i + 1:i + 2] != "}":
                return ("error", "single }") if not unknown else ("any", unknown)
            out.append("}")
            i += 2
        else:
            out.append(c)
            i += 1
    return ("any", unknown) if unknown else ("ok", "".join(out))


def judge(case, line):
    t = case.split()
    f, args = unhex(t[1]).decode(), values(t[3:])
    want = model(f, args)
    g = line.split(" ")
    i = 0
    for how in ("", " (typed arguments)"):
        if g[i] == "-":
            break
        if g[i] == "ok":
            got = unhex(g[i + 1]).decode("utf-8", "replace")
            i += 2
            if want[0] == "error":
                return ("accepted" + how, "Format(%r) with %d arguments returned %r, expected an error (%s)" % (f, len(args), got[:200], want[1]))
            if want[0] == "ok" and got != want[1]:
                return ("wrong" + how, "Format(%r, %s) returned %r, expected %r" % (f[:200], ", ".join(repr(v[1][:40]) for v in args), got[:300], want[1][:300]))
        else:
            if want[0] == "ok":
                return ("threw" + how, "Format(%r, %s) threw %s, expected %r" % (f[:200], ", ".join(repr(v[1][:40]) for v in args), g[i], want[1][:200]))
            i += 1
    return None


def nontrivial(case, r):
    return b"{" in unhex(case.split()[1]) or b"}" in unhex(case.split()[1])


def features(case, r, f):
    t = case.split()
    w = model(unhex(t[1]).decode(), values(t[3:]))
    f["expected " + w[0]] += 1
    f["fields"] += unhex(t[1]).count(b"{")
    if r[0] == "ok" and "E:" in r[1]:
        f["rejections observed"] += 1
