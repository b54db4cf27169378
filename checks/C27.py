import unicodedata
import ucd
from gens import hx, unhex, huge, text, scalar
ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "recorded results of generated calls against an independent implementation, ASan/UBSan, allocation balance"
RULE = ("a case is one call of a string or map helper; small alphabets make patterns overlap themselves, escapes and truncated escapes are placed next to "
        "each other and at the ends, maps of five kinds are passed as lvalue, const and rvalue; non-trivial: an input of at least two elements")
ASSUMPTIONS = ["\\u0000 and lone surrogates denote no character a String can hold: only that they do not crash is checked",
               "Python's unicodedata supplies digits"]
DRIVERS = {"util": {"src": "util.cpp"}}
WORKERS = {"quick": 64, "thorough": 400}
ENV = {"RT_LEAK": "1"}
ESC = {'"': '"', "?": "?", "\\": "\\", "/": "/", "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
DIGITS = {c for c in range(0x10000) if unicodedata.category(chr(c)) == "Nd"}
SURE_DIGITS = DIGITS - set(range(0xde6, 0xdf0))


def small(rng, n=None, al=None):
    al = al or rng.choice([b"a", b"ab", b"abc", b"a\x00", b"ab,;", b"\xc3\xa9", bytes(range(256))])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 100]) if n is None else n
    return bytes(rng.choice(al) for _ in range(n)), al


def pattern(rng):
    k = rng.random()
    if k < 0.3:
        p, al = small(rng, rng.randrange(0, 9))
        t, _ = small(rng, rng.randrange(0, 60), al)
    elif k < 0.7:  # a periodic pattern and a text of its prefixes
        base, al = small(rng, rng.randrange(1, 5), rng.choice([b"ab", b"abc", b"a\x00"]))
        p = base * rng.randrange(1, 5) + base[:rng.randrange(len(base) + 1)]
        p += small(rng, rng.randrange(0, 3), al)[0]
        t = b"".join(p[:rng.randrange(len(p) + 1)] for _ in range(rng.randrange(0, 12)))
    else:
        p, al = small(rng, rng.randrange(0, 20))
        t, _ = small(rng, rng.randrange(0, 30), al)
        i = rng.randrange(len(t) + 1)
        q = p if rng.random() < 0.7 else p[:-1]
        t = t[:i] + q + t[i:] if rng.random() < 0.7 else rng.choice([q + t, t + q])
    return p, t


def esc_text(rng):
    parts = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 30])):
        k = rng.random()
        if k < 0.3:
            parts.append("\\" + rng.choice(list(ESC)))
        elif k < 0.45:
            c = rng.choice([rng.randrange(1, 0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000), 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xe000])
            parts.append("\\u" + rng.choice(["%04x", "%04X"]) % c)
        elif k < 0.52:
            c = rng.randrange(0x10000, 0x110000) - 0x10000
            parts.append("\\u%04x\\u%04X" % (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)))
        elif k < 0.60:
            parts.append("\\u" + "".join(rng.choice("0123456789abcdefABCDEFg xG-+\u0661") for _ in range(rng.randrange(0, 5))))
        elif k < 0.66:
            parts.append("\\" + rng.choice("xyzUNQ019 '(\u00e9\u20ac\U0001f600"))
        elif k < 0.70:
            parts.append("\\")
        elif k < 0.72:
            parts.append(rng.choice(["\\u0000", "\\ud800", "\\udc00", "\\udfff x", "\\ud83d\\n", "\\ud83d\\u0041"]))
        else:
            parts.append(text(rng, n=rng.randrange(0, 5)))
    return "".join(parts)


def unescape(s):
    """None where the result is not specified (lone surrogates, U+0000)."""
    out, i = [], 0

    def u(j):
        h = s[j + 2:j + 6]
        if s[j:j + 2] == "\\u" and len(h) == 4 and all(c in "0123456789abcdefABCDEF" for c in h):
            return int(h, 16)
        return None
    while i < len(s):
        c = s[i]
        if c != "\\" or i + 1 == len(s):
            out.append(c)
            i += 1
            continue
        d = s[i + 1]
        if d in ESC:
            out.append(ESC[d])
            i += 2
        elif d == "u":
            v = u(i)
            if v is None:
                out.append("\\u")
                i += 2
            elif 0xd800 <= v < 0xdc00 and u(i + 6) is not None and 0xdc00 <= u(i + 6) < 0xe000:
                out.append(chr(0x10000 + ((v - 0xd800) << 10) + u(i + 6) - 0xdc00))
                i += 12
            elif v == 0 or 0xd800 <= v < 0xe000:
                return None
            else:
                out.append(chr(v))
                i += 6
        else:
            out.append("\\" + d)
            i += 2
    return "".join(out)


def batches(rng, idx, tier):
    out = []
    for _ in range(4000 if tier == "quick" else 6000):
        k = rng.random()
        if k < 0.15:
            t, al = small(rng)
            d = rng.choice(al + b",") if rng.random() < 0.8 else rng.randrange(256)
            if rng.random() < 0.3:
                t = bytes([d]) * rng.randrange(0, 3) + t + bytes([d]) * rng.randrange(0, 3)
            out.append("split %s %d" % (hx(t), d - 256 if d > 127 else d))
        elif k < 0.25:
            out.append("repeat %s %d" % (hx(small(rng, rng.randrange(0, 12))[0]), rng.choice([0, 0, 1, 1, 2, 3, 7, 64, 1000])))
        elif k < 0.50:
            p, t = pattern(rng)
            out.append("kmp %s %s" % (hx(p), hx(t)))
        elif k < 0.60:
            n = rng.randrange(0, 12)
            s = "".join(chr(rng.choice([rng.randrange(0x30, 0x3a), rng.choice(sorted(SURE_DIGITS))])) for _ in range(n))
            if rng.random() < 0.5:
                i = rng.randrange(len(s) + 1)
                s = s[:i] + rng.choice(["-", "+", ".", " ", "a", "\u00b2", "\u2460", "\u00bd", "\u4e00", "/", ":", "\u2167", "\U0001f600"]) + s[i + rng.randrange(2):]
            out.append("num " + hx(s))
        elif k < 0.72:
            sp = [chr(c) for c in sorted(ucd.SPACE)]
            a = "".join(rng.choice(sp) for _ in range(rng.randrange(0, 6)))
            m = "" if rng.random() < 0.3 else text(rng, n=rng.randrange(0, 5))
            b = "".join(rng.choice(sp) for _ in range(rng.randrange(0, 6)))
            out.append("nonspace " + hx((a + m + b).replace("\0", "")))
        elif k < 0.90:
            out.append("esc " + hx(esc_text(rng)))
        elif k < 0.904:
            t = huge(rng).encode()[:66000].decode("utf-8", "ignore")
            j = rng.randrange(len(t))
            out.append(rng.choice(["kmp %s %s" % (hx(t[j:j + rng.choice([1, 40, 300, 66000])]), hx(t)), "kmp %s %s" % (hx("a" * 300 + "b"), hx("a" * 40000 + "b" + "a" * 299)),
                                   "split %s %d" % (hx(t), rng.choice(t.encode()[:20] + b",") % 128), "split %s 44" % hx("a,b," * 17000),
                                   "repeat %s %d" % (hx("a\u00e9"), rng.choice([255, 256, 257, 32768, 65535, 65536, 65537, 70001])),
                                   "num " + hx("7" * 65537 + rng.choice(["", "x"])), "nonspace " + hx(" " * 65537 + rng.choice(["", "x"])),
                                   "esc " + hx(t[:30000].replace("\\", "n") + "\\u00e9" * 9000)]))
        else:
            n = rng.choice([0, 1, 2, 5, 20, 60])
            ks = [rng.choice([rng.randrange(-5, 6), rng.randrange(-2**62, 2**62)]) for _ in range(n)]
            out.append("%s %s %s" % (rng.choice(["map", "mmap", "rmap", "umap", "ummap"]), rng.choice("lcr"),
                                     " ".join("%d %s" % (x, hx("v%d" % i + "\u00e9" * rng.randrange(20))) for i, x in enumerate(ks))))
    yield "util", out


def judge(case, line):
    t = case.split()
    g = line.split(" ")
    op = t[0]
    if g[0].startswith("E:"):
        return (op + ":throws", "%s threw on %s" % (g[0], case[:300]))
    if op == "split":
        s, d = unhex(t[1]), bytes([int(t[2]) & 255])
        e = s.split(d)
        if e[-1] == b"":
            e.pop()
        got = [unhex(x) for x in g[1:]]
        return None if got == e and g[0] == str(len(e)) else (op, "Split(%r, %r) = %r, expected %r" % (s, d, got, e))
    if op == "repeat":
        return None if unhex(g[0]) == unhex(t[1]) * int(t[2]) else (op, "Repeat(%r, %s) = %r" % (unhex(t[1]), t[2], unhex(g[0])[:80]))
    if op == "kmp":
        e = unhex(t[1]) in unhex(t[2])
        return None if g[0] == "01"[e] else (op, "kmp(%r, %r) = %s" % (unhex(t[1]), unhex(t[2]), g[0]))
    s = unhex(t[1]).decode("utf-8") if op in ("num", "nonspace", "esc") else None
    if op == "num":
        e = s != "" and all(ord(c) in DIGITS or ord(c) > 0xffff and unicodedata.category(c) == "Nd" for c in s)
        return None if g[0] == "01"[e] else (op, "IsNumber(%r) = %s" % (s, g[0]))
    if op == "nonspace":
        ix = [i for i, c in enumerate(s) if ord(c) not in ucd.SPACE]
        e = [len(s), ix[0] if ix else len(s), ix[-1] if ix else len(s)]
        return None if g == [str(x) for x in e] else (op, "size / FindFirstNonSpace / FindLastNonSpace of %r = %s, expected %s" % (s, g, e))
    if op == "esc":
        e = unescape(s)
        if e is None:
            return None
        return None if unhex(g[0]) == e.encode() else (op, "EscapeString(%r) = %r, expected %r" % (s, unhex(g[0]), e.encode()))
    ks, vs = g[1:g.index("v")], g[g.index("v") + 1:g.index("s")]
    own = g[g.index("s") + 2:]
    if g[g.index("s") + 1] != "1":
        return (op, "the map was changed: %s" % case[:300])
    items = list(zip((int(x) for x in t[2::2]), t[3::2]))
    if op in ("map", "rmap", "umap"):
        d = {}
        for a, b in items:
            d.setdefault(a, b)
        items = list(d.items())
    exp = sorted(items, key=lambda x: x[0], reverse=op == "rmap")
    if op in ("map", "mmap", "rmap"):
        ek, ev = [str(a) for a, _ in exp], [b for _, b in exp]
    else:
        ek, ev = own[::2], own[1::2]
        if sorted(zip(ek, ev)) != sorted((str(a), b) for a, b in items):
            return ("protocol", "map content")
    if ks != ek:
        return ("GetMapKeys", "GetMapKeys = %s, expected %s (%s %s)" % (ks, ek, op, t[1]))
    if vs != ev:
        # the copies of an unordered map may iterate differently
        if op in ("umap", "ummap") and t[1] == "r" and sorted(vs) == sorted(ev):
            return None
        return ("GetMapValues", "GetMapValues = %s, expected %s (%s %s)" % (vs, ev, op, t[1]))
    return None


def nontrivial(case, r):
    return r[0] == "ok" and len(case) > 14


def features(case, r, f):
    t = case.split()
    f[t[0]] += 1
    if r[0] == "ok" and t[0] == "kmp":
        f["kmp found" if r[1] == "1" else "kmp not found"] += 1
    if r[0] == "ok" and t[0] == "num":
        f["numbers" if r[1] == "1" else "not numbers"] += 1
