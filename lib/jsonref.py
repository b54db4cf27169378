"""An independent strict RFC 8259 reader, writer and tree model for C21-C23.

A value is a tuple: ('n',) ('b', bool) ('i', int) ('d', float32 bits) ('s', str) ('a', [values]) ('o', [(key, value)...]).
"""
import re
import struct
from fractions import Fraction

I64MIN, I64MAX = -2 ** 63, 2 ** 63 - 1
MAXDEPTH = 512


class Bad(Exception):
    pass


def bits_to_fraction(u):
    s = -1 if u >> 31 else 1
    e, m = u >> 23 & 255, u & 0x7fffff
    if e == 0:
        return s * Fraction(m, 2 ** 149)
    return s * Fraction(m | 0x800000) * Fraction(2) ** (e - 150)


def bits_to_float(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]


def f32_exact(fr):
    """Bits of the float nearest to a non-negative Fraction (ties to even), None on overflow."""
    if fr == 0:
        return 0
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    e = max(e, -126)
    q = fr / Fraction(2) ** (e - 23)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n == 1 << 24:
        n >>= 1
        e += 1
    if e > 127:
        return None
    if n < 0x800000:
        return n
    return (e + 127) << 23 | (n & 0x7fffff)


def f32_text(s):
    """Bits of the float nearest to a JSON number text, None on overflow."""
    d = float(s)
    sign = 0x80000000 if s[0] == "-" else 0
    a = abs(d)
    if a == float("inf") or a > 1e39:
        return None
    if a < 1e-60:
        return sign
    (b,) = struct.unpack("<Q", struct.pack("<d", a))
    if a < 2.0 ** -125 or a > 3.3e38 or (b & 0x1fffffff) == 0x10000000:
        u = f32_exact(abs(Fraction(s)))
        return None if u is None else u | sign
    (u,) = struct.unpack("<I", struct.pack("<f", a))
    return u | sign


NUM = re.compile(r"-?(?:0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?", re.A)
HEX4 = re.compile(r"[0-9a-fA-F]{4}", re.A)
ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
WS = " \t\n\r"


def number(tok, m):
    if m.group(1) or m.group(2):
        u = f32_text(tok)
        if u is None:
            raise Bad("floating overflow")
        return ("d", u)
    v = int(tok) if len(tok) < 30 else None
    if v is None or not I64MIN <= v <= I64MAX:
        raise Bad("integer overflow")
    return ("i", v)


def parse(t, root_object=True, depth_limit=MAXDEPTH, library=True):
    """Raises Bad unless the text is a JSON document; iterative, so that depth does not matter."""
    n = len(t)
    p = 0

    def ws(p):
        while p < n and t[p] in WS:
            p += 1
        return p

    def string(p):
        p += 1
        out = []
        while True:
            if p >= n:
                raise Bad("unterminated string")
            c = t[p]
            if c == '"':
                return "".join(out), p + 1
            if c < " ":
                raise Bad("control character")
            if c == "\\":
                p += 1
                c = t[p] if p < n else ""
                if c in ESC and c:
                    out.append(ESC[c])
                elif c == "u":
                    m = HEX4.match(t, p + 1)
                    if not m:
                        raise Bad("bad \\u")
                    v = int(m.group(), 16)
                    p += 4
                    if 0xd800 <= v < 0xdc00 and t[p + 1:p + 3] == "\\u":
                        m = HEX4.match(t, p + 3)
                        if m and 0xdc00 <= int(m.group(), 16) < 0xe000:
                            v = 0x10000 + ((v - 0xd800) << 10) + int(m.group(), 16) - 0xdc00
                            p += 6
                    if library and (v == 0 or 0xd800 <= v < 0xe000):
                        raise Bad("not a character")
                    out.append(chr(v))
                else:
                    raise Bad("bad escape")
                p += 1
            else:
                out.append(c)
                p += 1

    stack = []  # [kind, container, key]
    p = ws(p)
    if root_object and (p >= n or t[p] != "{"):
        raise Bad("root is not an object")
    while True:
        # a value starts at p
        if p >= n:
            raise Bad("end of text")
        c = t[p]
        val = None
        if c in "{[":
            if depth_limit is not None and len(stack) >= depth_limit:
                raise Bad("too deep")
            p = ws(p + 1)
            if p < n and t[p] == ("}" if c == "{" else "]"):
                val = ("o", []) if c == "{" else ("a", [])
                p += 1
            else:
                if c == "{":
                    if p >= n or t[p] != '"':
                        raise Bad("key expected")
                    key, p = string(p)
                    p = ws(p)
                    if p >= n or t[p] != ":":
                        raise Bad("colon expected")
                    p = ws(p + 1)
                    stack.append(["o", {}, key])
                else:
                    stack.append(["a", [], None])
                continue
        elif c == '"':
            s, p = string(p)
            val = ("s", s)
        elif t.startswith("true", p):
            val, p = ("b", True), p + 4
        elif t.startswith("false", p):
            val, p = ("b", False), p + 5
        elif t.startswith("null", p):
            val, p = ("n",), p + 4
        else:
            m = NUM.match(t, p)
            if not m:
                raise Bad("value expected")
            val = number(m.group(), m)
            p = m.end()
        # a value ended at p
        while True:
            p = ws(p)
            if not stack:
                if p != n:
                    raise Bad("trailing content")
                return val
            top = stack[-1]
            if top[0] == "o":
                top[1][top[2]] = val
            else:
                top[1].append(val)
            if p >= n:
                raise Bad("unterminated container")
            if t[p] == ",":
                p = ws(p + 1)
                if top[0] == "o":
                    if p >= n or t[p] != '"':
                        raise Bad("key expected")
                    top[2], p = string(p)
                    p = ws(p)
                    if p >= n or t[p] != ":":
                        raise Bad("colon expected")
                    p = ws(p + 1)
                break
            if t[p] == ("}" if top[0] == "o" else "]"):
                stack.pop()
                val = ("o", list(top[1].items())) if top[0] == "o" else ("a", top[1])
                p += 1
                continue
            raise Bad("comma expected")


def tokens(v):
    """The dump the driver makes of a value."""
    out = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, str):
            out.append(x)
            continue
        out.append(x[0])
        k = x[0]
        if k == "s":
            out.append("x" + x[1].encode().hex())
        elif k == "i" or k == "d":
            out.append(str(x[1]))
        elif k == "b":
            out.append("1" if x[1] else "0")
        elif k == "a":
            out.append(str(len(x[1])))
            st.extend(reversed(x[1]))
        elif k == "o":
            out.append(str(len(x[1])))
            for kk, vv in reversed(x[1]):
                st.append(vv)
                st.append("x" + kk.encode().hex())
    return out


def canon(v):
    """A value as any JSON reader sees it after serialization: non-finite floats are null."""
    if v[0] == "d" and (v[1] >> 23 & 255) == 255:
        return ("n",)
    if v[0] == "a":
        return ("a", [canon(x) for x in v[1]])
    if v[0] == "o":
        return ("o", [(k, canon(x)) for k, x in v[1]])
    return v


# ---------------------------------------------------------------- generation
from gens import scalar

SPECIAL = ['"', "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x01", "\x1f", "\x7f", "\u2028", "\u2029", "\ufeff", "\uffff", "\U0001f600",
           "\U0010ffff", "\ud7ff", "\ue000", "{", "}", "[", "]", ":", ",", "u", "n", "é", "ß", "0"]
INTS = [0, 1, -1, 9, 10, 127, -128, 255, 256, 32767, -32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1,
        -2 ** 53 - 1, I64MAX, I64MIN, I64MAX - 1, I64MIN + 1, 10 ** 18, 999999999999999999, 123456789, 16777217]


def gstr(rng, big=False):
    k = rng.random()
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20]) if not big else rng.randrange(100, 400)
    if k < 0.3:
        return "".join(rng.choice("abcdefgxyz _-09") for _ in range(n))
    if k < 0.7:
        return "".join(rng.choice(SPECIAL) if rng.random() < 0.5 else chr(scalar(rng)) for _ in range(n))
    return "".join(rng.choice(SPECIAL) for _ in range(n))


def gint(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice(INTS)
    if k < 0.7:
        return rng.randrange(-1000, 1000)
    v = rng.getrandbits(rng.randrange(1, 64))
    return rng.choice([v, -v])


FBITS = [0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0x3f800001, 0x3f7fffff, 0x3dcccccd, 0x4b800000, 0x4b7fffff,
         0x4b800001, 0x7f000000, 0x40490fdb, 0x5f000000, 0x49742400, 0x49742410]


def gfloat(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(FBITS)
    if k < 0.6:
        return f32_text("%d.%0*d" % (rng.randrange(-2000, 2000), rng.randrange(1, 7), rng.randrange(10)))
    while True:
        u = rng.getrandbits(32)
        if (u >> 23 & 255) != 255:
            return u


def gval(rng, budget, depth, dup=False):
    k = rng.random()
    if budget > 1 and depth > 0 and k < 0.45:
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        sub = max(1, (budget - 1) // max(n, 1))
        if rng.random() < 0.5:
            return ("a", [gval(rng, sub, depth - 1, dup) for _ in range(n)])
        items = [(gstr(rng), gval(rng, sub, depth - 1, dup)) for _ in range(n)]
        if dup and n > 1 and rng.random() < 0.3:
            items.append((items[0][0], gval(rng, sub, 0)))
        return ("o", items)
    k = rng.random()
    if k < 0.3:
        return ("s", gstr(rng, rng.random() < 0.02))
    if k < 0.55:
        return ("i", gint(rng))
    if k < 0.8:
        return ("d", gfloat(rng))
    if k < 0.92:
        return ("b", rng.random() < 0.5)
    return ("n",)


def gdoc(rng, dup=False):
    k = rng.random()
    if k < 0.02:  # deep
        v = gval(rng, 5, 1)
        for _ in range(rng.choice([10, 50, 200, 400, 500])):
            v = ("a", [v]) if rng.random() < 0.5 else ("o", [("k", v)])
        return ("o", [("d", v)])
    if k < 0.06:  # wide
        n = rng.randrange(50, 300)
        if rng.random() < 0.5:
            return ("o", [("k%d" % i, gval(rng, 1, 0)) for i in range(n)])
        return ("o", [("w", ("a", [gval(rng, 1, 0) for _ in range(n)]))])
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    items = [(gstr(rng), gval(rng, rng.choice([1, 5, 20]), rng.randrange(5), dup)) for _ in range(n)]
    if dup and n > 1 and rng.random() < 0.3:
        items.append((items[0][0], gval(rng, 1, 0)))
    return ("o", items)


def num_text(rng, v):
    """A text for the value, and the value it denotes."""
    if v[0] == "i":
        if v[1] == 0 and rng.random() < 0.3:
            return "-0"
        return str(v[1])
    k = rng.random()
    f = bits_to_float(v[1])
    if k < 0.5:
        s = "%.*e" % (rng.choice([0, 1, 5, 6, 7, 8, 9, 12, 17]), f)
        if rng.random() < 0.5:
            s = s.replace("e+0", "e").replace("e+", rng.choice(["e", "E", "E+", "e+"])).replace("e-0", "E-")
    elif k < 0.8 and 1e-30 < abs(f) < 1e30:
        s = "%.*f" % (rng.choice([1, 2, 7, 20, 45]), f)
    elif k < 0.9:  # an exact midpoint between two floats
        a = bits_to_fraction(v[1] & 0x7fffffff)
        b = f32_exact(a)
        if b is None or b >= 0x7f7fffff:
            s = "%.9e" % f
        else:
            mid = (a + bits_to_fraction(b + 1)) / 2
            s = exact_decimal(mid)
    else:
        s = "%d%s%s%d" % (rng.randrange(-99, 100), rng.choice(["e", "E"]), rng.choice(["", "+", "-"]), rng.randrange(0, 30))
    if not ("." in s or "e" in s or "E" in s):
        s += ".0"
    if f32_text(s) is None:
        s = "1.5"
    return s


def exact_decimal(fr):
    """Exact decimal expansion of a dyadic fraction as scientific text."""
    k = fr.denominator.bit_length() - 1
    return "%de-%d" % (fr.numerator * 5 ** k, k) if k else "%de0" % fr.numerator


def write(rng, v, style=None):
    out = []
    style = style or rng.choice(["compact", "spaced", "pretty", "wild"])
    pesc = rng.choice([0, 0, 0.1, 0.5, 1])

    def sp():
        if style == "compact":
            return ""
        if style == "spaced":
            return " "
        return "".join(rng.choice(" \t\n\r") for _ in range(rng.choice([0, 0, 0, 1, 2, 5])))

    def string(s):
        r = ['"']
        for c in s:
            o = ord(c)
            short = {'"': '\\"', "\\": "\\\\", "/": "\\/", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c)
            must = o < 0x20 or c in '"\\'
            if must or rng.random() < pesc:
                if short and rng.random() < 0.6:
                    r.append(short)
                else:
                    u = c.encode("utf-16-be")
                    for i in range(0, len(u), 2):
                        h = "%04x" % (u[i] << 8 | u[i + 1])
                        r.append("\\u" + "".join(rng.choice([x, x.upper()]) for x in h))
            else:
                r.append(c)
        r.append('"')
        return "".join(r)
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, str):
            out.append(x)
            continue
        k = x[0]
        if k == "n":
            out.append("null")
        elif k == "b":
            out.append("true" if x[1] else "false")
        elif k in "id":
            out.append(num_text(rng, x))
        elif k == "s":
            out.append(string(x[1]))
        elif k == "a":
            out.append("[" + sp())
            q = []
            for i, e in enumerate(x[1]):
                if i:
                    q.append(sp() + "," + sp())
                q.append(e)
            q.append(sp() + "]")
            st.extend(reversed(q))
        else:
            out.append("{" + sp())
            q = []
            for i, (kk, e) in enumerate(x[1]):
                if i:
                    q.append(sp() + "," + sp())
                q.append(string(kk) + sp() + ":" + sp())
                q.append(e)
            q.append(sp() + "}")
            st.extend(reversed(q))
    return sp() + "".join(out) + sp()


# ---------------------------------------------------------------- oracle for the driver's parse, deep and build cases
def reader(text):
    """The serialized text as another reader sees it (no library limits)."""
    return parse(text, depth_limit=None)


def judge_texts(t, want, where):
    """t: tokens compact, pretty, stream==compact, then for each text err [dump]."""
    want = canon(want)
    toks = tokens(want)
    i = 3
    for name, tok in (("compact", t[0]), ("structured", t[1])):
        text = bytes.fromhex(tok[1:]).decode("utf-8", "surrogateescape")
        try:
            got = reader(text)
        except Bad as e:
            return ("serialize:not JSON", "%s output is not JSON (%s): %r for %s" % (name, e, text[:300], where))
        if tokens(got) != toks:
            return ("serialize:differs", "%s output reads as another document: %r, expected %s, for %s" % (name, text[:300], str(want)[:300], where))
        if t[i] != "0":
            return ("reparse:error", "the library rejects its own %s output with error %s: %r for %s" % (name, t[i], text[:300], where))
        i += 1
        if t[i:i + len(toks)] != toks:
            return ("reparse:differs", "the library reads its own %s output differently: %r gives %s, expected %s" % (
                name, text[:300], t[i:i + 40], toks[:40]))
        i += len(toks)
    if t[2] != "1":
        return ("stream", "operator<< and ToString differ for " + where)
    if i != len(t):
        return ("driver", "unexpected trailing tokens " + str(t[i:i + 5]))
    return None


def judge_parse(case, line):
    c = case.split()
    mode, pre, loc, ind = map(int, c[1:5])
    text = bytes.fromhex(c[5][1:]).decode("utf-8")
    keys = [bytes.fromhex(x[1:]).decode("utf-8") for x in c[7:]]
    t = line.split()
    try:
        want = parse(text)
        why = None
    except Bad as e:
        want = None
        why = str(e)
    where = "%r (mode %d, before %d)" % (text[:400], mode, pre)
    if t[0] != "P":
        return ("exception", "parsing threw %s for %s" % (t[0], where))
    if want is None:
        if t[1] != "1" or t[2] == "0":
            return ("accepted:" + why.split(" ")[0], "text that is not a JSON document (%s) is accepted: %s" % (why, where))
        if t[3] in ("x", "x" + b"No error.".hex()):
            return ("no message", "an error without a message: %s" % where)
        if t[4] != "n" or t[5] != "-1":
            return ("residue", "a failed parse leaves a document of class %s size %s: %s" % (t[4], t[5], where))
        if any(x != "0" for x in t[6:]):
            return ("residue", "a failed parse leaves members: %s" % where)
        return None
    if t[1] != "0" or t[2] != "0":
        return ("rejected", "a JSON document is rejected (%s): %s" % (bytes.fromhex(t[3][1:]).decode(), where))
    if t[4] != "o" or t[5] != str(len(want[1])):
        return ("root", "root has class %s and size %s, expected an object of %d: %s" % (t[4], t[5], len(want[1]), where))
    i = 6
    d = dict(want[1])
    for k in keys:
        e = ["1"] + tokens(d[k]) if k in d else ["0"]
        if t[i:i + len(e)] != e:
            return ("value", "member %r is %s, expected %s: %s" % (k, t[i:i + len(e)][:60], e[:60], where))
        i += len(e)
    if t[i] != "T":
        return ("driver", "unexpected token " + t[i])
    return judge_texts(t[i + 1:], want, where)


def parse_case(rng, text, doc=None):
    if doc is None:
        try:
            doc = parse(text)
        except Bad:
            doc = None
    keys = [k for k, _ in doc[1]][:60] if doc else ["a", "pre", "k"]
    keys = list(dict.fromkeys(keys)) + ["pre", "no such key"]
    return "parse %d %d %d %d x%s %d %s" % (rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]), rng.choice([0, 0, 1, 2]), rng.random() < 0.1,
                                            rng.choice([0, 1, 2, 2, 4, 8]), text.encode().hex(), len(keys),
                                            " ".join("x" + k.encode().hex() for k in keys))


def f_canon_feats(text, f):
    for name, s in (("with escapes", "\\"), ("with \\u escapes", "\\u"), ("with arrays", "["), ("with exponents", "e+")):
        if s in text:
            f[name] += 1
