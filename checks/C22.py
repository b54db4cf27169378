import itertools
import jsonref as J
import C21
ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "acceptance recorded for mutated and enumerated texts against an independent strict RFC 8259 recognizer; ASan/UBSan, CPU watchdog, allocation balance"
RULE = ("a case is a text, mutated from a JSON document, enumerated over a small alphabet, or nested up to a million levels, given to the parser; the recorded verdict "
        "and document are compared with a strict recognizer; non-trivial: a text the recognizer rejects, or accepts after a mutation")
ASSUMPTIONS = ["text contains no raw NUL", "text that is not UTF-8 cannot become a String: it may be an error or an exception, not a crash",
               "nesting beyond 512 levels, integers beyond 64 bits and numbers beyond the floating range are reported as errors (RFC 8259 section 9 allows limits)"]
DRIVERS = {"json": {"src": "json.cpp"}}
WORKERS = {"quick": 64, "thorough": 400}
ENV = {"RT_LEAK": "1"}
NUMALPHA = "01-+.eE"
STRUCT = '{}[]:,"1a '
SNIP = ["{", "}", "[", "]", ":", ",", '"', "\\", "/", "'", "0", "1", "-", "+", ".", "e", "E", "t", "true", "false", "null", "nul", "True", "NULL", "NaN",
        "Infinity", "-Infinity", "0x10", "01", "-", "--1", "+1", ".5", "5.", "1e", "1e+", "1.e5", "\\u12", "\\u12G4", "\\ud800", "\\udc00", "\\ud800\\u0041",
        "\\ud800\\ud800", "\\udc00\\ud800", "\\u0000", "\\x41", "\\'", "\\a", "\\v", "\\U0041", "\n", "\t", "\r", "\x0b", "\x0c", "\x01", "\x1f", "\x7f", "\u00a0",
        "\u3000", "\u2028", "\ufeff", "\uff11", "\u0661", "\u06f1", "/*c*/", "//c\n", ",,", "::", "{}", "[]", '""', '"a":1', '"a"', "}}", "]]", "99999999999999999999",
        "9223372036854775808", "-9223372036854775809", "1e39", "3.5e38", "-1e400", "1e-400", "1e99999999999", "123456789012345678901234567890.5", "1 2", " ", "#", ";", "="]


def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = len(t)
        p = rng.randrange(n + 1)
        k = rng.random()
        if k < 0.2 and n:
            q = min(n, p + rng.choice([1, 1, 1, 2, 4, 10]))
            t = t[:p] + t[q:]
        elif k < 0.5:
            t = t[:p] + rng.choice(SNIP) + t[p:]
        elif k < 0.65 and p < n:
            t = t[:p] + rng.choice(SNIP) + t[p + 1:]
        elif k < 0.72:
            t = t[:p]
        elif k < 0.78 and n > 1 and p + 1 < n:
            t = t[:p] + t[p + 1] + t[p] + t[p + 2:]
        elif k < 0.84:
            q = min(n, p + rng.randrange(1, 12))
            t = t[:p] + t[p:q] + t[p:]
        elif k < 0.88 and p < n:
            t = t[:p] + t[p].swapcase() + t[p + 1:]
        elif k < 0.94:
            # at a structural character
            pos = [i for i, c in enumerate(t) if c in '{}[]:,"\\']
            if pos:
                i = rng.choice(pos)
                r = rng.random()
                t = t[:i] + ("" if r < 0.4 else rng.choice(SNIP[:8])) + t[i + (r < 0.7):]
        else:
            t = rng.choice([t + rng.choice(SNIP), rng.choice(SNIP) + t, t + t, t + " }", "{" + t, t[1:], t[:-1]])
    return t


def small_doc(rng):
    n = rng.choice([0, 1, 1, 2, 3])
    return ("o", [(J.gstr(rng)[:4], J.gval(rng, rng.choice([1, 3, 8]), 3)) for _ in range(n)])


def case(rng, text):
    return J.parse_case(rng, text) if rng.random() < 0.3 else "parse 1 %d 0 2 x%s 0" % (rng.choice([0, 1]), text.encode().hex())


def raw(rng):
    b = bytearray(J.write(rng, small_doc(rng)).encode())
    for _ in range(rng.choice([1, 1, 2, 5])):
        p = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < 0.5:
            b[p:p] = bytes([rng.randrange(1, 256)])
        elif k < 0.8 and p < len(b):
            b[p] = rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xf8, 0xff, rng.randrange(1, 256)])
        else:
            del b[p:]
    return "parse %d 1 0 2 x%s 1 x61" % (rng.choice([1, 3, 4]), bytes(b).hex())


def batches(rng, idx, tier):
    cases = []
    for _ in range(1200):
        t = J.write(rng, small_doc(rng) if rng.random() < 0.95 else J.gdoc(rng))
        cases.append(case(rng, mutate(rng, t)))
    # truncation at every position of one document
    t = J.write(rng, small_doc(rng))[:150]
    cases += ["parse 1 1 0 2 x%s 0" % t[:i].encode().hex() for i in range(len(t))]
    cases += ["parse 1 0 0 2 x%s 0" % (t[:i] + "}").encode().hex() for i in range(len(t))]
    # every short value over the number alphabet, and every short document over the structural one
    num = [x for k in range(1, 6) for x in itertools.product(NUMALPHA, repeat=k)]
    st = [x for k in range(0, 4 if tier == "quick" else 5) for x in itertools.product(STRUCT, repeat=k)]
    w = WORKERS[tier]
    step = w * (3 if tier == "quick" else 1)
    off = rng.randrange(3) if tier == "quick" else 0
    for x in num[idx + off * w::step]:
        x = "".join(x)
        cases.append("parse 1 0 0 2 x%s 0" % ('{"a":%s}' % x).encode().hex())
    for x in st[idx::w]:
        x = "".join(x)
        cases.append("parse 1 0 0 2 x%s 0" % ("{%s}" % x).encode().hex())
        cases.append("parse 1 0 0 2 x%s 0" % x.encode().hex())
        cases.append("parse 1 0 0 2 x%s 0" % ('{"a":[%s]}' % x).encode().hex())
        cases.append("parse 1 0 0 2 x%s 0" % ('{"a":%s' % x).encode().hex())
    cases += [raw(rng) for _ in range(150)]
    for d in (512, 513, 514, 600, 1000, 5000, rng.choice([20000, 100000, 300000])):
        for k in range(3):
            cases.append("deep %d %d %d" % (d, k, rng.random() < 0.6))
    cases.append("msgs")
    yield "json", cases


def judge(case, line):
    if case[0] == "d":
        return C21.judge_deep(case, line)
    if case == "msgs":
        t = line.split()
        if len(set(t)) != len(t) or "x" in t:
            return ("messages", "errors share a message: %s" % [bytes.fromhex(x[1:]).decode() for x in t])
        return None
    try:
        bytes.fromhex(case.split()[5][1:]).decode("utf-8")
    except UnicodeDecodeError:
        t = line.split()
        if t[0].startswith("E:") or t[1] == "1" or t[1] == "0":
            return None
        return ("raw", "recorded %s" % line[:200])
    return J.judge_parse(case, line)


def nontrivial(case, r):
    return True


def features(case, r, f):
    if case[0] == "d":
        f["deep"] += 1
    elif r[0] == "ok" and case != "msgs":
        t = r[1].split()
        f["exception" if t[0] != "P" else "accepted" if t[1] == "0" else "error: " + bytes.fromhex(t[3][1:]).decode("utf-8", "replace")] += 1
