import os
import re
import shutil
import subprocess
import rt
from gens import hx
ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "execution event log, report and exit status of generated test programs against a model of the suites, ASan/UBSan"
RULE = ("a case is a generated suite of 0-40 tests, each a script of marks, assertions and exceptions, run by the library's registry in its own process (once or twice); "
        "recorded executions, report and exit status are compared with the script's outcome; non-trivial: at least one passing and one failing test")
ASSUMPTIONS = ["tests do not register tests, end the process, or change the state of std::cout", "a failing assertion may evaluate its arguments again for its message",
               "FAIL_MESSAGE() is used with a message"]
DRIVERS = {"testing": {"src": "testing.cpp"}}
WORKERS = {"quick": 64, "thorough": 400}


def s_(rng):
    return hx(rng.choice(["", "a", "abc", "abd", "ab", "\u00e9", "zz", "a b", "\U0001f600", "A"]))


def msg(rng):
    k = rng.random()
    if k < 0.3:
        return hx("plain failure %d" % rng.randrange(100))
    if k < 0.5:
        return hx(rng.choice(["", "line\nbreak", "tab\t", "\u00fcber", "{} {0}", "%s%n", "\U0001f600", "x" * 3000]))
    b = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 5, 30]))).replace(b"\n", b"_")
    if rng.random() < 0.5:
        b = rng.choice([b"\x80", b"\xff", b"\xc3", b"abc\xe2\x82", b"\xf0\x9f", b"\xed\xa0\x80", b"\xfe\xff caf\xe9"])
    return "x" + b.hex()


def assertion(rng, want):
    """Tokens of an assertion and whether it passes."""
    while True:
        k = rng.choice(["true", "false", "pass", "fail", "msg", "streq", "elset", "elsef"] + ["eq", "ne", "lt", "le", "gt", "ge", "pr"] * 3)
        if k == "true":
            b = rng.randrange(2)
            t, r = [k, str(b)], bool(b)
        elif k == "false":
            b = rng.randrange(2)
            t, r = [k, str(b)], not b
        elif k in ("pass", "fail"):
            t, r = [k], k == "pass"
        elif k == "msg":
            t, r = [k, msg(rng)], False
        elif k in ("elset", "elsef"):
            f, v = rng.randrange(2), rng.randrange(2)
            t, r = [k, str(f), str(v)], (not f) or (v == (k == "elset"))
        elif k == "streq":
            a, b = rng.choice(["N", s_(rng), s_(rng)]), rng.choice(["N", s_(rng), s_(rng)])
            if rng.random() < 0.4:
                b = a
            t, r = [k, a, b], a == b
        else:
            ty = rng.choice("iludsS")
            if ty in "sS":
                a, b = s_(rng), s_(rng)
                if rng.random() < 0.4:
                    b = a
                x, y = bytes.fromhex(a[1:]), bytes.fromhex(b[1:])
            elif ty == "d":
                a, b = rng.choice(["0", "-0", "1.5", "-1.5", "1e300", "-1e-300", "inf", "-inf", "nan"]), rng.choice(["0", "-0", "1.5", "-1.5", "inf", "nan", "2"])
                x, y = float(a), float(b)
            else:
                pool = {"i": [0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31], "l": [0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 32], "u": [0, 1, 2 ** 64 - 1, 2 ** 63, 5]}[ty]
                x, y = rng.choice(pool), rng.choice(pool)
                if rng.random() < 0.3:
                    y = x
                a, b = str(x), str(y)
            t = [k, ty, a, b]
            r = {"eq": x == y, "pr": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]
        if want is None or r == want:
            return ["A"] + t, r


def script(rng):
    t = []
    n = rng.choice([0, 1, 1, 2, 3, 6])
    bad = rng.random() < 0.4
    for i in range(n):
        k = rng.random()
        if k < 0.2:
            t += ["m", str(rng.randrange(100))]
        elif k < 0.3:
            t += ["C", rng.choice(["rt", "in", "ns", "nest", "cu"]), msg(rng)]
        else:
            t += assertion(rng, True)[0]
    if bad:
        if rng.random() < 0.5:
            t += assertion(rng, False)[0]
        else:
            t += ["T", rng.choice(["rt", "lg", "cu", "ba", "in", "cs", "ss", "ns", "io", "ca", "nest", "at"]), msg(rng)]
            if t[-2] == "ca":
                t[-1] = hx("text")
        t += ["m", "999"]
    return t


def gen(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 15, 40])
    suites = [rng.choice(["Suite", "A", "B", "\u00fcnit", "Math<int>", "a", "Z", "S"]) + str(i) for i in range(rng.choice([1, 1, 2, 4, 8]))]
    out = ["s", str(rng.choice([1, 1, 1, 2])), str(n)]
    allgood = rng.random() < 0.25
    for i in range(n):
        s = rng.choice(suites)
        name = rng.choice(["T%d" % i, "same", "T\u00e9st%d" % i])
        sc = script(rng)
        while allgood and outcome(sc)[1] is False:
            sc = script(rng)
        out += [hx(s), hx(name), str(len(sc))] + sc
    return " ".join(out)


def ok_(a):
    k = a[0]
    if k in ("true", "pass"):
        return k == "pass" or a[1] == "1"
    if k == "false":
        return a[1] == "0"
    if k in ("fail", "msg"):
        return False
    if k in ("elset", "elsef"):
        return a[1] == "0" or (a[2] == "1") == (k == "elset")
    if k == "streq":
        return a[1] == a[2]
    ty = a[1]
    if ty in "sS":
        x, y = bytes.fromhex(a[2][1:]), bytes.fromhex(a[3][1:])
    else:
        f = float if ty == "d" else int
        x, y = f(a[2]), f(a[3])
    return {"eq": x == y, "pr": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]


NARGS = {"true": 1, "false": 1, "pass": 0, "fail": 0, "msg": 1, "elset": 2, "elsef": 2, "streq": 2}


def outcome(sc):
    """Expected events (a pattern) and result of a script, and the message a failure must mention."""
    ev = []
    i = 0
    while i < len(sc):
        k = sc[i]
        if k == "m":
            ev.append("m" + sc[i + 1])
            i += 2
        elif k == "C":
            i += 3
        elif k == "T":
            m = bytes.fromhex(sc[i + 2][1:]) if sc[i + 1] in ("rt", "lg", "cu") else b""
            return ev + ["c"], False, m
        else:
            a = sc[i + 1:i + 2 + NARGS.get(sc[i + 1], 3)]
            ev.append("b")
            good = ok_(a)
            ne = {"true": 1, "false": 1, "pass": 0, "fail": 0, "msg": 0, "elset": 0, "elsef": 0}.get(a[0], 2)
            if not good:
                return ev + ["e+"] * (ne > 0) + ["c"], False, bytes.fromhex(a[1][1:]) if a[0] == "msg" else b"Assertion failed"
            ev += ["e"] * ne + (["else"] if a[0] in ("elset", "elsef") and a[1] == "0" else []) + ["a"]
            i += 1 + len(a)
    return ev + ["z", "c"], True, b""


def parse(case):
    t = case.split()
    i = 3
    tests = []
    for _ in range(int(t[2])):
        n = int(t[i + 2])
        tests.append((bytes.fromhex(t[i][1:]), bytes.fromhex(t[i + 1][1:]), t[i + 3:i + 3 + n]))
        i += 3 + n
    return int(t[1]), tests


def match(pat, ev):
    j = 0
    for p in pat:
        if p == "e+":
            n = j
            while j < len(ev) and ev[j] == "e":
                j += 1
            if j == n:
                return False
        else:
            if j >= len(ev) or ev[j] != p:
                return False
            j += 1
    return j == len(ev)


def judge_report(text, tests, res, where):
    """tests: (suite, name); res: (passed, message)."""
    np = sum(r[0] for r in res)
    nf = len(res) - np
    ns = len(set(s for s, _ in tests))
    m = re.search(rb"^\[==========\] Running (\d+) tests from (\d+) test cases", text, re.M)
    if not m or (int(m[1]), int(m[2])) != (len(tests), ns):
        return ("report:running", "announces %s, expected %d tests from %d suites; %s" % (m and m[0], len(tests), ns, where))
    m = re.search(rb"^\[  PASSED  \] (\d+) test", text, re.M)
    if (int(m[1]) if m else 0) != np:
        return ("report:passed", "reports %s passed, %d passed; %s" % (m and m[1], np, where))
    m = re.search(rb"^\[  FAILED  \] (\d+) test", text, re.M)
    if (int(m[1]) if m else 0) != nf:
        return ("report:failed", "reports %s failed, %d failed; %s" % (m and m[1], nf, where))
    m = re.search(rb"^(\d+) FAILED TEST", text, re.M)
    if not m or int(m[1]) != nf:
        return ("report:total", "final line reports %s failed, %d failed; %s" % (m and m[1], nf, where))
    import collections
    full = [s + b"." + n for s, n in tests]

    def count(tag):
        return collections.Counter(x for x in (l[len(tag):].rsplit(b" (", 1)[0] for l in text.split(b"\n") if l.startswith(tag)))
    run = count(b"[ RUN      ] ")
    if run != collections.Counter(full):
        return ("report:run", "lists as run %s, expected %s; %s" % (dict(run), full, where))
    good = count(b"[       OK ] ")
    if good != collections.Counter(f for f, r in zip(full, res) if r[0]):
        return ("report:ok", "lists as passed %s; %s" % (dict(good), where))
    bad = count(b"[     FAIL ] ")
    expbad = collections.Counter(f for f, r in zip(full, res) if not r[0])
    if bad != expbad:
        return ("report:fail", "lists as failed %s; %s" % (dict(bad), where))
    tail = count(b"[  FAILED  ] ")
    for f, k in expbad.items():
        if tail.get(f, 0) != k:
            return ("report:summary", "the summary lists %s, expected %s; %s" % (dict(tail), dict(expbad), where))
    if set(tail) - set(expbad) - {x for x in tail if re.match(rb"\d+ tests?, listed", x)}:
        return ("report:summary", "the summary lists %s, expected %s; %s" % (dict(tail), dict(expbad), where))
    for (s, n), (p, msg_) in zip(tests, res):
        if not p and msg_ and msg_ not in text:
            return ("report:message", "the failure message %r of %r is not reported; %s" % (msg_, n, where))
    return None


def judge(case, line):
    runs, tests = parse(case)
    t = line.split()
    where = "case %s" % case[:900]
    out = [outcome(sc) for _, _, sc in tests]
    res = [(o[1], o[2]) for o in out]
    rc = 0 if all(r[0] for r in res) else 1
    if t[0] != "X" or t[1] != str(rc):
        return ("status", "the process ended with %s %s, expected exit %d; %s" % (t[0], t[1], rc, where))
    ev = t[3:]
    i = 0
    for r in range(runs):
        j = ev.index("R%d" % rc, i) if "R%d" % rc in ev[i:] else None
        if j is None:
            return ("result", "RunAll number %d did not return %d: %s; %s" % (r + 1, rc, ev[i:][-5:], where))
        seg = ev[i:j]
        i = j + 1
        starts = [k for k, x in enumerate(seg) if x[0] == "t"]
        if starts and starts[0] != 0:
            return ("events", "events before the first test: %s; %s" % (seg[:5], where))
        seen = set()
        for a, b in zip(starts, starts[1:] + [len(seg)]):
            k = int(seg[a][1:])
            if k in seen:
                return ("twice", "test %d ran twice; %s" % (k, where))
            seen.add(k)
            if not match(out[k][0], seg[a + 1:b]):
                return ("execution", "test %d (%s) recorded %s, expected %s; %s" % (k, " ".join(tests[k][2])[:200], seg[a + 1:b][:30], out[k][0][:30], where))
        if len(seen) != len(tests):
            return ("missing", "%d of %d tests ran; %s" % (len(seen), len(tests), where))
    if i != len(ev):
        return ("events", "events after the run: %s; %s" % (ev[i:i + 5], where))
    texts = bytes.fromhex(t[2][1:]).split(b"\n@@END\n")
    for r in range(runs):
        v = judge_report(texts[r], [(s, n) for s, n, _ in tests], res, "run %d of %s" % (r + 1, where))
        if v:
            return v
    return None


def batches(rng, idx, tier):
    yield "testing", [gen(rng) for _ in range(80)]


def nontrivial(case, r):
    o = [outcome(sc)[1] for _, _, sc in parse(case)[1]]
    return any(o) and not all(o)


def features(case, r, f):
    runs, tests = parse(case)
    f["tests"] += len(tests)
    f["run twice"] += runs == 2
    f["failing tests"] += sum(not outcome(sc)[1] for _, _, sc in tests)
    for _, _, sc in tests:
        for a, b in zip(sc, sc[1:]):
            if a in "AT":
                f[a + " " + b] += 1


# ---------------------------------------------------------------- programs written with the macros
def program(rng, d):
    """Three translation units of TEST and TEST_F; returns the expected outcome of every test."""
    exp = {}
    n = 0
    for u in range(3):
        src = ['#include <Caitlyn/__Testing/Macro.h>', '#include <cstdio>', '#include <string>', '#include "ev.h"']
        src.append("struct Fix%d { int n = 5; std::string s{\"init\"}; Fix%d() { ev(\"ctor\"); } ~Fix%d() { ev(\"dtor\"); } int Inc() { return ++n; } };" % (u, u, u))
        src.append("template <typename T> struct Gen%d { T a{}; T b{}; void Set(T x, T y) { a = x; b = y; } };" % u)
        for _ in range(rng.randrange(3, 9)):
            n += 1
            good = rng.random() < 0.6
            kind = rng.randrange(3)
            if kind == 0:
                suite, name = "Plain%d" % rng.randrange(3), "Test%d" % n
                src.append("TEST(%s, %s)\n{\n    ev(\"run %s.%s\");\n    ASSERT_EQ(%d, 7);\n    ev(\"end\");\n}" % (suite, name, suite, name, 7 if good else 8))
                e = ["run %s.%s" % (suite, name)] + (["end"] if good else [])
            elif kind == 1:
                suite, name = "Fix%d" % u, "Case%d" % n
                src.append("TEST_F(Fix%d, %s)\n{\n    ev(\"run %s.%s\");\n    ASSERT_EQ(Inc(), 6);\n    ASSERT_EQ(s, std::string(\"init\"));\n    s = \"dirty\";\n    %s\n    ev(\"end\");\n}"
                           % (u, name, suite, name, rng.choice(["ASSERT_TRUE(n == 6);", "PASS();", "ASSERT_NE(n, 5);"]) if good else
                              rng.choice(["FAIL();", "throw 3;", "FAIL_MESSAGE() << \"no\";", "ASSERT_STREQ(\"a\", \"b\");", "ASSERT_STREQ(nullptr, \"b\");"])))
                e = ["ctor", "run %s.%s" % (suite, name)] + (["end"] if good else []) + ["dtor"]
            else:
                suite, name = "Gen%d<int>" % u, "Temp%d" % n
                src.append("TEST_F(Gen%d<int>, %s)\n{\n    ev(\"run %s.%s\");\n    ASSERT_EQ(a + b, 0);\n    Set(1, 2);\n    ASSERT_EQ(a + b, %d);\n    ev(\"end\");\n}" % (u, name, suite, name, 3 if good else 4))
                e = ["run %s.%s" % (suite, name)] + (["end"] if good else [])
            exp[suite + "." + name] = (good, e)
        with open(os.path.join(d, "u%d.cpp" % u), "w") as f:
            f.write("\n".join(src) + "\n")
    with open(os.path.join(d, "ev.h"), "w") as f:
        f.write('#pragma once\n#include <cstdio>\ninline void ev(const char* s) { std::fprintf(stderr, "EV %s\\n", s); }\n')
    with open(os.path.join(d, "main.cpp"), "w") as f:
        f.write("#include <Caitlyn/__Testing/Macro.h>\nint main() { return Caitlyn::Test::TestRegistry::Instance().RunAll(); }\n")
    return exp


def macro_program(seed, k):
    import random
    rng = random.Random("C24/program/%s/%d" % (seed, k))
    d = rt.scratch("c24")
    try:
        exp = program(rng, d)
        cxx = ["clang++", "g++"][k % 2]
        flags = ["-std=c++%s" % ["11", "14", "17"][k % 3], "-O0", "-I" + os.path.join(rt.REPO, "include")]
        ps = [subprocess.Popen([cxx] + flags + ["-c", s, "-o", s + ".o"], cwd=d, stderr=subprocess.PIPE) for s in ("u0.cpp", "u1.cpp", "u2.cpp", "main.cpp")]
        errs = [p.communicate()[1] for p in ps]
        if any(p.returncode for p in ps):
            return exp, ("program:compile", "a test program does not compile with %s: %s" % (" ".join([cxx] + flags), b"".join(errs)[:1500].decode("utf-8", "replace")))
        p = subprocess.run([cxx, "-o", "prog", "u0.cpp.o", "u1.cpp.o", "u2.cpp.o", "main.cpp.o"], cwd=d, capture_output=True)
        if p.returncode:
            return exp, ("program:link", "a test program of three units does not link: %s" % p.stderr[:1500].decode("utf-8", "replace"))
        p = subprocess.run(["./prog"], cwd=d, capture_output=True, timeout=60)
        good = all(v[0] for v in exp.values())
        where = "generated program %d (%s)" % (k, " ".join([cxx] + flags))
        if p.returncode != (0 if good else 1):
            return exp, ("program:status", "exit status %s, expected %d; %s" % (p.returncode, not good, where))
        ev = [l[3:] for l in p.stderr.decode().split("\n") if l.startswith("EV ")]
        want = sorted(x for v in exp.values() for x in v[1])
        if sorted(ev) != want:
            return exp, ("program:events", "recorded %s, expected %s; %s" % (ev[:60], want[:60], where))
        names = [tuple(x.encode().rsplit(b".", 1)) for x in exp]
        v = judge_report(p.stdout, names, [(g, b"") for g, _ in exp.values()], where)
        return exp, v and ("program:" + v[0], v[1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def finish(rep):
    from concurrent.futures import ThreadPoolExecutor
    n = 6 if not rep.thorough else 60
    with ThreadPoolExecutor(4) as ex:
        for k, (exp, v) in enumerate(ex.map(lambda k: macro_program(rep.seed, k), range(n))):
            rep.evaluations += 1
            rep.distinct.add(rt.h64("program", repr(exp)))
            rep.features["tests in generated programs"] += len(exp)
            if v:
                rep.violation(v[0], v[1], {"program": k, "seed": rep.seed})


def replay(payload):
    if "program" in payload:
        exp, v = macro_program(payload["seed"], payload["program"])
        print("verdict:", v or "holds")
        return 1 if v else 0
    return rt.replay_cases(__import__("C24"), payload)
