import itertools
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor
import rt
ID = "C37"
LEVEL = "exploration"
TECHNIQUE = ("a program run in builds by two compilers, five standards, three optimisation levels and every public header records size, signedness and the values "
             "each alias stores, compared with independent expectations")
RULE = ("a case is one alias in one configuration (compiler, standard, optimisation, public header it is reached through); what it stores of 17 boundary values is "
        "recorded; all are non-trivial")
ASSUMPTIONS = ["x86-64 Linux"]
WIDTH = {"SByte": -1, "Byte": 1, "Int8": -1, "UInt8": 1, "Int16": -2, "UInt16": 2, "Int32": -4, "UInt32": 4, "Int64": -8, "UInt64": 8, "Int": -4, "UInt": 4, "IntMax": -8,
         "UIntMax": 8, "IntPtr": -8, "UIntPtr": 8, "SSizeType": -8, "SizeType": 8, "PtrDiff": -8, "CodePoint": 4, "StdChar": -1, "Char16": 2, "Char32": 4, "WChar": -4}
PROBES = [0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x10FFFF, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807]
REAL = {"Float": ["4", "1", "2", "24", "1"], "Double": ["8", "1", "2", "53", "1"], "Decimal": ["16", "1", "2", "64", "0"]}


def expected(name, std):
    w = WIDTH[name] if name != "Char8" else 1 if std in ("c++20", "c++23") else -1
    n = abs(w)
    out = [str(n), "1" if w < 0 else "0", "1"]
    for p in PROBES:
        v = p & ((1 << 8 * n) - 1)
        if (w < 0 or n == 8) and v >> (8 * n - 1):  # printed as a signed 64-bit number
            v -= 1 << 8 * n
        out.append(str(v))
    return out + ["1" if w < 0 else "0"]


def headers():
    return sorted(f for f in os.listdir(rt.INC + "/Caitlyn") if not f.startswith("__") and os.path.isfile(os.path.join(rt.INC, "Caitlyn", f)))


def one(cfg):
    cxx, std, opt, h = cfg
    try:
        exe = rt.build(rt.harness("types.cpp"), flags=[opt], cxx=cxx, std=std, extra=('-DCONFIG_HEADER="Caitlyn/%s"' % h,), name="types", link=("-ltbb",) if cxx == "g++" else ())
    except rt.DoesNotCompile:
        raise
    except rt.Inconclusive as e:
        return str(e)
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    return p.stdout.split("\n") if p.returncode == 0 else "exit status %d: %s" % (p.returncode, p.stdout[-500:])


def problems(cfg, lines):
    seen = set()
    for l in lines:
        t = l.split(" ")
        if not l:
            continue
        seen.add(t[0] + (" " + t[1] if t[0] == "same" else ""))
        if t[0] == "same":
            want = ["same", t[1], "1"]
        elif t[0] == "pointer":
            want = ["pointer", "1", "7"]
        elif t[0] in REAL:
            want = [t[0]] + REAL[t[0]]
        else:
            want = [t[0]] + expected(t[0], cfg[1])
        if t != want:
            yield ("%s:%s" % (t[0], t[1] if t[0] == "same" else ""), "%s: recorded %s, expected %s" % (" ".join(cfg), l, " ".join(want)))
    if len(seen) != len(WIDTH) + 1 + 3 + 18 + 1:
        yield ("records", "%s: %d records: %s" % (" ".join(cfg), len(seen), sorted(seen)))


def run():
    rep = rt.Report(ID, LEVEL, RULE, ASSUMPTIONS)
    rng = random.Random("%s/%d" % (ID, rep.seed))
    hs = headers()
    full = list(itertools.product(("g++", "clang++"), ("c++11", "c++14", "c++17", "c++20", "c++23"), ("-O0", "-O2", "-O3"), hs))
    cfgs = full if rep.thorough else [c[:2] + (rng.choice(("-O0", "-O2", "-O3")), rng.choice(hs)) for c in sorted({c[:2] for c in full}) for _ in range(3)]
    unbuilt = []
    with ThreadPoolExecutor(rt.NPROC) as ex:
        for cfg, r in zip(cfgs, ex.map(one, cfgs)):
            if isinstance(r, str):
                if r.startswith("exit"):
                    rep.violation("run", "%s: %s" % (" ".join(cfg), r), {"cfg": list(cfg)})
                else:
                    unbuilt.append(r)
                continue
            for l in r:
                if l:
                    rep.evaluations += 1
                    rep.distinct.add(rt.h64(" ".join(cfg), l.split(" ")[0]))
                    if len(rep.samples) < 8 and rng.random() < 0.02:
                        rep.samples.append({"case": " ".join(cfg), "observed": l})
            rep.features["%s %s" % cfg[:2]] += 1
            for v in problems(cfg, r):
                rep.violation(v[0], v[1], {"cfg": list(cfg)})
    rc = rep.finish()
    if rc != 1 and unbuilt:
        print("inconclusive: " + unbuilt[0])
        return 2
    return rc


def replay(payload):
    cfg = tuple(payload["cfg"])
    r = one(cfg)
    bad = [(r,)] if isinstance(r, str) else list(problems(cfg, r))
    for b in bad:
        print("VIOLATION", *b)
    return 1 if bad else 0
