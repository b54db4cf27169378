"""Runs the workloads of other checks in several environments and compares what each case records."""
import collections
import importlib
import random
import time
from concurrent.futures import ThreadPoolExecutor
import rt

# workload name: (checks that generate its cases, driver, extra flags)
SRC = {"str1": (["C01", "C02", "C03", "C04"], "str1.cpp", ()), "char": (["C05", "C06", "C07"], "char.cpp", ()), "fmt": (["C08"], "fmt.cpp", ()),
       "sb": (["C09"], "sb.cpp", ()), "io": (["C10"], "io.cpp", ()), "file": (["C11", "C12"], "file.cpp", ()),
       "big": (["C14", "C15", "C16"], "big.cpp", ()), "exp0": (["C17"], "expected.cpp", ("-DGROUP=0",)),
       "exp1": (["C17"], "expected.cpp", ("-DGROUP=1",)), "exp2": (["C17"], "expected.cpp", ("-DGROUP=2",)),
       "exp3": (["C17"], "expected.cpp", ("-DGROUP=3",)), "exp4": (["C17"], "expected.cpp", ("-DGROUP=4",)), "ptr": (["C19"], "ptr.cpp", ()), "json": (["C21", "C22", "C23"], "json.cpp", ()),
       "testing": (["C24"], "testing.cpp", ()), "cmp": (["C26"], "cmp.cpp", ()), "util": (["C27"], "util.cpp", ())}


def cases_of(rng, name, n, maxlen=3000):
    pool = []
    for m in SRC[name][0]:
        mod = importlib.import_module(m)
        mine = []
        for dname, cs in mod.batches(rng, rng.randrange(mod.WORKERS["quick"]), "quick"):
            if dname == name:
                mine += [c for c in cs if len(c) < maxlen]
        k = n // len(SRC[name][0])
        pool += rng.sample(mine, min(len(mine), k))
    return pool


def diff(a, b):
    """The first differing part of two records."""
    d = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, d - 60):d + 160], b[max(0, d - 60):d + 160]


class Variant:
    """How the workload is run: environment, compiler flags, a command that runs the driver, and the share of the cases it gets."""

    def __init__(self, env=None, flags=None, prefix=(), share=1.0, cxx="clang++"):
        self.env, self.flags, self.prefix, self.share, self.cxx = dict(env or {}), flags, list(prefix), share, cxx


def exe_for(n, v, flags):
    return rt.build(rt.harness(SRC[n][1]), flags=v.flags or flags, extra=SRC[n][2], name=n, cxx=v.cxx)


def run(mod, names, variants, count, flags=rt.ASAN, ref_env=None, step=250):
    """variants: {label: Variant}. A case whose record is not the same in two runs of the reference is not compared."""
    rep = rt.Report(mod.ID, mod.LEVEL, mod.RULE, mod.ASSUMPTIONS)
    rng = random.Random("%s/%d" % (mod.ID, rep.seed))
    plain = Variant()
    with ThreadPoolExecutor(rt.NPROC) as ex:
        bf = {(n, k): ex.submit(exe_for, n, v, flags) for n in names for k, v in [("", plain)] + list(variants.items())}
        cases = {n: cases_of(rng, n, count) for n in names}
        exes = {n: f.result() for n, f in bf.items()}
        found = [0.0]

        def go(n, lo):
            part = cases[n][lo:lo + step]
            env = dict(ref_env or {})
            a = rt.run_driver(exes[n, ""], part, env)
            b = rt.run_driver(exes[n, ""], part, env)
            out = []
            for label, v in variants.items():
                if found[0] and time.time() - found[0] > rt.GRACE:
                    break
                e = dict(env)
                e.update(v.env)
                idx = [i for i in range(len(part)) if rt.h64(label, part[i]) % 1000 < 1000 * v.share]
                got = rt.run_driver(v.prefix + [exes[n, label]], [part[i] for i in idx], e)
                idx = [i for i in idx if i < len(a) and i < len(b)]
                out.append((label, idx, got))
                if any(a[i] != z for i, z in zip(idx, got)) and not found[0]:
                    found[0] = time.time()
            return part, a, b, out
        futs = [(n, ex.submit(go, n, lo)) for n in names for lo in range(0, len(cases[n]), step)]
        for n, f in futs:
            part, a, b, out = f.result()
            for label, idx, got in out:
                for i, z in zip(idx, got):
                    case, x, y = part[i], a[i], b[i]
                    if x[0] != "ok" or x != y:
                        rep.features["cases not compared (crash or not repeatable)"] += 1
                        continue
                    rep.evaluations += 1
                    rep.features["cases compared, %s" % label] += 1
                    if x[1].count(" ") >= 1:
                        rep.distinct.add(rt.h64(n, label, case))
                    if z != x:
                        p, q = diff(x[1], z[1] if z[0] == "ok" else "%s %s" % (z[0], z[-1]))
                        if z[0] != "ok":
                            p, q = x[1][:160], "%s %s\n%s" % (z[0], z[1], z[-1][:1200])
                        rep.violation("%s:%s" % (z[1] if z[0] != "ok" else "differs", n),
                                      "%s: case %s records ...%s otherwise but ...%s here" % (label, case[:500], p, q),
                                      {"workload": n, "label": label, "cases": [case]})
            if len(rep.samples) < 6 and part:
                rep.samples.append({"workload": n, "case": part[0][:200], "observed": str(a[0][1])[:200]})
    return rep.finish()


def replay(mod, payload, v, flags=rt.ASAN, ref_env=None):
    n = payload["workload"]
    bad = 0
    for c in payload["cases"]:
        e = dict(ref_env or {})
        a = rt.run_driver(exe_for(n, Variant(), flags), [c], e)[0]
        e.update(v.env)
        b = rt.run_driver(v.prefix + [exe_for(n, v, flags)], [c], e)[0]
        print("case: %s\nreference: %s\n%s: %s" % (c, a, payload["label"], b))
        bad += a != b
    print("VIOLATION" if bad else "holds")
    return 1 if bad else 0
