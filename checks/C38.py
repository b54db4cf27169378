import functools
import itertools
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import rt
ID = "C38"
LEVEL = "exploration"
TECHNIQUE = ("programs run in builds by two compilers, five standards and three optimisation levels record what the configuration macros say, compared with the "
             "compiler's own answers, and use what each public header, included alone, groups")
RULE = "a case is one recorded macro, or the run of one header's program, in one configuration (compiler, standard, optimisation, header); all are non-trivial"
ASSUMPTIONS = ["x86-64 Linux, GCC 13 and Clang 18"]
STDS = {"c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002, "c++23": 202302}
PARTS = ["", "Algorithms", "Collections", "DateTime", "Threading", "System", "Utility", "Memory", "Numeric", "String", "IO", "File", "Error", "Caitlyn"]


@functools.lru_cache(None)
def facts(cxx, std):
    """What the compiler says about itself, without the library: its name and version, and the standard it implements."""
    p = subprocess.run([cxx, "-std=" + std, "-dM", "-E", "-x", "c++", "/dev/null"], stdout=subprocess.PIPE, text=True, timeout=60)
    d = dict(re.findall(r"#define (\w+) (.*)", p.stdout))
    if p.returncode or "__GNUC__" not in d:
        raise rt.Inconclusive("%s does not list its macros" % cxx)
    return int(d["__cplusplus"].rstrip("L")), ("Clang %s.%s clang" % (d["__clang_major__"], d["__clang_minor__"])) if "__clang__" in d else ("GCC %s.%s gcc" % (d["__GNUC__"], d["__GNUC_MINOR__"]))


def expected(cfg):
    standard, compiler = facts(*cfg[:2])
    on = [int(standard >= v) for v in STDS.values()]  # an unfinished C++23 (__cplusplus of 202100) is not yet C++23
    return {"std": str(standard), "has": "".join(map(str, on)),
            "constexpr": ",".join("constexpr" if k else "" for k in on),
            "others": "noexcept,%s,%s" % (("inline", "[[nodiscard]]") if on[2] else ("", "")),
            "immediate": "consteval,constinit" if on[3] else ",",
            "reason": '[[nodiscard("why")]]' if on[3] else "",
            "arch": "64 x86-64", "os": "Linux linux unix", "word": "64", "compiler": compiler}


def program(cfg, part):
    cxx, std, opt, h = cfg
    return rt.build(rt.harness("config.cpp"), flags=[opt], cxx=cxx, std=std, name="config%d" % part, link=("-pthread", "-ltbb") if cxx == "g++" else ("-pthread",),
                    extra=('-DCONFIG_HEADER="Caitlyn/%s"' % h, "-DPART=%d" % part, "-DSTD=%d" % max([11] + [int(k[3:]) for k, v in STDS.items() if facts(cxx, std)[0] >= v])))


def one(job):
    cfg, part = job
    try:
        exe = program(cfg, part)
    except rt.DoesNotCompile as e:
        return ("missing", "what Caitlyn/%s groups is not available: %s" % (cfg[3], e.first)), []
    except rt.Inconclusive as e:
        return None, str(e)
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    if p.returncode:
        return ("run", "exit status %d: %s" % (p.returncode, p.stdout[-400:])), []
    return None, [l for l in p.stdout.split("\n") if l] if part == 0 else ["%s: used" % cfg[3]]


def problems(cfg, lines):
    got = dict(l.split("=", 1) for l in lines)
    want = expected(cfg)
    for k in sorted(want):
        if got.get(k) != want[k]:
            yield (k, "%s: recorded %s=%s, expected %s" % (" ".join(cfg), k, got.get(k), want[k]))
    text, a, b, c = got["version"].rsplit(" ", 3)
    if text != "Caitlyn %s.%s.%s" % (a, b, c):
        yield ("version", "%s: version %s of %s, %s, %s" % (" ".join(cfg), text, a, b, c))


def run():
    rep = rt.Report(ID, LEVEL, RULE, ASSUMPTIONS)
    rng = random.Random("%s/%d" % (ID, rep.seed))
    hs = [h for h in PARTS[1:] if os.path.isfile(os.path.join(rt.INC, "Caitlyn", h))]
    pairs = list(itertools.product(("g++", "clang++"), STDS))
    opts = ("-O0", "-O2", "-O3")
    jobs = []
    for c in pairs:
        for h in hs if rep.thorough else rng.sample(hs, 2):
            jobs.append((c + (rng.choice(opts), h), 0))
        for k, h in enumerate(PARTS):
            if k and h in hs:
                for o in opts if rep.thorough else [rng.choice(opts)]:
                    jobs.append((c + (o, h), k))
    unbuilt = []
    with ThreadPoolExecutor(rt.NPROC) as ex:
        for (cfg, part), (bad, lines) in zip(jobs, ex.map(one, jobs)):
            if isinstance(lines, str):
                unbuilt.append(lines)
                continue
            payload = {"cfg": list(cfg), "part": part}
            if bad:
                rep.violation(bad[0] + ":" + cfg[3], "%s: %s" % (" ".join(cfg), bad[1]), payload)
            for l in lines:
                rep.evaluations += 1
                rep.distinct.add(rt.h64(" ".join(cfg), l.split("=")[0]))
                if len(rep.samples) < 8 and rng.random() < 0.05:
                    rep.samples.append({"case": " ".join(cfg), "observed": l})
            rep.features["%s %s, %s" % (cfg[:2] + ("headers used" if part else "macros recorded",))] += 1
            if part == 0 and lines:
                for v in problems(cfg, lines):
                    rep.violation(v[0], v[1], payload)
    rc = rep.finish()
    if rc != 1 and unbuilt:
        print("inconclusive: " + unbuilt[0])
        return 2
    return rc


def replay(payload):
    cfg = tuple(payload["cfg"])
    bad, lines = one((cfg, payload["part"]))
    found = [bad] if bad else list(problems(cfg, lines)) if payload["part"] == 0 and not isinstance(lines, str) else []
    for b in found:
        print("VIOLATION", *b)
    return 1 if found else 0
