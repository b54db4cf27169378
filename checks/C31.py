"""C31: real processes started with generated argument vectors; what the application object reports is recorded."""
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import rt
ID = "C31"
LEVEL = "exploration"
TECHNIQUE = "real processes with generated argument vectors and initialisation scripts; reported arguments against the vector, ASan/UBSan over freed originals"
RULE = ("a case is a process: an argument vector of 0-40 byte strings and a script of initialisation attempts, changes to and freeing of the original arrays, and reports, "
        "optionally after initialisation before main; non-trivial: at least one argument beyond the program's name and one later attempt")
ASSUMPTIONS = ["arguments contain no NUL (POSIX)", "initialisation is attempted from one thread"]
FLAGS = [f for f in rt.ASAN]


def build():
    return [rt.build([rt.harness("app_early.cpp"), rt.harness("app.cpp")], name="app"),
            rt.build([rt.harness("app.cpp"), rt.harness("app_early.cpp")], name="app-gcc", cxx="g++", std="c++17")]


def defined_version():
    """What the configuration macros define, evaluated by the compiler."""
    src = '#include "Caitlyn/__Caitlyn/Config.h"\nV __CAITLYN_MAJOR_VERSION__ __CAITLYN_MINOR_VERSION__ __CAITLYN_PATCH_VERSION__\n'
    r = subprocess.run(["g++", "-E", "-P", "-std=c++11", "-I" + rt.INC, "-x", "c++", "-"], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"^V (\d+) (\d+) (\d+)$", r.stdout, re.M)
    if not m:
        raise rt.Inconclusive("no version macros: " + r.stdout[-500:])
    return "%s.%s.%s" % m.groups()


def gen_arg(rng):
    k = rng.random()
    if k < 0.15:
        return b""
    if k < 0.5:
        return bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 2, 7, 8, 15, 16, 23, 24, 31, 100])))
    if k < 0.6:
        return bytes(rng.randrange(1, 256) for _ in range(rng.choice([1000, 4096, 70000])))
    return rng.choice(["--help", "-x", "\u00fcber", "\U0001f600", "a b", "\n", "%s%n", "{}", "--", "#", "other"]).encode()


def gen(rng):
    n = rng.choice([0, 1, 2, 3, 3, 5, 8, 17, 40])
    args = [gen_arg(rng) for _ in range(n)]
    if rng.random() < 0.01:
        args = [rng.choice([b"", b"a", b"%d" % i]) for i in range(rng.choice([255, 256, 257, 1000, 32768, 65535, 65536, 70001]))]
    early = rng.choice([None, None, None, "i", "a"])
    ops = [rng.choice("iaaaa1nx")] + [rng.choice("iaanxmmffrrrv") for _ in range(rng.randrange(1, 14))] + ["r", "v"]
    if rng.random() < 0.2:
        ops = [rng.choice("mfrv") for _ in range(rng.randrange(1, 3))] + ops
    return {"args": [a.hex() for a in args], "ops": "".join(ops), "early": early, "exe": rng.randrange(2)}


def expect(case, version):
    args = [bytes.fromhex(a) for a in case["args"]]
    cur = list(args)       # what the original arrays hold
    app = None
    out = []
    if case["early"]:
        out.append("early-ok")
        app = [] if case["early"] == "i" else [b"early-1", b"early-2"]
    for op in case["ops"]:
        out.append(op)
        if op in "ia1nx":
            if app is not None:
                out.append("E")
            else:
                app = {"i": [], "a": list(cur), "1": cur[:1], "n": [], "x": [b"other", b"vector", b"of", b"arguments"]}[op]
                out.append("ok")
        elif op == "m":
            cur = [b"#" * len(a) for a in cur]
        elif op == "f":
            cur = [b"replaced"] * len(cur)
        elif op == "r" and app is not None:
            out.append(str(len(app)))
            out += ["x" + a.hex() for a in app]
        elif op == "v" and app is not None:
            out.append(("v", version))
    return out


def run_one(exes, case):
    env = {k: v for k, v in os.environ.items() if not k.startswith("APP_")}
    env["APP_OPS"] = case["ops"]
    if case["early"]:
        env["APP_EARLY"] = case["early"]
    args = [bytes.fromhex(a) for a in case["args"]]
    r = subprocess.run(args, executable=exes[case["exe"]], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("utf-8", "replace")


def decide(case, rc, out, err, version):
    if rc != 0:
        return ("crash:" + rt.crash_signature(err), "exit status %s: %s" % (rc, err[:1500]))
    g = out.split()
    e = expect(case, version)
    i = 0
    for x in e:
        if isinstance(x, tuple):
            lib, osn, comp = (bytes.fromhex(t[1:]).decode("latin-1") for t in g[i:i + 3])
            if re.findall(r"\d+\.\d+\.\d+", lib) != [x[1]]:
                return ("version", "GetCaitlynInfo() = %r, the macros define %s" % (lib, x[1]))
            if osn != "Linux" or not comp.startswith("Clang" if case["exe"] == 0 else "GCC"):
                return ("system", "system %r, compiler %r" % (osn, comp))
            i += 3
            continue
        if i >= len(g) or g[i] != x:
            return ("report", "at item %d of the log: %s, expected %s; log %s, expected %s" % (i, g[i:i + 1], x, out[:300], str(e)[:300]))
        i += 1
    if i != len(g):
        return ("report", "more output than expected: %s" % g[i:])
    return None


def run():
    rep = rt.Report(ID, LEVEL, RULE, ASSUMPTIONS)
    exes = build()
    version = defined_version()
    rng = random.Random("C31/%d" % rep.seed)
    cases = [c for c in (gen(rng) for _ in range(1500 if not rep.thorough else 20000)) if c["args"]]  # an empty argv[] is refused or padded by the kernel
    with ThreadPoolExecutor(rt.NPROC) as ex:
        for case, (rc, out, err) in zip(cases, ex.map(lambda c: run_one(exes, c), cases)):
            rep.evaluations += 1
            v = decide(case, rc, out, err, version)
            if v:
                rep.violation(v[0], v[1], case)
            for o in case["ops"]:
                rep.features["operation " + o] += 1
            rep.features["attempts refused"] += out.split().count("E")
            rep.features["arguments reported"] += sum(t[0] == "x" for t in out.split() if len(t) != 1)
            if case["early"]:
                rep.features["initialised before main"] += 1
            if len(case["args"]) > 1 and "E" in out.split():
                rep.distinct.add(rt.h64(str(case)))
                if len(rep.samples) < 3 and len(out) < 400:
                    rep.samples.append({"case": case, "observed": out.strip()})
    return rep.finish()


def replay(case):
    rc, out, err = run_one(build(), case)
    v = decide(case, rc, out, err, defined_version())
    print(out.strip()[:2000])
    print("VIOLATION [%s] %s" % v if v else "holds")
    return 1 if v else 0
