"""Builds the library in every configuration and compares what a deterministic workload records in each."""
import collections
import os
import random
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import rt
import C30
ID = "C29"
LEVEL = "exploration"
TECHNIQUE = ("the same deterministic workload is run in builds by two compilers, five standards and four optimisation levels and the recorded events "
             "are compared; programs of three translation units with the headers in random orders are linked and run; every header is compiled alone")
RULE = ("an evaluation is one header (or order of all headers) compiled in one configuration, one multi-unit program linked and run, or one workload "
        "case run in one configuration and compared with the reference configuration (clang++ -std=c++11 -O1); "
        "distinct = (configuration, case) pairs whose case is non-trivial (its record has at least two fields)")
ASSUMPTIONS = ["GCC 13 and Clang 18 on x86-64 with libstdc++ stand for the supported compilers",
               "a case that crashes in the reference configuration as well is the business of another check"]
COMPILERS = ["g++", "clang++"]
STDS = ["c++11", "c++14", "c++17", "c++20", "c++23"]
OPTS = ["-O0", "-O1", "-O2", "-O3"]
REF = ("clang++", "c++11", "-O1")
SRC = {k: (v[0], v[1], v[2]) for k, v in C30.SRC.items() if v[0]}
SRC["cmp"] = (["C26"], "cmp.cpp", ())
ENV = {"RT_CPU_LIMIT": "60"}

MAIN = r'''
#include <cstdio>
#include <string>
std::string part0(int); std::string part1(int); std::string part2(int);
const void* where0(int); const void* where1(int); const void* where2(int);
int main()
{
    int bad = 0;
    for (int i = 0; i < 24; ++i)
    {
        const std::string a = part0(i), b = part1(i), c = part2(i);
        if (a != b || a != c) { std::printf("DIFFERS %d\n", i); ++bad; }
        std::printf("%s\n", a.c_str());
    }
    for (int i = 0; i < 3; ++i)
        if (where0(i) != where1(i) || where0(i) != where2(i)) { std::printf("SEPARATE %d\n", i); ++bad; }
    return bad ? 1 : 0;
}
'''
PART = r'''
#include <map>
using namespace Caitlyn;
const void* where@(int i)
{
    static const Expected<String, int> e(Unexpected<int>(1));
    switch (i)
    {
        case 0: return &e.UnwrapOrDefault();
        default: return nullptr;
    }
}
static std::string num(long v) { return std::to_string(v); }
std::string part@(int i)
{
    const String s = "Straße, ПРИВЕТ ωΩ 12345 \xf0\x9f\x98\x80 end";
    std::string r;
    try
    {
    switch (i)
    {
        case 0: for (const auto& x : Split(s.str(), ' ')) r += x + "/"; break;
        case 1: r = Repeat("ab", 7); break;
        case 2: r = EscapeString("a\\n\\u0416\\q").str(); break;
        case 3: r = num(IsNumber("0123")) + num(IsNumber(s)) + num(FindFirstNonSpace("  x ")) + num(FindLastNonSpace("  x ")); break;
        case 4: r = num(kmp("345", s.str())) + num(kmp("zz", s.str())); break;
        case 5: for (const auto& c : s) r += num(IsSpace(c.GetCodePoint()) + 2 * IsDigit(c.GetCodePoint()) + 4 * IsUppercase(c.GetCodePoint()) + 8 * IsLowercase(c.GetCodePoint()) + 16 * IsLetter(c.GetCodePoint())); break;
        case 6: r = s.ToUppercase().str() + s.ToLowercase().str(); break;
        case 7: r = String::Format("{0:>6}|{1:*^9}|{2:.3f}|{{}}", 42, "mid", 2.5).str(); break;
        case 8: { auto t = MakeText("{}-{}", 1, "x"); t.AppendLine("line {}", s); r = t.str().str(); break; }
        case 9: r = (BigInteger("123456789012345678901234567890") * BigInteger("-987654321")).ToString().str(); break;
        case 10: r = (BigFloat("10.5") / BigFloat("-3")).ToString().str() + BigFloat("2").Sqrt().ToString().str(); break;
        case 11: { JsonDocument d; d.Parse("{\"a\":[1,2.5,\"x\\u0416\",null,true,{\"b\":{}}]}"); r = d.ToString().str() + d.ToString(true).str(); break; }
        case 12: { JsonDocument d = Json::MakeDocument("{\"a\":}"); r = d.GetErrorString().str() + num(static_cast<long>(d.GetError())); break; }
        case 13: { JsonDocument d; d["n"] = Json::MakeArray(1, true, 2.5f); d["s"] = Json::MakeString("q\"q"); d["x"] = Json::MakeNull(); r = d.ToString().str(); break; }
        case 14: { Expected<int, String> e(3); r = num(e.Map([](int v) { return v * 2; }).Get()) + num(MakeCorrect<int, String>(5).UnwrapOr(1)); break; }
        case 15: { SharedPtr<int> p(new int(5)); SharedPtr<int> q = p; WeakPtr<int> w(q); r = num(*p + *w.lock()) + num(p == q); break; }
        case 16: { UniquePtr<int> p(new int(9)); r = num(*p); Ptr<int> raw(p.Get()); r += num(*raw); break; }
        case 17: { std::map<int, int> m{{1, 2}, {3, 4}}; for (int k : GetMapKeys(m)) r += num(k); for (int v : GetMapValues(m)) r += num(v); break; }
        case 18: r = num(cmp_less(-1, 1u)) + num(cmp_eq(-1, ~0u)) + num(cmp_ge(5u, -7)); break;
        case 19: r = num(SizeOf<int>()) + num(SizeOf<int>(MemoryFormat::Bit)) + num(MaxValue<int>()) + num(MinValue<long>()); break;
        case 20: r = num(IsIntegral<int>()) + num(IsSigned<unsigned>()) + num(IsPointer<int*>()) + num(IsConst<const int>()); break;
        case 21: { String t(3, 'x'); t.Insert(1, "é"); t += s; r = t.str() + num(t.size()) + num(t.Find("12")) + num(t.ReverseFind("e")) + t.Substring(2, 5).str(); break; }
        case 22: { Char c("é"); r = c.str() + num(c.GetCodePoint()) + ToUppercase(c).str(); r += Char(CodePoint{0x1F600}).str(); break; }
        case 23: r = num(Random<Int32>(5, 5)) + num(RandomBoolean(1.0)) + (s < String("T") ? "<" : ">") + num(ToDigit('7')); break;
    }
    }
    catch (const std::exception& e) { r = std::string("E:") + e.what(); }
    return r;
}
'''


def headers():
    d = os.path.join(rt.INC, "Caitlyn")
    return ["Caitlyn/" + f for f in sorted(os.listdir(d)) if "." not in f and not f.startswith("_") and os.path.isfile(os.path.join(d, f))]


def sh(cmd, cwd=None, timeout=300, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout, input=inp)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "time out"


def first_error(out):
    for l in out.split("\n"):
        if "error" in l or "undefined" in l or "multiple definition" in l or "duplicate" in l:
            return l[:400]
    return out[-400:]


def compile_headers(cfg, hs):
    cxx, std = cfg
    text = "".join("#include <%s>\n" % h for h in hs)
    rc, out = sh([cxx, "-std=" + std, "-fsyntax-only", "-w", "-I" + rt.INC, "-x", "c++", "-"], inp=text.encode())
    return rc, out


def program(cfg, orders, d):
    """Links and runs three translation units that include all headers in the given orders."""
    cxx, std, opt = cfg
    os.makedirs(d)
    try:
        with open(d + "/main.cpp", "w") as fh:
            fh.write(MAIN)
        for i, o in enumerate(orders):
            with open(d + "/part%d.cpp" % i, "w") as fh:
                fh.write("".join("#include <%s>\n" % h for h in o) + PART.replace("@", str(i)))
        srcs = ["main.cpp", "part0.cpp", "part1.cpp", "part2.cpp"]
        base = [cxx, "-std=" + std, opt, "-w", "-pthread", "-I" + rt.INC]
        for s in srcs:
            rc, out = sh(base + ["-c", s], cwd=d)
            if rc:
                return "compile", "%s: %s" % (s, first_error(out))
        objs = [s.replace(".cpp", ".o") for s in srcs]
        rc, out = sh([cxx, "-pthread"] + objs + ["-o", "prog"], cwd=d)
        if rc and "tbb" in out:  # the standard library's parallel algorithms need it
            rc, out = sh([cxx, "-pthread"] + objs + ["-o", "prog", "-ltbb"], cwd=d)
        if rc:
            return "link", first_error(out)
        rc, out = sh([d + "/prog"], cwd=d, timeout=60)
        return ("ok" if rc == 0 else "run"), out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def driver(name, cfg):
    cxx, std, opt = cfg
    _, src, extra = SRC[name]
    try:
        return rt.build(rt.harness(src), flags=[opt, "-pthread"], cxx=cxx, std=std, extra=extra, name="cfg-" + name), None
    except rt.Inconclusive as e:
        return None, str(e)


def normal(name, r):
    if r[0] != "ok":
        return r[0], ""
    return "ok", r[1].rpartition(" ; ")[0] if name.startswith("exp") else r[1]


def ident(cfg):
    return " ".join(cfg)


def configs(rng, thorough):
    full = [(c, s, o) for c in COMPILERS for s in STDS for o in OPTS]
    if thorough:
        return full
    return [("g++", "c++11", "-O0"), ("g++", "c++17", "-O2"), ("g++", "c++23", "-O3"), ("clang++", "c++14", "-O3"), ("clang++", "c++20", "-O0"),
            ("clang++", "c++23", "-O2")]


def cases_of(rng, name, thorough):
    pool = []
    for m in SRC[name][0]:
        mod = __import__(m)
        for dname, cs in mod.batches(rng, rng.randrange(mod.WORKERS["quick"]), "quick"):
            if dname == name:
                # how many moves and copies happen is partly the compiler's choice: neither faults at the n-th nor their totals are compared
                pool += [c for c in cs if len(c) < 3000 and not (name.startswith("exp") and " fuse " in c)]
    return rng.sample(pool, min(len(pool), 3000 if thorough else 700))


def run():
    rep = rt.Report(ID, LEVEL, RULE, ASSUMPTIONS)
    rng = random.Random("%s/%d" % (ID, rep.seed))
    hs = headers()
    if len(hs) < 5:
        print("inconclusive: public headers not found")
        return 2
    tmp = rt.scratch("c29")
    try:
        with ThreadPoolExecutor(rt.NPROC) as ex:
            jobs = []
            for c in COMPILERS:
                for s in STDS:
                    for h in hs:
                        jobs.append(((c, s), [h]))
                    for _ in range(4 if rep.thorough else 1):
                        o = hs[:]
                        rng.shuffle(o)
                        jobs.append(((c, s), o))
                        jobs.append(((c, s), o[:rng.randrange(2, len(o))]))
            prog_cfgs = configs(rng, rep.thorough)
            progs = []
            for n, cfg in enumerate(prog_cfgs):
                orders = [rng.sample(hs, len(hs)) for _ in range(3)]
                progs.append((cfg, orders))
            cfgs = [REF] + [c for c in configs(rng, rep.thorough) if c != REF]
            dr = {(n, c): ex.submit(driver, n, c) for c in cfgs for n in sorted(SRC)}
            hf = [(j, ex.submit(compile_headers, *j)) for j in jobs]
            pf = [(p, ex.submit(program, p[0], p[1], "%s/p%d" % (tmp, k))) for k, p in enumerate(progs)]
            for (cfg, o), f in hf:
                rc, out = f.result()
                rep.evaluations += 1
                rep.distinct.add(rt.h64(ident(cfg), *o))
                rep.features["headers compiled alone" if len(o) == 1 else "orders of headers compiled"] += 1
                if rc:
                    rep.violation("header:" + (o[0] if len(o) == 1 else "order"), "%s does not compile in %s: %s" % (", ".join(o), ident(cfg), first_error(out)),
                                  {"headers": o, "cfg": list(cfg)})
            ref_out = None
            for (cfg, orders), f in pf:
                kind, out = f.result()
                rep.evaluations += 1
                rep.distinct.add(rt.h64("prog", ident(cfg)))
                rep.features["programs of three translation units"] += 1
                if kind == "ok":
                    if ref_out is None:
                        ref_out = (cfg, out)
                    elif out != ref_out[1]:
                        k = next((i for i, (a, b) in enumerate(zip(out.split("\n"), ref_out[1].split("\n"))) if a != b), -1)
                        rep.violation("program:differs", "in %s line %d of the program is %r, in %s it is %r" % (
                            ident(cfg), k, out.split("\n")[k], ident(ref_out[0]), ref_out[1].split("\n")[k]), {"program": orders, "cfg": list(cfg)})
                else:
                    rep.violation("program:" + kind, "a program of three translation units fails to %s in %s: %s" % (kind, ident(cfg), out[:600]),
                                  {"program": orders, "cfg": list(cfg)})
            built = {k: f.result() for k, f in dr.items()}
            runs = {}
            allcases = {n: cases_of(rng, n, rep.thorough) for n in sorted(SRC)}
            for n in sorted(SRC):
                if built[(n, REF)][0] is None:
                    print("inconclusive: " + built[(n, REF)][1])
                    return 2 if not rep.violations else rep.finish()
                for c in cfgs:
                    exe, err = built[(n, c)]
                    if exe is None:
                        rep.violation("build:" + ident(c), "%s compiles in %s but not in %s: %s" % (SRC[n][1], ident(REF), ident(c), first_error(err)),
                                      {"driver": n, "cfg": list(c), "cases": []})
                        continue
                    runs[(n, c)] = ex.submit(rt.run_driver, exe, allcases[n], ENV)
            for n in sorted(SRC):
                ref = [normal(n, r) for r in runs[(n, REF)].result()]
                for c in cfgs[1:]:
                    if (n, c) not in runs:
                        continue
                    got = runs[(n, c)].result()
                    rep.features["workload cases compared in " + ident(c)] += len(got)
                    for case, a, b in zip(allcases[n], ref, got):
                        rep.evaluations += 1
                        if a[0] == "ok" and a[1].count(" ") >= 1:
                            rep.distinct.add(rt.h64(n, ident(c), case))
                        if normal(n, b) != a:
                            d = next((i for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y), 0)
                            rep.violation("differs:%s" % n, "case %s records ...%s in %s but ...%s in %s" % (
                                case[:400], a[1][max(0, d - 60):d + 120], ident(REF), (b[1] if b[0] == "ok" else " ".join(b)[:300])[max(0, d - 60):d + 120], ident(c)),
                                {"driver": n, "cfg": list(c), "cases": [case]})
                    if len(rep.samples) < 6 and got:
                        rep.samples.append({"configuration": ident(c), "case": allcases[n][0][:200], "observed": got[0][1][:200]})
        rep.extra["configurations"] = [ident(c) for c in cfgs]
        return rep.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(payload):
    cfg = tuple(payload["cfg"])
    if "headers" in payload:
        rc, out = compile_headers(cfg, payload["headers"])
        print("VIOLATION " + first_error(out) if rc else "holds")
        return 1 if rc else 0
    if "program" in payload:
        d = rt.scratch("c29")
        kind, out = program(cfg, payload["program"], d + "/p")
        k2, out2 = program(REF, payload["program"], d + "/q")
        shutil.rmtree(d, ignore_errors=True)
        bad = kind != "ok" or out != out2
        print(("VIOLATION %s\n%s" % (kind, out)) if bad else "holds")
        return int(bad)
    a, _ = driver(payload["driver"], REF)
    b, err = driver(payload["driver"], cfg)
    if b is None:
        print("VIOLATION " + err)
        return 1
    bad = 0
    for c in payload["cases"]:
        x, y = normal(payload["driver"], rt.run_driver(a, [c], ENV)[0]), normal(payload["driver"], rt.run_driver(b, [c], ENV)[0])
        print("case: %s\n%s: %s\n%s: %s" % (c, ident(REF), x, ident(cfg), y))
        bad += x != y
    print("VIOLATION" if bad else "holds")
    return 1 if bad else 0
