"""Threads run the cases of the other checks (distinct objects) and read-only calls on shared objects."""
import importlib
import rt
from gens import hx, text
ID = "C30"
LEVEL = "exploration"
TECHNIQUE = ("ThreadSanitizer over several threads running the library at once in a fresh process, and comparison of everything each thread "
             "records with a single-threaded process (also without instrumentation at -O2)")
RULE = ("a case is a group of 3-24 workload cases run 1-6 times by 2-8 threads of a fresh process, in the same or in different orders; "
        "non-trivial: at least a quarter of the calls overlapped a call of another thread; distinct = recorded interleavings of call begins and ends")
ASSUMPTIONS = ["ThreadSanitizer reports unordered conflicting accesses that occurred in the observed schedules",
               "the interleaving recorded is that of call boundaries, not of single accesses"]
PLAIN = ["-O2", "-g1", "-pthread"]
SRC = {"str1": (["C01", "C02", "C03", "C04"], "str1.cpp", ()), "char": (["C05", "C06", "C07"], "char.cpp", ()), "fmt": (["C08"], "fmt.cpp", ()),
       "sb": (["C09"], "sb.cpp", ()), "big": (["C14", "C15", "C16"], "big.cpp", ()), "exp0": (["C17"], "expected.cpp", ("-DGROUP=0",)),
       "exp1": (["C17"], "expected.cpp", ("-DGROUP=1",)), "ptr": (["C19"], "ptr.cpp", ()), "json": (["C21", "C22", "C23"], "json.cpp", ()),
       "util": (["C27"], "util.cpp", ()), "shared": (None, "shared.cpp", ())}
DRIVERS = {}
for _n, (_c, _s, _x) in SRC.items():
    DRIVERS["tsan-" + _n] = {"src": _s, "flags": rt.TSAN, "extra": ("-DRT_MT",) + _x, "name": "mt-%s-tsan" % _n}
    DRIVERS["plain-" + _n] = {"src": _s, "flags": PLAIN, "extra": ("-DRT_MT",) + _x, "name": "mt-%s-plain" % _n}
WORKERS = {"quick": 24, "thorough": 160}
ENV = {"RT_CPU_LIMIT": "240"}
# kinds of workload case that take long, or whose outcome is not a function of the case
OPS = ["cmp", "find", "case", "iter", "cat", "cls", "esc", "split", "fmt", "fmts", "val", "sb", "kmp", "big", "bdiv", "bpow", "flt", "fdiv", "fpow",
       "jtext", "jcopy", "jwalk", "jparse", "jstr", "exp", "expx", "expe", "ptr", "eq", "rnd", "map"]


def json_text(rng, d=0):
    k = rng.random()
    if d > 3 or k < 0.45:
        return rng.choice(["1", "-7", "0", "2.5", "1e3", "true", "false", "null", '""', '"%s"' % "".join(rng.choice("abcXYZ éпривет😀\\n ") for _ in range(rng.randrange(9))).replace("\\", "\\\\")])
    if k < 0.7:
        return "[" + ",".join(json_text(rng, d + 1) for _ in range(rng.randrange(4))) + "]"
    return "{" + ",".join('"%s":%s' % (key, json_text(rng, d + 1)) for key in rng.sample(["a", "b", "k é", "ж", "long key number one"], rng.randrange(1, 4))) + "}"


def digits(rng):
    return str(rng.choice([1, -1]) * rng.randrange(10 ** rng.choice([1, 3, 9, 10, 20, 60])))


def shared(rng):
    head = []
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        t = text(rng, n=rng.randrange(1, 30)).replace("\0", "") or "x"
        if k < 0.3:
            t = rng.choice(["{} and {}", "{0}{1}{0}", "{1:>10}|{0:*^7}", "  spaced  text ", "12345", "ΑΒΓ абв ABC xyz", "a\\u0041\\n", "Straße", "null", "[1,2", '{"a":[1,{"a":2}]}'])
        head += ["s", hx(t)]
    for _ in range(rng.randrange(1, 4)):
        head += ["i", hx(digits(rng))]
    for _ in range(rng.randrange(1, 4)):
        head += ["f", hx("%s%d.%s" % (rng.choice(["", "-"]), rng.randrange(10 ** rng.choice([1, 5, 12])), str(rng.randrange(1, 10 ** rng.choice([1, 4, 9])))))]
    for _ in range(rng.randrange(1, 4)):
        head += ["j", hx('{"a":%s,"b":%s}' % (json_text(rng), json_text(rng)))]
    for _ in range(rng.randrange(1, 5)):
        head += ["n", hx(str(rng.choice([0, -1, 7, 2 ** 31, -2 ** 31, rng.randrange(10 ** 6)])))]
    ops = OPS if rng.random() < 0.6 else rng.sample(OPS, rng.randrange(1, 4))
    return head, ["%s %d %d %d" % (rng.choice(ops), rng.randrange(8), rng.randrange(8), rng.randrange(8)) for _ in range(rng.randrange(4, 24))]


def group(rng, head, cases):
    return " ".join([str(rng.choice([2, 3, 4, 4, 8])), str(rng.randrange(3)), str(rng.choice([1, 2, 3, 6])), str(rng.randrange(1, 2 ** 40))]
                    + head + [w for c in cases for w in ["@@"] + c.split()])


def costly(name, c):
    """Short cases that take long."""
    t = c.split()
    return name == "json" and t[0] == "deep" and int(t[1]) > 600 or name == "util" and t[0] == "repeat" and int(t[2]) > 1000 or name == "big" and len(c) > 800


def pool_of(rng, name, tier):
    mods = SRC[name][0]
    out = []
    for m in mods:
        mod = importlib.import_module(m)
        n = mod.WORKERS["quick"]
        for dname, cases in mod.batches(rng, rng.randrange(n), "quick"):
            if dname != name:
                continue
            # the tracker of a thread does not know the default value when another thread was first to need it
            out += [c for c in cases if len(c) < 4000 and not (name.startswith("exp") and " unwrapd " in c) and not costly(name, c)]
    return out


def batches(rng, idx, tier):
    names = sorted(SRC)
    # every worker takes two workloads, so that every workload is taken about four times (quick tier)
    for k in range(2):
        name = names[(idx * 2 + k) % len(names)]
        if name == "shared":
            gs = [group(rng, *shared(rng)) for _ in range(70)]
        else:
            pool = pool_of(rng, name, tier)
            gs = []
            for _ in range(30):
                n = rng.choice([3, 8, 16])
                first = rng.randrange(len(pool))
                gs.append(group(rng, [], [pool[(first + i) % len(pool)] for i in range(n)] if rng.random() < 0.5 else rng.sample(pool, n)))
        yield "tsan-" + name, gs
        yield "plain-" + name, gs
    if idx % 3 == 0:
        gs = [group(rng, *shared(rng)) for _ in range(70)]
        yield "tsan-shared", gs
        yield "plain-shared", gs


def judge(case, line):
    t = line.split()
    if int(t[3]):
        return ("differs", "%s calls of threads recorded something else than a single thread does: %s" % (t[3], bytes.fromhex(t[4][1:]).decode("utf-8", "replace")))
    return None


def nontrivial(case, r):
    return r[0] == "ok" and int(r[1].split()[1]) * 4 >= int(r[1].split()[0])


def features(case, r, f):
    if r[0] != "ok":
        return
    t = r[1].split()
    f["groups (fresh processes)"] += 1
    f["calls"] += int(t[0])
    f["calls that overlapped another thread's"] += int(t[1])
    f["sig " + t[2]] += 1


def finish(rep):
    sigs = [k for k in rep.features if k.startswith("sig ")]
    for k in sigs:
        del rep.features[k]
    rep.extra["distinct_interleavings_of_call_boundaries"] = len(sigs)
