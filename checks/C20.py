import rt
ID = "C20"
LEVEL = "exploration"
TECHNIQUE = ("ThreadSanitizer and AddressSanitizer over stress runs with injected delays; destruction and access counts "
             "checked after every round")
RULE = ("a case is 40-80 rounds in which 2-8 threads copy, move, swap, reset and drop owners of a fresh object (from their own or one "
        "shared constant SharedPtr, or by locking WeakPtrs) with injected delays; distinct = orders in which the "
        "threads dropped owners, with the thread that destroyed the object")
ASSUMPTIONS = ["ThreadSanitizer reports races on the plain accesses made by owners and by the destructor when they are not ordered by the reference count",
               "a SharedPtr object itself is not modified by two threads"]
DRIVERS = {"tsan": {"src": "ptrmt.cpp", "flags": rt.TSAN, "name": "ptrmt-tsan"}, "asan": {"src": "ptrmt.cpp", "flags": rt.ASAN + ["-pthread"], "name": "ptrmt-asan"}}
WORKERS = {"quick": 96, "thorough": 64}
ENV = {"RT_CPU_LIMIT": "100"}


def case(rng):
    return "mt %d %d %d %d %d %d" % (rng.randrange(1, 2 ** 40), rng.choice([2, 2, 3, 4, 8]), rng.choice([40, 80]), rng.choice([1, 3, 8, 20]),
                                     rng.choice([0, 1, 3, 6]), rng.randrange(8))


def batches(rng, idx, tier):
    yield "tsan", [case(rng) for _ in range(45)]
    yield "asan", [case(rng) for _ in range(20)]


def judge(c, line):
    t = line.split()
    built, destroyed, bad, lb = map(int, t[:4])
    if bad or lb or built != destroyed:
        return ("count", "%d objects built, %d destroyed, %d bad rounds (%s), %d accesses to a dead object; case %s" % (
            built, destroyed, bad, bytes.fromhex(t[8][1:]).decode(), lb, c))
    return None


SIGS = set()


def nontrivial(c, r):
    return r[0] == "ok"


def features(c, r, f):
    if r[0] != "ok":
        return
    t = r[1].split()
    f["rounds"] += int(t[0])
    f["pointer operations"] += int(t[7])
    f["weak pointers locked"] += int(t[5])
    f["weak pointers found expired"] += int(t[6])
    f["cases where several threads were the last owner"] += int(t[4]) > 1
    for s in t[9:]:
        f["sig " + s] += 1


def finish(rep):
    sigs = [k for k in rep.features if k.startswith("sig ")]
    for k in sigs:
        del rep.features[k]
    rep.distinct = {int(k[4:]) for k in sigs}
    rep.extra["distinct_drop_orders"] = len(sigs)
