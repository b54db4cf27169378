"""The workloads of the other checks with the n-th memory allocation failing."""
import rt
import envcmp
ID = "C33"
LEVEL = "fault_enumeration"
TECHNIQUE = ("allocation-failure injection: every case of the other checks' workloads is run again with its k-th allocation failing, under ASan/UBSan, "
             "with the memory balance and the record compared with the run without failure")
RULE = ("a case is one case of another check's workload, run with each of its allocations failing in turn (up to 40 sampled ones); non-trivial: at least one "
        "injected failure was reported as bad_alloc; distinct = cases")
ASSUMPTIONS = ["only operator new fails", "what an object holds after an operation on it ran out of memory is not compared, only that it can be used, assigned and destroyed"]
NAMES = ["str1", "char", "fmt", "sb", "big", "exp0", "exp1", "ptr", "json", "util", "file", "exp2", "exp3", "exp4"]
DRIVERS = {n: {"src": envcmp.SRC[n][1], "extra": ("-DRT_OOM",) + envcmp.SRC[n][2], "name": "oom-" + n} for n in NAMES}
WORKERS = {"quick": 16, "thorough": 96}
ENV = {"RT_OOM_POINTS": "40"}


def batches(rng, idx, tier):
    for n in NAMES:
        yield n, [c for c in envcmp.cases_of(rng, n, 90, 1500) if not c.startswith("deep")]


def judge(case, line):
    t = line.split()
    total, points, reported, masked, silent, first_silent, leaks, first_leak, leaked = map(int, t[:9])
    if leaks:
        return ("leak", "memory balance %d bytes when allocation %d of %d fails in case: %s" % (leaked, first_leak, total, case[:600]))
    if silent:
        return ("silent", "allocation %d of %d fails in case %s: no exception, but another result: %s" % (
            first_silent, total, case[:400], bytes.fromhex(t[9][1:]).decode("utf-8", "replace")))
    return None


def nontrivial(case, r):
    return r[0] == "ok" and int(r[1].split()[2]) > 0


def features(case, r, f):
    if r[0] != "ok":
        return
    t = list(map(int, r[1].split()[:5]))
    f["cases"] += 1
    f["failures injected"] += t[1]
    f["failures reported as bad_alloc"] += t[2]
    f["failures without any effect"] += t[3]
