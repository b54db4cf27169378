import zlib
from gens import hx, unhex, text
from filemodel import put_bytes
import rt
ID = "C13"
LEVEL = "fault_enumeration"
TECHNIQUE = ("crash-point enumeration by a ptrace fault injector (kill at every system call, torn, short and interrupted writes) "
             "with an offline durability oracle; concurrent appenders under random SIGKILL")
RULE = ("a case is a file history killed at every system-call boundary of its execution (up to 120 sampled for long ones), "
        "within every write after 1, half and all but one byte, and run with short and interrupted writes; or 2-8 "
        "processes appending to one file, killed at random instants. Non-trivial: at least two writes, or two processes whose records interleave")
ASSUMPTIONS = ["the page cache survives the process (no power loss)", "writes of up to 1000 bytes for several processes",
               "ptrace of own children is permitted"]
DRIVERS = {"crash": {"src": "crash.cpp", "flags": rt.PLAIN}}
WORKERS = {"quick": 36, "thorough": 160}


def gen(rng):
    init = text(rng, big=3000) if rng.random() < 0.5 else ""
    out = ["kill", str(rng.randrange(1, 10 ** 9)), "120", hx(init), "open", "0"]
    have = [True, False]
    isopen = [True, False]
    for _ in range(rng.choice([3, 6, 10])):
        h = rng.choice([i for i in (0, 1) if have[i]])
        r = rng.random()
        if r < 0.62:
            k = rng.random()
            s = text(rng, n=rng.choice([0, 1, 5, 30, 200])) if k < 0.8 else "".join(
                rng.choice("abcdefé") for _ in range(rng.choice([1000, 1023, 1024, 1025, 4095, 8190, 8191, 8192, 9000, 20000, 66000])))
            out += ["put", str(h), rng.choice(["w", "wl", "a", "al"]), rng.choice("sctyzf"), hx(s)]
            isopen[h] = True
        elif r < 0.70:
            out += ["rd", str(h)]
            isopen[h] = True
        elif r < 0.78:
            out += ["rl", str(h)]
            isopen[h] = True
        elif r < 0.82 and isopen[h]:
            out += ["sp", str(h)]
        elif r < 0.86:
            out += ["close", str(h)]
            isopen[h] = False
        elif r < 0.89:
            out += ["reopen", str(h)]
            isopen[h] = True
        elif r < 0.92:
            out += ["erase", str(h)]
            isopen[h] = True
        elif r < 0.97:
            out += ["copy", str(1 - h), str(h)]
            have[1 - h] = isopen[1 - h] = True
        else:
            out += ["open", str(1 - h)]
            have[1 - h] = isopen[1 - h] = True
    return " ".join(out)


def batches(rng, idx, tier):
    yield "crash", [gen(rng) for _ in range(22)]
    yield "crash", ["app %d %d %d %d %d" % (rng.randrange(1, 10 ** 9), rng.choice([2, 3, 4, 8]), rng.choice([60, 200, 600]),
                                            rng.choice([20, 200, 900]), rng.random() < 0.7) for _ in range(12)]


ARGN = {"copy": 2, "put": 4}


def ops(case):
    t = case.split()
    i = 4
    while i < len(t):
        n = ARGN.get(t[i], 1)
        yield t[i], t[i + 1:i + 1 + n]
        i += 1 + n


def judge(case, line):
    if case.startswith("app"):
        t = case.split()
        procs, records, kills = int(t[2]), int(t[3]), t[5] == "1"
        a, b, c = [x.split() for x in line.split("|")]
        c = list(map(int, c))
        if c[2]:
            return ("app:mixed", "%d records of concurrent appenders were torn, mixed or misplaced" % c[2])
        for p in range(procs):
            st, started, returned = map(int, a[3 * p:3 * p + 3])
            n = int(b[p])
            if st not in ((0, -9) if kills else (0,)):
                return ("app:status", "appender %d ended with %d" % (p, st))
            if not returned <= n <= started:
                return ("app:lost", "appender %d: %d writes returned, %d started, %d whole records in the file" % (p, returned, started, n))
            if st == 0 and n != records:
                return ("app:lost", "appender %d wrote %d records, the file has %d" % (p, records, n))
        return None
    states = [unhex(case.split()[3])]
    kind = []
    for op, a in ops(case):
        if op == "put":
            if a[2] == "f":
                b = put_bytes(a + ["7"])
            else:
                b = put_bytes(a)
            kind.append("put")
            states.append(states[-1] + b)
        elif op == "erase":
            kind.append("erase")
            states.append(b"")
        else:
            kind.append("")
            states.append(states[-1])
    crcs = {}

    def crc(b):
        return str(zlib.crc32(b))
    for n, ev in enumerate(line.split(" ;")[:-1]):
        what, status, started, returned, failed, size, c = ev.split()
        started, returned, size = int(started), int(returned), int(size)
        if what in ("full", "short", "eintr"):
            if status != "0" or failed != "0" or returned != len(kind):
                return ("status:" + what, "%s run: status %s, %s operations failed, %d of %d returned" % (what, status, failed, returned, len(kind)))
        if failed != "0":
            return ("failed:" + what, "%s operations threw in a run with %s" % (failed, what))
        old = states[returned]
        ok = size == len(old) and c == crc(old)
        if not ok and started > returned:
            new = states[started]
            if kind[returned] == "put":
                ok = len(old) < size <= len(new) and c == crc(new[:size])
            elif kind[returned] == "erase":
                ok = size == 0
        if not ok:
            o = list(ops(case))
            return (what, "%s, event %d: %d operations had returned (%d started), the file has %d bytes; expected %d bytes%s; in progress: %s" % (
                {"full": "after the run", "ke": "killed on entry of a system call", "kx": "killed on return of a system call",
                 "kp": "killed in the middle of a write", "short": "run with short writes", "eintr": "run with interrupted writes",
                 "ks": "killed in a run with short writes", "ki": "killed in a run with interrupted writes"}[what],
                n, returned, started, size, len(old), " and at most a prefix of the next write" if started > returned else "",
                o[returned] if started > returned else "nothing; last: %s" % (o[returned - 1] if returned else "",)))
    return None


def nontrivial(case, r):
    if r[0] != "ok":
        return True
    if case.startswith("app"):
        return int(r[1].split("|")[2].split()[3]) >= 4
    return case.split().count("put") >= 2


def features(case, r, f):
    if r[0] != "ok":
        return
    if case.startswith("app"):
        c = list(map(int, r[1].split("|")[2].split()))
        f["appender runs"] += 1
        f["appended records read back"] += c[0]
        f["switches between appenders in the file"] += c[3]
        f["torn last records of killed appenders"] += c[1] + c[4]
        f["appenders killed"] += r[1].split("|")[0].split()[0::3].count("-9")
        return
    for ev in r[1].split(" ;")[:-1]:
        t = ev.split()
        f["runs " + t[0]] += 1
        if t[2] != t[3]:
            f["kills with an operation in progress"] += 1
