import filemodel as fm
from gens import unhex
ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline oracle over recorded reads, positions and end-of-file states (byte-string model)"
RULE = ("a case is a history of 6-60+ operations (some at the end of a file of 2-8 GB), mostly reads and seeks with several delimiters, over three handles and two "
        "paths; non-trivial: at least 4 reads and some content")
ASSUMPTIONS = ["content is well-formed UTF-8 without NUL", "after the end was reached, a write, Read or reopen leaves the line "
               "position unspecified until SetPosition; SetPosition is used on an open file within its content"]
DRIVERS = {"file": {"src": "file.cpp"}}
WORKERS = {"quick": 32, "thorough": 200}


def batches(rng, idx, tier):
    yield "file", [fm.gen(rng, True) for _ in range(900)] + [fm.gen_big(rng) for _ in range(6)]


def judge(case, line):
    n = 0
    for op, a, want, got, status, disk, m in fm.events(case, line):
        n += 1
        if op in ("rl", "rld", "rd", "sp", "gp", "eof"):
            if want is None:
                continue
            if status != "ok":
                return (op + ":status", "operation %d, %s %s, reported %s" % (n, op, a, status))
            if op == "eof":
                g = [got[0] == "1", got[1] == "1"]
            elif op == "gp":
                g = [int(got[0])]
            else:
                g = [unhex(x) for x in got]
            if g != want:
                return (op, "operation %d, %s %s, gave %s, expected %s" % (n, op, a, str(g)[:300], str(want)[:300]))
    if line.count(" ;") != n and not line.startswith("nohole"):
        return ("events", "history cut short")
    return None


def nontrivial(case, r):
    t = case.split()
    return sum(t.count(x) for x in ("rl", "rld", "rd")) >= 4 and ("put" in t or "ext" in t)


def features(case, r, f):
    f["histories beyond 2 GB"] += case[0] == "g" and not r[1].startswith("nohole")
    for op, a in fm.parse(case):
        f[op] += 1
