import filemodel as fm
ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + independent read-back of the bytes on disk after every operation, offline conservation oracle"
RULE = ("a case is a history of 6-60+ operations (some at the end of a file of 2-8 GB) over three File handles and two paths (one with braces and a non-ASCII "
        "name); after each, length and CRC of both files are recorded; non-trivial: at least 3 writes, and a read or a second handle")
ASSUMPTIONS = ["file systems honour O_APPEND", "text contains no NUL"]
DRIVERS = {"file": {"src": "file.cpp"}}
WORKERS = {"quick": 32, "thorough": 200}


def batches(rng, idx, tier):
    yield "file", [fm.gen(rng, rng.random() < 0.4) for _ in range(900)] + [fm.gen_big(rng) for _ in range(6)]


def judge(case, line):
    n = 0
    for op, a, want, got, status, disk, m in fm.events(case, line):
        n += 1
        if op not in ("rl", "rld", "sp", "gp", "eof") and status != "ok":
            return (op + ":status", "%s %s reported %s" % (op, [x[:60] for x in a], status))
        for p in (0, 1):
            if [str(len(m.data[p])), fm.crc(m.data[p])] != disk[2 * p:2 * p + 2]:
                return ("disk:" + op, "after operation %d, %s %s, file %d has %s bytes, expected %d (or the same length with other content)" % (
                    n, op, [x[:60] for x in a], p, disk[2 * p], len(m.data[p])))
    if line.count(" ;") != n and not line.startswith("nohole"):
        return ("events", "history cut short")
    return None


def nontrivial(case, r):
    t = case.split()
    return t.count("put") >= 3 and any(x in t for x in ("rl", "rd", "copy", "rld"))


def features(case, r, f):
    f["histories beyond 2 GB"] += case[0] == "g" and not r[1].startswith("nohole")
    for op, a in fm.parse(case):
        f[op + (" " + a[1] + "/" + a[2] if op == "put" else "")] += 1
