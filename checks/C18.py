import expmodel as em
ID = "C18"
LEVEL = "exploration"
TECHNIQUE = ("lifetime monitor (registry of live content objects: every construction, use and destruction checked) with injected "
             "throwing copies and moves, ASan/UBSan, allocation balance")
RULE = ("a case is a history of 6-60 operations over four Expecteds of one of 14 content type pairs, in half of which every third write "
        "has its n-th copy or move throw; an object that was being written is then assigned or destroyed; non-trivial: at least 10 "
        "content objects were constructed")
ASSUMPTIONS = ["after a throwing assignment an Expected is only assigned or destroyed"]
DRIVERS = em.DRIVERS
WORKERS = {"quick": 64, "thorough": 240}
ENV = {"RT_LEAK": "1"}


def batches(rng, idx, tier):
    b = {}
    for _ in range(2500):
        d, c = em.gen(rng, 0.0 if rng.random() < 0.4 else rng.choice([0.15, 0.35, 0.6]))
        b.setdefault(d, []).append(c)
    for d in sorted(b):
        yield d, b[d]


def stats(line):
    return line.split(" ;")[-1].split()


def judge(case, line):
    ctor, dtor, live, errors = map(int, stats(line)[:4])
    if errors:
        return ("lifetime", "%d lifetime errors, first: %s, in history %s" % (errors, bytes.fromhex(stats(line)[7][1:]).decode(), case[:600]))
    if live or ctor != dtor:
        return ("balance", "%d objects constructed, %d destroyed, %d still alive at the end of history %s" % (ctor, dtor, live, case[:600]))
    return None


def nontrivial(case, r):
    return r[0] != "ok" or int(stats(r[1].split(" LEAK")[0])[0]) >= 10


def features(case, r, f):
    f["types " + case[:2]] += 1
    if r[0] == "ok":
        s = stats(r[1].split(" LEAK")[0])
        f["objects constructed"] += int(s[0])
        f["objects destroyed"] += int(s[1])
        f["exceptions injected"] += int(s[4])
        f["copies"] += int(s[5])
        f["moves"] += int(s[6])
