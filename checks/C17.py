import expmodel as em
ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + offline model checking of recorded observer results and callback calls"
RULE = ("a case is a history of 6-60 operations over four Expecteds of one of 14 content type pairs (move-only, copy-only, throwing, "
        "same type twice, int, String, unique_ptr); non-trivial: both a value and an error were put in, and one was read")
ASSUMPTIONS = ["a moved-from String's content is unspecified", "after a throwing assignment an Expected is only assigned or destroyed"]
DRIVERS = em.DRIVERS
WORKERS = {"quick": 40, "thorough": 240}


def batches(rng, idx, tier):
    b = {}
    for _ in range(2500):
        d, c = em.gen(rng, 0.0 if rng.random() < 0.8 else 0.2)
        b.setdefault(d, []).append(c)
    for d in sorted(b):
        yield d, b[d]


def judge(case, line):
    n = 0
    for op, a, want, got in em.run(case, line):
        n += 1
        if len(want) != len(got) or any(w is not None and w != g for w, g in zip(want, got)):
            return (op, "%s%s on content types %s recorded %s, expected %s (operation %d of %s)" % (op, a, case[:2], got, want, n, case[:500]))
    return None


def nontrivial(case, r):
    t = case.split()
    return bool({"newe", "newec", "sete", "mkerr"} & set(t)) and bool({"newv", "newvc", "setv", "mkval"} & set(t)) and len(t) > 20


def features(case, r, f):
    f["types " + case[:2]] += 1
    for op, a, rec in em.parse(case):
        f[op] += 1
