from gens import hx, unhex, huge, scalar, text
ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "ASan red-zoned exact-size buffers + UBSan over malformed byte strings; offline byte-exactness oracle"
RULE = ("a case is one byte string (mutated, truncated, random, or an enumerated short lead/continuation pattern) fed "
        "to every entry point that takes bytes; non-trivial: the bytes are not well-formed UTF-8")
ASSUMPTIONS = ["no NUL inside the text", "overlong, surrogate and above-10FFFF forms may be kept verbatim or rejected",
               "after a rejected Append the string may hold a prefix of the appended text"]
DRIVERS = {"str1": {"src": "str1.cpp"}}
WORKERS = {"quick": 24, "thorough": 120}
INTEREST = [0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xef,
            0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]


def case(b, rng):
    pre = text(rng, n=rng.randrange(0, 6))
    return "mal %s %s %d" % (hx(b), hx(pre), rng.randrange(0, len(pre) + 1))


def mutate(rng):
    b = bytearray(text(rng, n=rng.randrange(1, 30)).encode())
    for _ in range(rng.randrange(1, 4)):
        k = rng.random()
        i = rng.randrange(0, len(b) + 1)
        if k < 0.3 and b:
            b[i % len(b)] = rng.choice(INTEREST)
        elif k < 0.5:
            b.insert(i, rng.choice(INTEREST))
        elif k < 0.7 and b:
            del b[i % len(b)]
        elif k < 0.9:
            b = b[:i]
        else:
            b[i:i] = bytes(rng.choice(INTEREST) for _ in range(rng.randrange(1, 5)))
    return bytes(x for x in b if x)


def batches(rng, idx, tier):
    out = []
    n = WORKERS[tier]
    # exhaustive over interesting 1..3 byte patterns, and all 2-byte pairs, split over the workers
    k = 0
    for a in range(1, 256):
        for c in [None] + list(range(1, 256)):
            k += 1
            if k % n == idx:
                if c is None or a >= 0x80 or rng.random() < 0.1:
                    out.append(case(bytes([a]) if c is None else bytes([a, c]), rng))
    for a in INTEREST:
        for b in INTEREST:
            for c in INTEREST:
                k += 1
                if k % n == idx and (a >= 0x80 or rng.random() < 0.05):
                    out.append(case(bytes([a, b, c]), rng))
    for _ in range(1500):
        out.append(case(mutate(rng), rng))
    for _ in range(300):
        out.append(case(bytes(rng.choice(INTEREST) for _ in range(rng.randrange(1, 12))), rng))
    for _ in range(300):  # a truncated character at the very end
        t = text(rng, n=rng.randrange(0, 20)).encode()
        c = chr(rng.choice([0xe9, 0x20ac, 0x1f600, 0x7ff, 0xffff, 0x10ffff, rng.randrange(0x80, 0xd800)])).encode()
        out.append(case(t + c[:rng.randrange(1, len(c) + 1)], rng))
    big = huge(rng).encode()[:66000]
    k = rng.choice([0, len(big) // 2, len(big)])
    out.append(case(big[:k].decode("utf-8", "ignore").encode() + mutate(rng) + big[k:].decode("utf-8", "ignore").encode(), rng))
    yield "str1", out


def must_reject(b):
    """Structurally malformed: invalid lead byte, missing or wrong continuation byte."""
    i = 0
    while i < len(b):
        c = b[i]
        n = 1 if c < 0x80 else 2 if 0xc0 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf8 else 0
        if n == 0 or i + n > len(b) or any(not 0x80 <= x < 0xc0 for x in b[i + 1:i + n]):
            return True
        i += n
    return False


def wellformed(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def judge(case, line):
    _, hb, hp, pos = case.split()
    b, pre, pos = unhex(hb), unhex(hp), int(pos)
    head = pre.decode()[:pos].encode()
    tail = pre[len(head):]
    toks = line.split(" ")
    bad, good = must_reject(b), wellformed(b)
    i = 0

    def take():
        nonlocal i
        i += 1
        return toks[i - 1]

    def verdict(what, ok):
        if ok and bad:
            return ("accepted:" + what, "%s accepted malformed UTF-8 %s" % (what, b.hex()))
        if not ok and good:
            return ("rejected:" + what, "%s rejected well-formed UTF-8 %s" % (what, b.hex()))
    for what in ("String(const char*)", "String(std::string)"):
        t = take()
        ok = t == "ok"
        v = verdict(what, ok)
        if v:
            return v
        if ok:
            got = unhex(take())
            if got != b:
                return ("misread:" + what, "%s of %s holds %s" % (what, b.hex(), got.hex()))
    for what, after, partial in (("Append", pre + b, True), ("Insert(const char*)", head + b + tail, False),
                                 ("operator+=", pre + b, True), ("Insert(String)", head + b + tail, False),
                                 ("operator=", b, False), ("Append(count)", pre + b + b, None), (">>", b, False)):
        ok = take() == "ok"
        got = unhex(take())
        if what == "Append(count)":
            single = good and len(b.decode()) == 1
            if ok and (bad or got != after) and not (b == b""):
                return ("misread:" + what, "%s of %s gives %s" % (what, b.hex(), got.hex()))
            if not ok and single:
                return ("rejected:" + what, "%s rejected %s" % (what, b.hex()))
            if not ok and not (got.startswith(pre) and (pre + b + b).startswith(got)):
                return ("damaged:" + what, "after a rejected %s the string is %s" % (what, got.hex()))
            continue
        if what == ">>":
            if b"\n" in b:
                continue  # reads the first line only
            if not b:
                continue
        v = verdict(what, ok)
        if v:
            return v
        if ok and got != after:
            return ("misread:" + what, "%s of %s on %s gives %s" % (what, b.hex(), pre.hex(), got.hex()))
        if not ok and got != pre and not (partial and got.startswith(pre) and after.startswith(got)):
            return ("damaged:" + what, "after a rejected %s of %s, %s became %s" % (what, b.hex(), pre.hex(), got.hex()))
    one = good and len(b.decode()) == 1
    for what in ("Char(const char*)", "Char(std::string)"):
        ok = take() == "ok"
        got = unhex(take()) if ok else None
        if ok and (bad or got != b or (good and not one)):
            return ("char:" + what, "%s of %s is accepted as %s" % (what, b.hex(), got.hex()))
        if not ok and one:
            return ("char:" + what, "%s rejected %s" % (what, b.hex()))
    for what in ("Char=const char*", "Char=std::string"):
        ok = take() == "ok"
        got = unhex(take())
        if ok and (bad or got != b or (good and not one)):
            return ("char:" + what, "%s of %s gives %s" % (what, b.hex(), got.hex()))
        if not ok and (one or got != b"q"):
            return ("char:" + what, "%s of %s: rejected, now %s" % (what, b.hex(), got.hex()))
    ok = take() == "ok"
    got = unhex(take()) if ok else None
    if ok and (bad or got != b) or (not ok and one):
        return ("char:literal", "character literal %s: %s" % (b.hex(), got))
    ok = take() == "ok"
    got = unhex(take()) if ok else None
    v = verdict("literal", ok)
    if v or (ok and got != b):
        return v or ("misread:literal", "literal %s holds %s" % (b.hex(), got.hex()))
    return None


def nontrivial(case, r):
    return not wellformed(bytes.fromhex(case.split()[1][1:]))


def features(case, r, f):
    b = bytes.fromhex(case.split()[1][1:])
    f["byte strings"] += 1
    if must_reject(b):
        f["structurally malformed"] += 1
    elif not wellformed(b):
        f["overlong/surrogate/out of range"] += 1
    if r[0] == "ok":
        f["rejections observed"] += r[1].count("E:")
