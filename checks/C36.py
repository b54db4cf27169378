import filemodel as fm
from gens import hx, unhex, text
ID = "C36"
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan + system-call fault injection (interposed write, read, open), independent read-back, offline oracle"
RULE = ("a case is a history of up to 25 operations over three File handles and two paths in which some calls of write, read and open "
        "fail or are cut short (ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EMFILE, EACCES; once, several times or throughout the operation), a write to /dev/full, "
        "or a name that cannot be opened; non-trivial: at least one injected failure was consumed")
ASSUMPTIONS = ["what a failed write leaves (nothing, a prefix, or its text written later) is unspecified; so is the reading position after a failed call until SetPosition",
               "EINTR and short transfers need not be visible at all"]
DRIVERS = {"ioerr": {"src": "ioerr.cpp", "link": ["-ldl"]}}
WORKERS = {"quick": 32, "thorough": 160}
OPENS = ("open", "openf", "mk", "lit")


def fault(rng, op):
    k = "w" if op in ("put", "erase") and rng.random() < 0.8 else "r" if op in ("rd", "rl", "rld") and rng.random() < 0.85 else "o" if op in OPENS + (
        "erase", "reopen", "copy") or rng.random() < 0.2 else rng.choice("wr")
    err = rng.choice({"w": [28, 28, 5, 122, 27, 4], "r": [5, 5, 4, 116], "o": [24, 13, 2, 28, 23]}[k])
    part = rng.choice([1, 2, 7, 100, 1024, 8191]) if k in "wr" and rng.random() < 0.3 else 0
    times = rng.choice([1, 1, 2, 5, 10 ** 6]) if err != 4 else rng.choice([1, 3, 50])
    if part and err != 4 and rng.random() < 0.5:
        times = 1
    if part == 1 and times > 50:
        times = 50
    return "! %s %d %d %d %d" % (k, rng.choice([0, 0, 0, 0, 1, 2]), times, err, part)


def gen(rng):
    c = fm.gen(rng, rng.random() < 0.5, 25)
    out = ["h"]
    n = 0
    for op, a in fm.parse(c):
        if n > 40000:
            break
        if op in ("put", "ext"):
            n += len(a[3] if op == "put" else a[1]) // 2
        if op != "ext" and rng.random() < 0.18:
            out.append(fault(rng, op))
        out += [op] + a
    return " ".join(out)


def batches(rng, idx, tier):
    out = [gen(rng) for _ in range(700)]
    for _ in range(60):
        kind = rng.choice("sctyzf")
        out.append("full %s %s %s" % (rng.choice(["w", "wl", "a", "al"]), kind, hx(text(rng, n=rng.choice([1, 5, 300, 8191, 8192, 20000])))) + (" 5" if kind == "f" else ""))
    for _ in range(60):
        out.append("open %s %s" % (rng.choice(["new", "fmt", "mk", "lit", "dflt", "dfltw", "dfltr", "dfltl"]), hx(rng.choice(
            ["", "no/such/dir", ".", "../nowhere/x", "n" * 256, "n" * 5000, "a/b", "\u00e9/{}", "x/", "/nonexistent-dir/file"]))))
    yield "ioerr", out


def parse(case):
    t = case.split()[1:]
    i = 0
    while i < len(t):
        f = None
        if t[i] == "!":
            f = t[i + 1:i + 6]
            i += 6
        op = t[i]
        n = 3 + fm.nput(t[i + 3]) if op == "put" else len(fm.ARGS[op])
        yield f, op, t[i + 1:i + 1 + n]
        i += 1 + n


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def judge(case, line):
    if case.startswith("open"):
        return None if line.startswith("E:ios_failure") or line.startswith("E:failure") or line.split()[0].startswith("E:") else ("opened", "%s: opening %r was reported as %s" % (case[:60], unhex(case.split()[2])[:80], line[:100]))
    if case.startswith("full"):
        return None if line.split()[0].startswith("E:") else ("full", "a write to a full device (%s) returned normally" % case[:60])
    disk = [b"", b""]
    m = fm.Model()          # its data is kept in step with the disk
    failed = {}             # handle -> bytes of its failed writes, which may still be written later
    crossed = [0, 0]        # the same per path, for handles that are gone
    step = 0
    evs = line.split(" ;")
    for (f, op, a), ev in zip(parse(case), evs):
        t = ev.split()
        step += 1
        new = [unhex(t[-2]), unhex(t[-1])]
        fired = int(t[-3])
        status, got = t[-4], t[:-4]
        where = "operation %d (%s %s %s, %d calls failed)" % (step, f, op, [x[:40] for x in a], fired)
        threw = status.startswith("E:")
        if op == "ext":
            disk[int(a[0])] += unhex(a[1])
            if new != disk:
                return ("external", where + ": the file changed otherwise")
            m.data = list(disk)
            continue
        if status == "none":
            if new != disk:
                return ("none", where + ": the files changed")
            continue
        k = int(a[0])
        h = m.h[k]
        p = int(a[1]) if op in OPENS else (m.h[int(a[1])].path if op == "copy" else h.path)
        loose = failed.get(k, 0)
        if threw and not fired and not loose:
            # the reading position is unspecified after a failure
            if op == "sp" and (h.open is not True or int(a[1]) > len(disk[h.path])) or op in ("rl", "rld") and (h.pos is None or h.eof is None):
                pass # the workload was generated as if nothing failed
            elif op in ("rd", "rl", "rld") and not utf8(disk[h.path]):
                pass # a part of a character was written
            else:
                return (op + ":threw", "%s threw %s although no call failed" % (where, status))
        # every path: nothing that was there is lost, and only a handle with a failed write may add something unasked
        for q in (0, 1):
            extra = sum(n for i, n in failed.items() if m.h[i] is not None and m.h[i].path == q)
            if op == "erase" and q == p:
                if not threw and new[q] != b"":
                    return ("erase", "%s left %d bytes" % (where, len(new[q])))
                if threw and new[q] != b"" and not new[q].startswith(disk[q]):
                    return ("erase", "%s failed and damaged the content" % where)
                continue
            if not new[q].startswith(disk[q]):
                return ("lost", "%s: file %d lost content: %d bytes before, %d after" % (where, q, len(disk[q]), len(new[q])))
            add = new[q][len(disk[q]):]
            if op == "put" and q == p:
                s = fm.put_bytes(a)
                if not threw:
                    if not add.endswith(s):
                        return ("put:silent", "%s returned normally, but the file does not end with the %d bytes of the text (%d were added)" % (where, len(s), len(add)))
                    add = add[:len(add) - len(s)]
                else:
                    if not extra and not s.startswith(add[:len(s)]):
                        return ("put:failed", "%s threw and added something else than a part of the text: %r" % (where, add[:60]))
                    extra += len(s)
            if len(add) > 3 * extra:
                return ("unasked", "%s: file %d got %d bytes nobody wrote: %r" % (where, q, len(add), add[:60]))
        # reads
        before = disk
        disk = list(new)
        m.data = list(disk)
        if threw:
            if op in OPENS or op == "del":
                m.h[k] = None
                failed.pop(k, None)
            elif op == "put":
                failed[k] = failed.get(k, 0) + len(fm.put_bytes(a))
            if op not in OPENS and op != "copy" and h is not None:
                h.pos = h.eof = None
                h.open = None # or closed
            continue
        if op == "put":
            m.data[h.path] = disk[h.path][:len(disk[h.path]) - len(fm.put_bytes(a))]
        want = m.apply(op, a)
        m.data = list(disk)
        if op == "sp" and not utf8(disk[p][int(a[1]):][:4] or b"x") and (disk[p][int(a[1])] & 0xc0) == 0x80 or op == "sp" and int(a[1]) > len(disk[p]):
            h.pos = h.eof = None # inside a character or outside the content
        if op in OPENS or op in ("del", "copy"):
            failed.pop(k, None)
        if want is None or op not in ("rl", "rld", "rd", "gp", "eof"):
            continue
        if op == "eof":
            g = [got[0] == "1", got[1] == "1"]
        elif op == "gp":
            g = [int(got[0])]
        else:
            g = [unhex(x) for x in got]
        if g != want:
            return (op + ":wrong", "%s gave %s, expected %s" % (where, str(g)[:300], str(want)[:300]))
    if line.count(" ;") != step:
        return ("events", "history cut short")
    return None


def nontrivial(case, r):
    if case[0] != "h":
        return True
    return r[0] == "ok" and any(ev.split()[-3] != "0" for ev in r[1].split(" ;")[:-1])


def features(case, r, f):
    if case[0] != "h" or r[0] != "ok":
        f[case.split()[0]] += 1
        return
    for (fa, op, a), ev in zip(parse(case), r[1].split(" ;")):
        t = ev.split()
        f["operations"] += 1
        if t[-3] != "0":
            f["%s with failing %s: %s" % (op, {"w": "write", "r": "read", "o": "open"}[fa[0]], "threw" if t[-4].startswith("E:") else "returned")] += 1
