"""Runner shared by all checks: builds the instrumented drivers from /repo's working tree, runs generated
workloads through them in parallel, feeds what they recorded to the oracles and reports."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = max(1, min(8, os.cpu_count() or 1))

ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
TSAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-pthread"]
PLAIN = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]


class Inconclusive(Exception):
    pass


class DoesNotCompile(Inconclusive):
    """A use of the public interface that a property is about is rejected, although the headers alone compile."""

    def __init__(self, what, first, output):
        Inconclusive.__init__(self, "harness %s does not compile against /repo:\n%s" % (what, output[-4000:]))
        self.what, self.first, self.output = what, first, output

    def __reduce__(self):
        return DoesNotCompile, (self.what, self.first, self.output)



def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(INC):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, INC).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


_TREE = None


def build(src, flags=ASAN, cxx="clang++", std="c++11", extra=(), link=(), name=None):
    """Compiles one harness against /repo/include; cached by the content of both."""
    global _TREE
    if _TREE is None:
        _TREE = tree_hash()
    srcs = src if isinstance(src, (list, tuple)) else [src]
    cmd = [cxx, "-std=" + std, "-w", "-include", "cstdint", "-I" + INC, "-I" + os.path.join(VERIF, "harness")] \
        + list(flags) + list(extra)
    h = hashlib.sha256((_TREE + "\0" + " ".join(cmd) + "\0" + " ".join(link)).encode())
    hdr = os.path.join(VERIF, "harness")
    for s in list(srcs) + [os.path.join(hdr, f) for f in sorted(os.listdir(hdr)) if f.endswith(".hpp")]:
        with open(s, "rb") as fh:
            h.update(fh.read())
    os.makedirs(BUILD, exist_ok=True)
    base = name or os.path.splitext(os.path.basename(srcs[0]))[0]
    out = os.path.join(BUILD, "%s-%s" % (base, h.hexdigest()[:20]))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + list(srcs) + ["-o", tmp] + list(link), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        m = re.search(r"^[^\n]*: (?:fatal )?error: [^\n]*", p.stdout, re.M)
        if m and headers_compile(cmd, srcs):
            raise DoesNotCompile(base, m.group(0), p.stdout)
        raise Inconclusive("harness %s does not compile against /repo:\n%s" % (base, p.stdout[-4000:]))
    os.rename(tmp, out)
    return out


def headers_compile(cmd, srcs):
    """Whether a program that only includes the public headers the sources include compiles (if not, nothing can be said)."""
    incs = []
    for f in srcs:
        with open(f, encoding="utf-8") as fh:
            incs += re.findall(r'^#include "Caitlyn/[^"]*"', fh.read(), re.M)
    p = subprocess.run(cmd + ["-fsyntax-only", "-x", "c++", "-"], input="\n".join(dict.fromkeys(incs)) + "\nint main() { return 0; }\n",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode == 0


def harness(name):
    return os.path.join(VERIF, "harness", name)


def scratch(prefix):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix="verif-%s-" % prefix, dir=base)


def crash_signature(err):
    m = re.search(r"SUMMARY: \w+: (\S+) (?:\S*/)?([^ /]+?)(?::\d+)*(?::\d+)? in (.*)", err)
    if m:
        return "%s in %s" % (m.group(1), m.group(3).strip())
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan " + m.group(1)[:100]
    m = re.search(r"Assertion '(.*?)' failed", err)
    if m:
        return "assertion " + m.group(1)[:100]
    if "RT: HANG" in err:
        return "hang"
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Syscall param|Invalid|Mismatched|Jump to|Source and dest|Argument)[^\n]*)\n==\d+==\s+at \S+ ([^\n]*)", err)
    if m:
        return "valgrind: %s at %s" % (m.group(1)[:60], m.group(2)[:80])
    m = re.search(r"\nError: (.*)", err)
    if m:
        return "debug mode: " + m.group(1)[:100]
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return "terminate " + m.group(1)
    m = re.search(r"ERROR: (\w+): (\S+)", err)
    if m:
        return m.group(1) + " " + m.group(2)
    return "crash"


def family(root):
    """{pid: CPU ticks used} of a process and its descendants."""
    procs = {}
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n) as fh:
                    f = fh.read().rsplit(")", 1)[1].split()
                procs[int(n)] = (int(f[1]), int(f[11]) + int(f[12]))
            except (OSError, IndexError, ValueError):
                pass
    mine = {root}
    for _ in range(len(procs)):
        more = {p for p, (pp, _) in procs.items() if pp in mine and p not in mine}
        if not more:
            break
        mine |= more
    return {p: procs[p][1] if p in procs else 0 for p in mine}


def activity(root):
    """CPU ticks used so far by the process and its descendants, and whether any of their threads is running or able to."""
    mine = family(root)
    running = False
    for p in mine:
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as fh:
                    running |= fh.read().rsplit(")", 1)[1].split()[0] in "RD"
        except (OSError, IndexError):
            running = True
    return sum(mine.values()), running


def kill_family(p):
    for pid in sorted(family(p.pid), reverse=True):
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    p.wait()


def run_driver(exe, cases, env=None, max_crashes=40, wall=600, rlimit=None, max_hangs=2):
    """Runs the cases; returns one ('ok', line) / ('crash', signature, report) / ('hang', ..) per case."""
    d = scratch("drv")
    try:
        cf, rf = os.path.join(d, "cases"), os.path.join(d, "results")
        with open(cf, "w") as fh:
            for c in cases:
                fh.write(c + "\n")
        open(rf, "w").close()
        e = dict(os.environ)
        e.update(env or {})
        bad = {}
        start = 0
        while start < len(cases):
            with open(os.path.join(d, "err"), "wb") as ef:
                p = subprocess.Popen((list(exe) if isinstance(exe, (list, tuple)) else [exe]) + [cf, rf, str(start)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=ef, env=e, cwd=d, preexec_fn=rlimit)
                last, t0 = -1, time.time()
                cpu, idle = -1, 0
                while True:
                    try:
                        rc = p.wait(timeout=5)
                        break
                    except subprocess.TimeoutExpired:
                        sz = os.path.getsize(rf)
                        ticks, running = activity(p.pid)
                        # blocked: for a minute no thread was able to run, no CPU was used and nothing was recorded
                        idle = 0 if sz != last or ticks != cpu or running else idle + 1
                        cpu = ticks
                        if sz != last:
                            last, t0 = sz, time.time()
                        elif time.time() - t0 > wall or idle >= 12:
                            kill_family(p)
                            rc = "blocked" if idle >= 12 else "stuck"
                            break
            with open(rf, "rb") as fh:
                done = fh.read().count(b"\n") + len(bad)
            # every bad case is given a placeholder line so that results stay aligned
            if rc == 0:
                break
            with open(os.path.join(d, "err"), "rb") as fh:
                err = fh.read().decode("utf-8", "replace")
            if isinstance(rc, int) and rc in (94, 95, 96):
                raise Inconclusive("driver %s error %s at case %d (%s): %s" % (exe, rc, done - len(bad), cases[min(done - len(bad), len(cases) - 1)][:600], err[-2000:]))
            done = done - len(bad)
            guilty = done
            if guilty >= len(cases):
                raise Inconclusive("driver failed after its last case (rc %s): %s" % (rc, err[-2000:]))
            if rc == "blocked":
                kind = ("hang", "blocked", "every thread of the case is blocked (deadlock)")
            elif rc == "stuck":
                kind = ("hang", "no progress", "no progress for %d s (wall clock)" % wall)
            elif "RT: HANG" in err:
                kind = ("hang", "hang", "CPU limit for one case exceeded")
            else:
                kind = ("crash", crash_signature(err), "exit %s: %s" % (rc, err[:6000]))
            # truncate a partial line, then add the placeholder
            with open(rf, "rb") as fh:
                data = fh.read()
            data = data[:data.rfind(b"\n") + 1] if b"\n" in data else b""
            with open(rf, "wb") as fh:
                fh.write(data + b"!BAD\n")
            bad[guilty] = kind
            start = guilty + 1
            if len(bad) >= max_crashes or sum(1 for k in bad.values() if k[0] == "hang") >= max_hangs:
                break
        with open(rf, "r", errors="replace") as fh:
            lines = fh.read().split("\n")[:-1]
        res = []
        for i, l in enumerate(lines):
            res.append(bad[i] if i in bad else ("ok", l))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """Lines 'KNOWN property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>' (inactive)."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.features = collections.Counter()
        self.extra = {}
        self.violations = []  # (key, message, replay payload)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, msg, payload):
        self.violations.append((key, msg, payload))

    def finish(self):
        known = known_findings(self.pid)
        seen_known, real = {}, []
        for key, msg, payload in self.violations:
            if key in known:
                seen_known.setdefault(key, msg)
            else:
                real.append((key, msg, payload))
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, "replay")
        lines, bykey = [], set()
        for key, msg, payload in real:
            if key in bykey or len(bykey) >= 8:
                continue
            bykey.add(key)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, len(bykey)))
            with open(path, "w") as fh:
                json.dump({"property": self.pid, "key": key, "message": msg, "payload": payload}, fh, indent=1)
            lines.append((path, key, msg))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples[:8], "observed": dict(sorted(self.features.items()))}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(real)}
        tmp = os.path.join(EVID, ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for k, t in known.items():
            if k in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        for path, key, msg in lines:
            print("  [%s] %s" % (key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" %
              (self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(real), time.time() - self.t0))
        sys.stdout.flush()
        if real:
            return 1
        if self.evaluations == 0 or not self.distinct:
            print("nothing was observed: inconclusive")
            return 2
        return 0


def h64(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p.encode("utf-8", "surrogatepass") if isinstance(p, str) else p)
        h.update(b"\0")
    return int.from_bytes(h.digest(), "big")


# ---------------------------------------------------------------- generic case-based checks
# When the first violation was seen. Once there is one, a slow failure (hangs, crash after crash) need not be repeated to the end.
_found = mp.Value("d", 0.0)
GRACE = 150


def _worker(args):
    name, idx, seed, tier, exes = args
    mod = importlib.import_module(name)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        rng = random.Random("%s/%d/%d" % (mod.ID, seed, idx))
        out = []
        for dname, cases in mod.batches(rng, idx, tier):
            if _found.value and time.time() - _found.value > GRACE:
                break  # enough was seen: other workers found violations a while ago
            cases = list(cases)
            env = dict(getattr(mod, "ENV", {}))
            results = run_driver(exes[dname], cases, env=env, rlimit=getattr(mod, "RLIMIT", None))
            feats = collections.Counter()
            dist = set()
            viol = []
            samples = []
            for c, r in zip(cases, results):
                v = judge(mod, dname, c, r)
                if v is not None:
                    if len(viol) < 200:
                        viol.append((v[0], v[1], {"driver": dname, "cases": [c], "result": list(r)}))
                if mod.nontrivial(c, r):
                    dist.add(h64(c))
                    if len(samples) < 1 and len(c) < 400:
                        samples.append({"case": c, "observed": r[1][:400] if len(r) > 1 else ""})
                f = getattr(mod, "features", None)
                if f:
                    f(c, r, feats)
            if viol and not _found.value:
                _found.value = time.time()
            out.append((len(results), dist, samples, feats, viol))
        return ("ok", out)
    except Inconclusive as e:
        return ("inc", str(e))
    except Exception:
        return ("inc", traceback.format_exc())


def judge(mod, dname, case, r):
    if r[0] == "crash":
        return ("crash:" + r[1], "the library crashed (%s) on case: %s\n%s" % (r[1], case[:500], r[2][:1200]))
    if r[0] == "hang":
        return ("hang", "no termination (%s) on case: %s" % (r[2], case[:500]))
    line = r[1]
    if " LEAK " in line:
        line, leak = line.rsplit(" LEAK ", 1)
        return ("leak", "memory balance %s bytes after case: %s" % (leak, case[:800]))
    return mod.judge(case, line)


def build_all(mod):
    jobs = [(k, v) for k, v in mod.DRIVERS.items()]
    exes = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {k: ex.submit(lambda v=v: build(harness(v["src"]), **{a: b for a, b in v.items() if a != "src"}))
                for k, v in jobs}
        for k, f in futs.items():
            exes[k] = f.result()
    return exes


def run_cases(mod):
    rep = Report(mod.ID, mod.LEVEL, mod.RULE, mod.ASSUMPTIONS)
    exes = build_all(mod)
    n = mod.WORKERS[rep.tier]
    fails = []
    with mp.Pool(NPROC) as pool:
        for status, out in pool.imap_unordered(_worker, [(mod.__name__, i, rep.seed, rep.tier, exes) for i in range(n)]):
            if status != "ok":
                fails.append(out)
                continue
            for cnt, dist, samples, feats, viol in out:
                rep.evaluations += cnt
                rep.distinct |= dist
                rep.features.update(feats)
                if len(rep.samples) < 8:
                    rep.samples += samples
                for v in viol:
                    rep.violation(*v)
    if getattr(mod, "finish", None):
        mod.finish(rep)
    if getattr(mod, "EXHAUSTIVE", False):
        rep.extra["exhaustive"] = True
    rc = rep.finish()
    if rc != 1 and fails:
        print("inconclusive: " + fails[0][-3000:])
        return 2
    return rc


def replay_cases(mod, payload):
    exes = build_all(mod)
    cases = payload["cases"]
    bad = 0
    for c, r in zip(cases, run_driver(exes[payload["driver"]], cases, env=dict(getattr(mod, "ENV", {})),
                                      rlimit=getattr(mod, "RLIMIT", None))):
        print("case:     " + c)
        print("observed: " + " ".join(str(x) for x in r))
        v = judge(mod, payload["driver"], c, r)
        print("verdict:  " + ("VIOLATION [%s] %s" % v if v else "holds"))
        bad += v is not None
    return 1 if bad else 0
