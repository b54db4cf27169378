"""Helper for planting bugs: makes /verif/seeded/<id> from edits, after confirming in a scratch clone of /repo that the
change builds, passes the stable tests, changes lines of the original repository, and that the demonstration tells the two apart.
Not used by any check."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
WT = "/tmp/wt/plant"
BASE = "include/Caitlyn/"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(WT):
        os.makedirs("/tmp/wt", exist_ok=True)
        print(sh("git clone -q /repo " + WT).stdout)
    sh("git fetch -q; git checkout -q -f origin/HEAD; git clean -fdq -e _build", cwd=WT)


def build_and_test():
    r = sh("CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DDEVELOPMENT=ON -DCMAKE_CXX_COMPILER=g++ '-DCMAKE_CXX_FLAGS=-include cstdint' && ninja -C _build", cwd=WT)
    if r.returncode:
        return "build failed\n" + r.stdout[-3000:]
    r = sh("cd _build && timeout 300 ./test/CaitlynTest < /dev/null", cwd=WT)
    ok = set(re.findall(r"\[       OK \] (\w+\.\w+)", r.stdout))
    missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
    return "tests failing: %s" % missing if missing else None


DEMO_SH = """#!/bin/bash
# Builds and runs the demonstration against ./include; exit 0 if the property holds.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
%(cxx)s %(flags)s -include cstdint -I "$r/include" "$d/demo.cpp" -o "$t/demo" || { rmdir "$t"; exit 3; }
cd "$t"
timeout 200 ./demo < /dev/null
rc=$?
cd "$r"
unlink "$t/demo"
rmdir "$t" 2> /dev/null
[ $rc -eq 0 ]
"""


def plant(sid, prop, edits, demo, needs, breaks, cxx="g++", flags="-std=c++11 -g -O1", sh_text=None, run_check=True):
    fresh()
    for path, old, new in edits:
        p = os.path.join(WT, BASE + path)
        s = open(p, encoding="utf-8").read()
        assert s.count(old) == 1, (sid, path, s.count(old), old)
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = sh("git diff", cwd=WT).stdout
    # removed lines must be original
    for path in {e[0] for e in edits}:
        blame = sh("git blame -s HEAD -- " + BASE + path, cwd=WT).stdout.split("\n")
        for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + BASE + path, cwd=WT).stdout, re.M):
            a, n = int(h[0]), int(h[1] or 1)
            for l in blame[a - 1:a - 1 + n]:
                if not l.startswith("^"):
                    print("  NOTE %s: changes a line of a fix: %s" % (sid, l[:120]))
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh_text or DEMO_SH % {"cxx": cxx, "flags": flags})
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    err = build_and_test()
    if err:
        print(sid, "REJECTED", err); shutil.rmtree(d); return False
    r1 = sh("bash %s/demo.sh" % d, cwd=WT)
    sh("git checkout -q -f .", cwd=WT)
    r0 = sh("bash %s/demo.sh" % d, cwd=WT)
    if r0.returncode != 0 or r1.returncode == 0:
        print(sid, "REJECTED demo: clean rc %d, patched rc %d\n%s\n--\n%s" % (r0.returncode, r1.returncode, r0.stdout[-1500:], r1.stdout[-1500:])); shutil.rmtree(d); return False
    verdict = "?"
    if run_check:
        sh("git apply %s/patch.diff" % d, cwd=WT)
        r = sh("VERIF_SEED=1 VERIF_REPO=%s timeout 900 python3 check.py %s" % (WT, prop), cwd=ROOT)
        sh("git checkout -q -f .", cwd=WT)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        verdict = "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    print(sid, prop, verdict)
    return True
