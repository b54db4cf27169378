"""Runs the quick check of each planted bug (or those named) against a scratch clone with the patch applied."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
ids = sys.argv[1:] or sorted(os.listdir(plant.SEED))
for sid in ids:
    d = os.path.join(plant.SEED, sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    plant.fresh()
    r = plant.sh("git apply %s/patch.diff" % d, cwd=plant.WT)
    if r.returncode:
        print(sid, prop, "DOES NOT APPLY", r.stdout[:200]); continue
    r = plant.sh("VERIF_SEED=%s VERIF_REPO=%s timeout 900 python3 check.py %s" % (os.environ.get("VERIF_SEED", "1"), plant.WT, prop), cwd=plant.ROOT)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=%s " % prop)]
    print(sid, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]), flush=True)
    plant.sh("git checkout -q -f .", cwd=plant.WT)
