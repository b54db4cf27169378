#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from tools/props.py and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("tools", "lib", "checks", ""):
    sys.path.insert(0, os.path.join(V, d))
sys.dont_write_bytecode = True
import props
NA = {}
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in props.P:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": NA.get(i, "the check for this property is still being built")})
        continue
    m = importlib.import_module(i)
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": m.TECHNIQUE, "level": m.LEVEL,
                   "level_note": getattr(m, "LEVEL_NOTE", "Every execution of the generated workload is observed and judged; assurance is over the explored cases only. Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "Replay a reported violation with: python3 check.py <ID> --replay <path>"}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
