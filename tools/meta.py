"""Regenerates MANIFEST.json and the statements in properties.jsonl from one table (run by hand; no check reads it)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import claims      # noqa

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na, out = [], [], []
for p in props:
    i = p["id"]
    if i in claims.DROP:
        continue
    if i in claims.STATEMENT:
        t = claims.STATEMENT[i]
        if isinstance(t, tuple):
            p["title"], p["statement"] = t
        else:
            p["statement"] = t
    out.append(p)
    if i in claims.CLAIM:
        mod = importlib.import_module("sa.checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 -m sa.run %s quick" % i, "thorough_cmd": "python3 -m sa.run %s thorough" % i,
                       "technique": "static analysis: " + mod.TECHNIQUE, "level": "other", "level_note": claims.CLAIM[i] + " " + claims.COMMON})
    else:
        na.append({"property": i, "reason": claims.NA[i]})
for p in claims.NEW:
    if p["id"] not in [x["id"] for x in out]:
        out.append(p)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks read /repo's source and never run it. See DESIGN.md."}, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
