#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed iff harness/<id>_*.cpp exists."""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import P, NA
assert len({p["id"] for p in P}) == len(P)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=["include/delfem2/" + x for x in p["files"]],
                              mechanism=[dict(name=n, where="include/delfem2/" + w) for n, w in p["mech"]],
                              observe_at=p.get("observe", ["return values and output arguments of the public functions"]),
                              hook_needed=None))
        f.write(json.dumps(q) + "\n")
checks = []
na = [dict(property=k, reason=v) for k, v in NA.items()]
for p in P:
    if p["id"] in NA: continue
    if not glob.glob(f"{V}/harness/{p['id']}_*.cpp"):
        na.append(dict(property=p["id"], reason="no check built yet")); continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                       technique=p.get("tech", "property-based testing: seeded choice-sequence generators, explicit oracle, shrinking; forked ASan/UBSan workers"),
                       level="exploration", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Each check compiles harness/<id>_*.cpp with /repo/include (header-only mode), asserts on, ASan and selected UBSan checks, and runs a fixed number of seeded cases per sub-property on all cores. No hooks in /repo are used."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
