#!/usr/bin/env python3
"""Regenerates the 'fixed' entries of known_findings.json from /repo's fix: commits and the map below (commit subject prefix -> property)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [l.rstrip("\n").split("\t") for l in open(V + "/tools/fixed.txt") if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
f = V + "/known_findings.json"
old = json.load(open(f)) if os.path.exists(f) else []
out = [e for e in old if e["status"] != "fixed"]
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    p = [m for m in M if s[4:].strip().startswith(m[1])]
    assert len(p) == 1, (s, p)
    out.append(dict(status="fixed", property=p[0][0], commit=h, line=f"fixed: property={p[0][0]} {h} {s[4:].strip()}"))
json.dump(out, open(f, "w"), indent=1)
print(len(out), "entries")
