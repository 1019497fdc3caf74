#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property (tools/props.py, the VP_PROP lines of its harness, tools/design_notes.py), the planted bugs, the repairs."""
import re, glob, json, os, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from props import P, NA
from design_notes import ORACLE, LIMITS, GENERAL, MISSED
o = [open(V + "/tools/design_head.md").read().rstrip(), ""]
bugs = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); bugs[j["property"]].append((os.path.basename(os.path.dirname(m)), j))
fix = collections.Counter()
fixes = collections.defaultdict(list)
known = collections.defaultdict(list)
for e in json.load(open(V + "/known_findings.json")):
    if e["status"] != "fixed": known[e["property"]].append(e["what"]); continue
    fix[e["property"]] += 1; fixes[e["property"]].append(e["line"].split(" ", 2)[2])
o += ["## Properties", ""]
for p in sorted(P, key=lambda p: p["id"]):
    h = glob.glob(f"{V}/harness/{p['id']}_*.cpp"); o += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    if not h: o += ["Not decided: no check.", ""]; continue
    t = open(h[0]).read(); sc = re.search(r"^// SCALE: *(\S+) +(\S+)", t, re.M); sc = (float(sc.group(1)), float(sc.group(2))) if sc else (1, 1)
    o += [f"*Quantified over:* {p['quant']}", "", f"*Oracle:* {ORACLE[p['id']]}", "", f"*Decided by* `{os.path.basename(h[0])}`, level exploration. Sub-properties (cases quick / thorough, what is generated and compared, non-triviality rule):", ""]
    for n, q, th, d in re.findall(r'VP_PROP\(\s*(\w+)\s*,\s*(\d+)\s*,\s*(\d+)\s*,\s*"((?:[^"\\]|\\.)*)"', t): o.append(f"* `{n}` ({int(int(q) * sc[0])} / {int(int(th) * sc[1])}): {d}")
    o += ["", f"*Beyond the tests:* {p['why']}", "", f"*Bounds and tolerance:* {p['note']}", ""]
    if p["id"] in LIMITS: o += [f"*Outside the property:* {LIMITS[p['id']]}", ""]
    o += [f"*Genuine defects found and repaired:* {fix[p['id']]}. *Planted bugs:* " + ("; ".join(f"`{b}` (needs {j['needs']}): {'missed' if b in MISSED else 'caught'}" for b, j in bugs[p["id"]]) or "none kept; sensitivity was tried with throw-away edits while the harness was written") + ".", ""]
o += ["## Repaired defects", "", "Each is one `fix:` commit in /repo; the check reports the violation again when the commit is reverted.", ""]
for k in sorted(fixes): o += [f"* {k}: " + "; ".join(fixes[k])]
o += [""]
o += ["## Known findings (defects recorded, not repaired)", ""] + [f"* {k}: {w}" for k in sorted(known) for w in known[k]] + [""]
o += ["## Known limits and suspected defects not covered", "", GENERAL.strip(), ""]
if NA: o += ["## Not applicable", ""] + [f"* {k}: {v}" for k, v in NA.items()] + [""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
