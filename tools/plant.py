#!/usr/bin/env python3
"""plant.py SPEC.py... : makes seeded/<id>/ from a spec (id, prop, edits, needs, breaks, demo) and confirms it: applies, builds, tests pass,
demo passes without and fails with it; then runs the property's quick check.  `plant.py --recheck [ids]` repeats this for what exists."""
import sys, os, json, subprocess, glob, re
V = "/verif"; R = "/repo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f"git -C {R} checkout -- .")
def verify(bid, build=True, check=True):
    d = f"{V}/seeded/{bid}"; meta = json.load(open(d + "/meta.json")); res = []
    assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip()
    p = sh(f"bash {d}/demo.sh", cwd=R); res.append(f"demo clean={p.returncode}")
    if p.returncode: print(p.stdout[-500:], p.stderr[-1500:])
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(bid, "patch does not apply", a.stderr); return
    try:
        if build:
            b = sh("bash /opt/vp/build.sh"); res.append(f"build={b.returncode}")
            if b.returncode: print(b.stdout[-2000:], b.stderr[-1000:])
            t = sh("bash /opt/vp/test.sh /tmp/w/t.json"); t = json.load(open("/tmp/w/t.json")); res.append(f"failed tests={t['failed'] if isinstance(t['failed'], int) else len(t['failed'])}/{t['passed'] if isinstance(t['passed'], int) else len(t['passed'])}")
        p = sh(f"bash {d}/demo.sh", cwd=R); res.append(f"demo patched={p.returncode}")
        if check:
            p = sh(f"python3 run.py {meta['property']}", cwd=V)
            v = re.findall(r"failing case (\S+) (#\d+)", p.stdout); res.append(f"check={p.returncode} {v}")
    finally: clean()
    if build: sh("bash /opt/vp/build.sh")
    print(bid, meta["property"], "; ".join(res), flush=True)
def make(spec):
    g = {}; exec(open(spec).read(), g); d = f"{V}/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip()
    for f, old, new in g["edits"]:
        p = f"{R}/include/delfem2/{f}"; t = open(p, newline="").read(); crlf = "\r\n" in t
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w", newline="").write(t.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.run(f"git -C {R} diff", shell=True, capture_output=True).stdout); clean()
    open(d + "/demo.cpp", "w").write(g["demo"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository; builds the demonstration against its headers in a scratch directory
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -include cstdint -I"$PWD/include" -I"$PWD/3rd_party" -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -pthread || exit 3
cd "$t" && timeout 120 ./demo
''')
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return g["id"]
a = sys.argv[1:]
if a and a[0] == "--recheck":
    for b in a[1:] or sorted(os.listdir(V + "/seeded")): verify(b)
else:
    for s in a: verify(make(s))
