#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] : builds the harnesses of one property from /repo's working tree, runs
them, writes /verif/evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION line(s); 2: error.
run.py replay FILE : rebuilds the harness and replays one saved case."""
import sys, os, json, subprocess, time, glob, hashlib, shutil, concurrent.futures, tempfile, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-include", "cstdint", "-pthread",
         "-fsanitize=address,bounds,integer-divide-by-zero,vptr,shift-exponent,return,unreachable,vla-bound,null",
         "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
         "-D_GLIBCXX_SANITIZE_VECTOR=1",
         f"-I{REPO}/include", f"-I{V}/engine", f"-I{V}/harness", f"-I{REPO}/3rd_party",
         "-isystem", "/usr/include/eigen3", "-isystem", "/opt/vp/compat", "-isystem", "/usr/include/stb",
         f"-DVP_REPO_DIR=\"{REPO}\""]

def props():
    return {p["id"]: p for p in map(json.loads, open(f"{V}/properties.jsonl"))}

def build(pid, bdir):
    srcs = sorted(glob.glob(f"{V}/harness/{pid}_*.cpp"))
    if not srcs:
        print(f"no harness for {pid}"); sys.exit(2)
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    for s in srcs + [f"{V}/engine/vp.cpp"]:
        o = f"{bdir}/{os.path.basename(s)}.o"
        extra = []
        head = open(s).read(2000)
        m = re.search(r"// *FLAGS: *(.*)", head)
        if m: extra = m.group(1).split()
        jobs.append((s, o, extra))
    def comp(j):
        s, o, extra = j
        p = subprocess.run([CXX, *FLAGS, *extra, "-c", s, "-o", o], capture_output=True, text=True)
        return s, p.returncode, p.stderr
    ok = True
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        for s, rc, err in ex.map(comp, jobs):
            if rc:
                ok = False
                print(f"build of {s} failed:\n{err[:4000]}")
    if not ok: sys.exit(2)
    binp = f"{bdir}/{pid}"
    p = subprocess.run([CXX, *FLAGS, "-Wl,--gc-sections", *[o for _, o, _ in jobs], "-o", binp], capture_output=True, text=True)
    if p.returncode:
        print(f"link failed:\n{p.stderr[:4000]}"); sys.exit(2)
    return binp

def known():
    f = f"{V}/known_findings.json"
    return json.load(open(f)) if os.path.exists(f) else []

def main():
    a = sys.argv[1:]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bdir0 = os.environ.get("VP_BUILD", f"{V}/build")
    if a[0] == "replay":
        txt = open(a[1]).read()
        pid = re.search(r"property=(\w+)", txt).group(1)
        b = build(pid, f"{bdir0}/{pid}")
        sys.exit(subprocess.run([b, "replay", a[1]]).returncode)
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        else: extra.append(a[i]); i += 1
    bdir = f"{bdir0}/{pid}"
    b = build(pid, bdir)
    tb = time.time() - t0
    rdir = f"{bdir0}/replays"; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{pid}_*.replay"): os.unlink(f)
    out = f"{bdir}/out.json"
    if os.path.exists(out): os.unlink(out)
    tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    env = dict(os.environ, VP_TMP=tmp)
    # known findings: each is a saved input; it is replayed and reported, never searched for
    nknown = 0
    for k in known():
        if k.get("property") != pid or k.get("status") != "known": continue
        p = subprocess.run([b, "replay", f"{V}/{k['replay']}"], env=env, capture_output=True, text=True)
        if p.returncode == 1:
            nknown += 1
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    # "// SCALE: quick thorough" in a harness multiplies the case counts written there
    if not any(x.startswith("scale=") for x in extra):
        for s in sorted(glob.glob(f"{V}/harness/{pid}_*.cpp")):
            m = re.search(r"// *SCALE: *([0-9.]+) +([0-9.]+)", open(s).read(2000))
            if m: extra.append("scale=" + m.group(1 if tier == "quick" else 2)); break
    p = subprocess.run([b, "run", pid, tier, str(seed), out, rdir, *extra], env=env, cwd=tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print(f"harness of {pid} ended with {p.returncode}"); sys.exit(2)
    d = json.load(open(out))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(s["run"] for s in d["subs"]),
              "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in d["subs"]),
              "rule": "Seeded generated cases per sub-property; a case is counted non-trivial by the rule in its entry of sub_properties, and distinct by the hash of its choice sequence.",
              "samples": [dict(sub=s["name"], **x) for s in d["subs"] for x in s["samples"]],
              "sub_properties": [{k: v for k, v in s.items() if k != "samples"} for s in d["subs"]],
              "labels": d["labels"], "known_findings_seen": nknown, "not_replayable": d["flaky"], "stopped_early": d["cut"],
              "build_s": round(tb, 1), "explore_s": d["explore_s"]},
          "assumptions": ["tolerances as written in the harness", "cases are drawn from the generators described per sub-property; nothing outside them is covered"],
          "wall_s": round(time.time() - t0, 2), "violations": len(d["violations"])}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {ev['coverage']['evaluations']} cases ({ev['coverage']['distinct_nontrivial']} distinct non-trivial) in {len(d['subs'])} sub-properties, "
          f"build {tb:.0f}s explore {d['explore_s']:.0f}s, violations {len(d['violations'])}" + (" [stopped early: wall limit]" if d["cut"] else ""))
    sys.exit(1 if d["violations"] else 0)

main()
