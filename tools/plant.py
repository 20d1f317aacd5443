#!/usr/bin/env python3
"""plant.py ID... : confirms seeded bugs (demo quiet on /repo's HEAD, patch builds, stable tests pass, demo fails) and,
with --check, runs the property's check against each.  Applies the patch to /repo and undoes it."""
import json, os, subprocess, sys, time
V = "/verif/seeded/"
def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return r.returncode, r.stdout
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
args = sys.argv[1:]
check = "--check" in args
verify = "--noverify" not in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V))
for i in ids:
    d = V + i
    meta = json.load(open(d + "/meta.json"))
    res = []
    assert sh("git -C /repo status --porcelain")[1] == "", "repo dirty"
    if verify:
        rc, o = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        res.append("demo-clean=%d" % rc)
        if rc: print(o[-1500:])
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc:
        print(i, "DOES NOT APPLY", o); continue
    try:
        if verify:
            rc, o = sh("bash /opt/vp/build.sh"); res.append("build=%d" % rc)
            if rc: print(o[-1500:])
            rc, o = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            out = json.load(open("/tmp/plant_out.json"))
            passed = set(out.get("passed") or [])
            lost = stable - passed
            res.append("lost-tests=%d" % len(lost))
            if lost: print(sorted(lost)[:5])
            rc, o = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
            res.append("demo-bug=%d" % rc)
        if check:
            t = time.time()
            rc, o = sh("bin/check %s --tier quick" % meta["property"], cwd="/verif", env=dict(os.environ, VERIF_SEED="1"))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
            res.append("check=%d viol=%d %.0fs" % (rc, len(v), time.time() - t))
            if rc not in (0, 1): print(o[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, meta["property"], *res, flush=True)
sh("bash /opt/vp/build.sh")
