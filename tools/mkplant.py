#!/usr/bin/env python3
"""mkplant.py SPEC.py : creates /verif/seeded/<id>/ from a list BUGS of dict(id, property, edits=[(file, old, new)], demo, needs, breaks, files={})."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == "", "dirty"
    d = "/verif/seeded/" + b["id"]
    try:
        for f, old, new in b["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + ns.get("PRE", "") + b["demo"])
    for n, c in b.get("files", {}).items():
        open(d + "/" + n, "w").write(c)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("made", b["id"])
