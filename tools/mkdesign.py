#!/usr/bin/env python3
"""mkdesign.py : DESIGN.md from tools/design_head.md, the registry, the carve-outs below and the catch table tools/catches.txt."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/bin")
from registry import PROPS
props = {}
for l in open(H + "/properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
notes = {}
cur = None
for l in open(H + "/tools/design_notes.md"):
    if l.startswith("## "):
        cur = l[3:].strip(); notes[cur] = []
    elif cur:
        notes[cur].append(l.rstrip("\n"))
out = [open(H + "/tools/design_head.md").read().rstrip("\n"), "", "## The properties one by one", ""]
for pid in sorted(props):
    p = PROPS.get(pid)
    out.append("### %s %s" % (pid, props[pid]["title"]))
    if p:
        mods = ", ".join("`%s`" % m["module"] for m in p["mc"])
        out.append("Models %s; judged by `%s`; %d random cases quick, %d thorough." % (mods, p["trace"], p["n"]["quick"], p["n"]["thorough"]))
        out.append("Explored and compared: " + p["rule"] + ".")
    out += [l for l in notes.get(pid, []) if l.strip()]
    out.append("")
out.append(open(H + "/tools/design_tail.md").read().rstrip("\n"))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
