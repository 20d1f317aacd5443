#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
            technique=p.get("technique", "explicit TLA+ model explored by TLC; TLC-generated and random histories executed on the real code and judged by a TLA+ trace specification"),
            level=p.get("level", "model_checking"),
            level_note=p.get("level_note", "Design model explored exhaustively within the configured constants; conformance of the real code is checked on all emitted cases plus random larger ones, so it is bounded by them. Trusted: TLC, the projection of syntax trees in the driver, and the specification's reading of the documentation.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet (planned, see DESIGN.md)")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
    notes="All checks: bin/check ID. They build /repo's working tree into a scratch directory; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
