#!/usr/bin/env python3
"""MANIFEST.json from the list of claimed properties (props/<id>.py) and notes here."""
import json, os
H = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
NA = {}
NOTES = {}
exec(open(os.path.join(H, "tools", "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")) and i not in NA:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "explicit TLA+ state machine checked with TLC; model transitions replayed into the code and recorded traces validated against the specification"),
                           level="model_checking", level_note=n.get("level_note", DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet claimed: the specification for this part is being written")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Specifications are in TLA+ (specs/*.tla), checked with TLC. No hooks are compiled into /repo: all observation is through the public API."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
