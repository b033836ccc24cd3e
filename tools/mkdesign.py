#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, the evidence files and the planted bugs (development tool)."""
import json, os, glob
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
exec(open(V + "/tools/design_notes.py").read())
rows = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    f = V + "/evidence/%s.json" % i
    e = json.load(open(f)) if os.path.exists(f) else dict(coverage={}, wall_s=0)
    c = e["coverage"]
    if "executions" in c and "calls_validated" not in c:
        num = "%d scenarios, %d executions, %d distinct histories; TLC: %d states" % (c["scenarios"], c["executions"], c["traces_validated_against_impl"], c["states"])
    else:
        num = "model %d / %d; replayed %d; %d traces, %d calls" % (c.get("states", 0), c.get("transitions", 0), c.get("model_transitions_replayed", 0), c.get("traces_validated_against_impl", 0), c.get("calls_validated", 0))
    rows.append("### %s %s\n%s\n*Quick tier:* %s; about %d s.\n" % (i, p["title"], NOTES[i], num, e["wall_s"]))
seeds = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), CAUGHT.get(n, "yes")))
t = open(V + "/tools/design.md").read().replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@OPEN@@", OPEN.strip())
open(V + "/DESIGN.md", "w").write(t)
