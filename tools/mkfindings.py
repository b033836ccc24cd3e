#!/usr/bin/env python3
"""Write known_findings.json from the fix commits of /repo (development tool, used by no check)."""
import json, os, subprocess
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
RANGES = [(1, 2, "C01"), (3, 8, "C02"), (9, 13, "C03"), (14, 15, "C05"), (16, 20, "C04"), (21, 23, "C06"), (24, 28, "C11"), (29, 34, "C12"), (35, 37, "C13"),
          (38, 38, "C09"), (39, 39, "C10"), (40, 45, "C07"), (46, 48, "C08"), (49, 60, "C14"), (61, 64, "C16"), (65, 65, "C17"), (66, 67, "C18"), (68, 75, "C19"),
          (76, 77, "C21"), (78, 78, "C22"), (79, 83, "C23"), (84, 91, "C24"), (92, 93, "C25"), (94, 100, "C26")]
ONE = {52: "C15", 56: "C15", 69: "C20", 72: "C20", 75: "C20"}
LATER = {}      # number -> property, for the commits after the hundredth
if os.path.exists(V + "/tools/later_fixes.json"): LATER = {int(k): v for k, v in json.load(open(V + "/tools/later_fixes.json")).items()}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "482f4f9..HEAD"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
out = []
for n, line in enumerate(log, 1):
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = ONE.get(n) or LATER.get(n) or next((p for a, b, p in RANGES if a <= n <= b), None)
    assert p, (n, line)
    out.append(dict(status="fixed", property=p, commit=h, note="fixed: property=%s %s %s" % (p, h, s[5:])))
old = os.path.join(V, "known_findings.json")
known = [e for e in json.load(open(old)) if e["status"] == "known"] if os.path.exists(old) else []
with open(old, "w") as f: f.write("[\n" + ",\n".join(json.dumps(e) for e in known + out) + "\n]\n")
print(len(known), "known,", len(out), "fixed")
