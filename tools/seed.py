#!/usr/bin/env python3
"""Confirm a planted bug: seed.py confirm ID... | seed.py check ID... (run the property's quick check against it).

Works in scratch copies of /repo under /tmp/seedw; /repo itself is never touched. Development tool, used by no check."""
import json, os, subprocess, sys, shutil
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
W = os.environ.get("SEEDW", "/tmp/seedw")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def prepare(name):
    d = W + "/" + name
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        sh("git -C /repo worktree prune; git clone -q /repo %s" % d)
        for n in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + n).read().replace("REPO=/repo", "REPO=" + d)
            open(W + "/%s-%s" % (name, n), "w").write(t)
    sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD; git clean -qfd -e _build", cwd=d)
    return d

def build(name): return sh("bash %s/%s-build.sh" % (W, name))

def passed(name):
    o = W + "/%s.json" % name
    sh("bash %s/%s-test.sh %s" % (W, name, o))
    return set(json.load(open(o))["passed"])

def confirm(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    a = prepare("orig"); r = build("orig"); assert r.returncode == 0, r.stdout[-2000:]
    for i in ids:
        s = V + "/seeded/" + i
        b = prepare("bug")
        r = sh("git apply %s/patch.diff" % s, cwd=b)
        if r.returncode: print(i, "APPLY FAILS", r.stdout); continue
        r = build("bug")
        if r.returncode: print(i, "BUILD FAILS", r.stdout[-1500:]); continue
        missing = base - passed("bug")
        demo = W + "/demo"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(s, demo)
        good = sh("bash %s/demo.sh" % demo, cwd=a); bad = sh("bash %s/demo.sh" % demo, cwd=b)
        ok = not missing and good.returncode == 0 and bad.returncode != 0
        print(i, "OK" if ok else "NOT OK", "tests missing %s" % sorted(missing) if missing else "", "demo good=%d bad=%d" % (good.returncode, bad.returncode), "" if ok else good.stdout[-500:] + "|" + bad.stdout[-500:], "::", bad.stdout.strip()[-150:], flush=True)

def check(ids, tier="quick"):
    for i in ids:
        s = V + "/seeded/" + i
        p = json.load(open(s + "/meta.json"))["property"]
        b = prepare("bug"); r = sh("git apply %s/patch.diff" % s, cwd=b)
        r = sh("VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s python3 check.py %s %s" % (b, p, tier), cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "exit", r.returncode, v[:1] or r.stdout[-600:], flush=True)

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(x for x in os.listdir(V + "/seeded") if os.path.isdir(V + "/seeded/" + x))
    if sys.argv[1] == "confirm": confirm(ids)
    else: check(ids)
