"""C36: calls of different threads on objects of their own do not interfere.  The histories are those of the sequential properties."""
import concurrent.futures as cf
import importlib, json, os, random
import conccheck, seqcheck, vf
from vf import log
SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c11", "c12", "c14", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c24",
           "c25", "c26", "c27", "c28", "c29", "c31", "c32", "c33"]
FLAGS = ["-include", "apart.hpp"]


def gather(th):
    out = []
    for m in SOURCES:
        seqcheck.collect = []
        importlib.import_module(m).main()
        c = seqcheck.collect[0]; seqcheck.collect = None
        sc = c["randoms"](random.Random(vf.seed() * 7919 + 11), th)
        if c["transform"]: sc = [c["transform"](s) for s in sc]
        out.append((m.upper(), c, sc))
    return out


def keyed(script, lane):
    return [[s[0], lane * 1000 + k] + list(s[1:]) for k, s in enumerate(script)] + [["end", lane * 1000 + 999]]


def scenario(scripts):
    ls = [keyed(s, k + 1) for k, s in enumerate(scripts)]
    return dict(init=[c for l in ls for c in l], threads=ls, final=[])


def alone(scripts):
    """each script twice, with nothing running at the same time"""
    return dict(init=[c for _ in range(2) for k, s in enumerate(scripts) for c in keyed(s, k + 1)], threads=[], final=[])


def constant(h):
    seen = {}
    for e in conccheck.prepare(h):
        if e["k"] == "call" and seen.setdefault(e["a"][0], (e["rr"], e["rx"])) != (e["rr"], e["rx"]): return False
    return h[-1]["k"] != "crash" if h else True


def pairs(rng, m, sc, n):
    """for each operation, n pairs of short histories for the same kind of object that end in it"""
    mixed = m != "C24"                                                  # a date's zone is the process's
    ends = {}
    for s in sc:
        for k in range(1, len(s)):
            if k > 20 or len(str(s[:k + 1])) > 1500: break
            ends.setdefault(s[k][0], []).append(s[:k + 1])
    n = max(n, 24 // max(1, len(ends)))
    out, seen = [], set()
    for op in sorted(ends):
        l = ends[op]; rng.shuffle(l)
        near = sorted(l, key=len)[:8 * n]                               # the shorter they are, the more often the two meet
        for i in range(n):
            c = near if i % 2 else l
            a = rng.choice(c)
            b = [x for x in c if x != a and (x[0] == a[0] or mixed and i % 3 == 0)] or [x for x in l if x != a and (x[0] == a[0] or mixed)]
            if not b: continue
            b = rng.choice(b)
            key = json.dumps([a, b])
            if key not in seen: seen.add(key); out.append([a, b])
    return out


def results(h):
    """what a history says: the specification does not look at the order of calls"""
    return json.dumps(sorted([e["t"], e["a"][0], e["d"], e["rr"], e["rx"]] for e in conccheck.prepare(h) if e["k"] == "call")) + str([e["k"] for e in h if e["k"] not in ("call", "ret")])


def build(c):
    return conccheck.build(c["driver"], FLAGS + list(c["flags"]), "apart-" + os.path.splitext(c["driver"])[0])


def main():
    try:
        th = vf.thorough()
        rng = random.Random(vf.seed() * 7919 + 5)
        src = gather(th)
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            fm = ex.submit(vf.model_check, "ApartDesign", "ApartDesign.cfg")
            build(src[0][1])                                                    # the library first
            list(ex.map(build, {(c["driver"], tuple(c["flags"])): c for _, c, _ in src}.values()))
            ms = fm.result()
        log("%d drivers built" % len(src))
        plans = ["sta %d 3" % (200 if th else 32), "rnd %d 7 0" % (160 if th else 16)]
        todo = [(m, c, pairs(rng, m, sc, 16 if th else 4)) for m, c, sc in src]
        hists, st, dropped = [], dict(executions=0, points=0, complete=0), 0
        def one(job):
            m, c, ps = job
            exe = build(c)
            hs, _ = conccheck._run(exe, [alone(p) for p in ps], list(range(len(ps))), lambda k: ["rnd 1 1 0"], c["timeout"], 0)
            bad = {k for k, _, h in hs if not constant(h)}
            keep = [scenario(p) for k, p in enumerate(ps) if k not in bad]
            hs, s = conccheck._run(exe, keep, list(range(len(keep))), lambda k: plans, 60, rng.randrange(vf.NPROC))
            return m, c, keep, hs, s, len(bad)
        found, n = {}, 0
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            for m, c, keep, hs, s, d in ex.map(one, todo):
                n += len(keep); dropped += d
                for x in st: st[x] += s[x]
                for k, sch, h in hs: found.setdefault((m, k, results(h)), (m, c, keep[k], sch, h))
        hists = list(found.values())
        log("%d executions of %d scenarios (%d set aside), %d schedule points, %d different outcomes" % (st["executions"], n, dropped, st["points"], len(hists)))
        if dropped > n: raise vf.CheckError("most histories are not repeatable: %d" % dropped)
        bad, states = conccheck.validate("Apart", [x[4] for x in hists])
        cov = dict(states=ms[1] + states, transitions=ms[0] + states, traces_validated_against_impl=len(hists), executions=st["executions"],
                   schedule_points=st["points"], scenarios=n, scenarios_not_repeatable=dropped, drivers=len(src), samples=[conccheck.show(x[4])[:12] for x in hists[:2]],
                   rule="pairs of histories of the sequential properties, each thread on objects of its own, under seeded random schedules")
        ass = ["a call of the C library is one step: the C library's own data is not searched for races", "each thread's calls are made alone once before the threads start"]
        if bad:
            i = min(bad, key=lambda x: len(hists[x][4]))
            m, c, sc, sch, h = hists[i]
            lines = ["a thread's calls (those of %s) return something else than alone:" % m] + conccheck.show(h, bad[i]) + ["schedule: " + sch]
            path = vf.write_replay("C36", "violation", dict(property="C36", of=m, scenario=sc, schedule=sch, recorded=h, explanation=lines, how="python3 check.py --replay <this file>"))
            vf.write_evidence("C36", "model_checking", cov, ass, violations=len(bad))
            print("\n".join(lines[-60:])[-6000:]); print("VIOLATION property=C36 replay=%s" % path)
            return 1
        vf.write_evidence("C36", "model_checking", cov, ass)
        print("OK property=C36: %d scenarios of %d drivers, %d executions: every thread as if alone" % (n, len(src), st["executions"]))
        return 0
    except vf.CheckError as e:
        print("CHECK ERROR property=C36: %s" % e)
        return 2


def replay(d):
    seqcheck.collect = []
    importlib.import_module(d["of"].lower()).main()
    c = seqcheck.collect[0]; seqcheck.collect = None
    return conccheck.replay_with(build(c), "Apart", d)
