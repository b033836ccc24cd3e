"""Runner for properties about concurrent executions.

The code under test is compiled with the compiler's thread instrumentation and linked with drivers/sched.cpp, a
deterministic scheduler; a driver executes small concurrent scenarios under very many schedules and prints every
distinct history.  TLC then decides, for each history, whether specs/<X>Lin.tla has a behaviour producing it."""
import concurrent.futures as cf
import hashlib, json, os, random, re, signal, subprocess, sys, tempfile
import vf
from vf import log

TSAN = ["-fsanitize=thread"]
CXX = ["g++", "-std=gnu++11", "-D_GNU_SOURCE", "-w", "-O0", "-g1"]
CC = ["gcc", "-D_GNU_SOURCE", "-w", "-O0", "-g1"]


def build(driver, flags=(), name=None):
    objs = vf.build_objs(TSAN, "conc", None, CXX, CC)
    D = os.path.join(vf.VERIF, "drivers")
    h = hashlib.sha256(vf.tree_key().encode())
    h.update(repr(list(flags)).encode())
    for f in [driver, "sched.cpp"] + sorted(x for x in os.listdir(D) if x.endswith(".hpp")):
        h.update(open(os.path.join(D, f), "rb").read())
    name = (name or os.path.splitext(driver)[0]) + "-conc-"
    exe = os.path.join(vf.CACHE, name + h.hexdigest()[:20])
    if os.path.exists(exe):
        return exe
    for x in os.listdir(vf.CACHE):
        if x.startswith(name):
            try: os.remove(os.path.join(vf.CACHE, x))
            except OSError: pass
    tmp = exe + ".%d" % os.getpid()
    jobs = [CXX + TSAN + list(flags) + ["-I" + vf.REPO, "-I" + D, "-c", os.path.join(D, driver), "-o", tmp + ".d.o"],
            ["g++", "-std=gnu++17", "-O2", "-w", "-fno-threadsafe-statics", "-I" + D, "-c", os.path.join(D, "sched.cpp"), "-o", tmp + ".s.o"]]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(vf.run_cmd, jobs):
            if r.returncode:
                raise vf.CheckError("driver %s does not build against the library:\n%s" % (driver, r.stdout[-4000:]))
    r = vf.run_cmd(["ar", "rcs", tmp + ".a"] + objs)
    r = vf.run_cmd(["g++", tmp + ".d.o", tmp + ".s.o", tmp + ".a", "-lpthread", "-ldl", "-lm", "-lrt", "-o", tmp])
    if r.returncode:
        raise vf.CheckError("driver %s does not link:\n%s" % (driver, r.stdout[-4000:]))
    for x in (".d.o", ".s.o", ".a"):
        os.remove(tmp + x)
    os.replace(tmp, exe)
    return exe


def text(k, sc, plans):
    ls = ["B %d" % k]
    ls += ["I " + vf.enc_call(c) for c in sc.get("init", [])]
    for t, cs in enumerate(sc["threads"], 1):
        ls += ["T %d %s" % (t, vf.enc_call(c)) for c in cs]
    ls += ["F " + vf.enc_call(c) for c in sc.get("final", [])]
    return "\n".join(ls + ["G " + p for p in plans] + ["E"])


def execute(exe, scenarios, plans_of, timeout_each=30):
    """-> list of (scenario index, schedule, history), statistics"""
    n = len(scenarios)
    parts = min(vf.NPROC, n)
    hists, stats = [], dict(executions=0, points=0, complete=0)
    with cf.ThreadPoolExecutor(parts) as ex:
        for hs, st in ex.map(lambda p: _run(exe, scenarios, list(range(p, n, parts)), plans_of, timeout_each, p), range(parts)):
            hists += hs
            for x in st:
                stats[x] += st[x]
    return hists, stats


def _pin(part):
    os.setsid()
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[part % len(cpus)]})     # the threads take turns: one processor is enough
    except OSError:
        pass


def _run(exe, scenarios, idx, plans_of, timeout_each, part=0):
    hists, st = [], dict(executions=0, points=0, complete=0)
    pos = 0
    while pos < len(idx):
        inp = "\n".join(text(k, scenarios[k], plans_of(k)) for k in idx[pos:]) + "\n"
        with tempfile.TemporaryFile("w+") as fi, tempfile.TemporaryFile("w+b") as fo, tempfile.TemporaryFile("w+b") as fe:
            fi.write(inp); fi.seek(0)
            p = subprocess.Popen([exe, str(timeout_each)], stdin=fi, stdout=fo, stderr=fe, env=dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", MALLOC_PERTURB_="165"), preexec_fn=lambda: _pin(part))
            try:
                rc = p.wait(timeout=800)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -9
            fo.seek(0); fe.seek(0)
            out = fo.read().decode("latin-1"); err = fe.read().decode("latin-1")[-1500:]
        last = None
        for ln in out.split("\n"):
            try:
                if ln.startswith("@"):
                    g = json.loads(ln[1:]); last = int(g["id"])
                    hists.append((last, g["sch"], g["h"]))
                elif ln.startswith("="):
                    g = json.loads(ln[1:]); last = None
                    st["executions"] += g["exec"]; st["points"] += g["points"]; st["complete"] += bool(g["complete"])
                    pos += 1
            except ValueError:
                break
        if rc == 97:
            raise vf.CheckError("driver could not interpret its script: " + err)
        if rc not in (0, 95):
            if rc != 98:
                raise vf.CheckError("driver died with status %d\n%s" % (rc, err))
            pos += 1                                 # the scenario that crashed is recorded as a history ending in a crash
    return hists, st


def prepare(h):
    """Adds to every call whether and how it returned, to every return the index of its call, and whether calls overlap."""
    h = [dict(e) for e in h]
    open_, n_open = {}, 0
    for k, e in enumerate(h):
        if e["k"] == "call":
            e.update(d=0, rr=[], rx="", rm=0, ov=1 if open_ else 0, w=[h[open_[t]]["o"] for t in open_])    # w: the calls under way meanwhile
            for t in open_:
                h[open_[t]]["ov"] = 1
                h[open_[t]]["w"].append(e["o"])
            open_[e["t"]] = k
        elif e["k"] == "ret":
            c = open_.pop(e["t"])
            h[c].update(d=1, rr=e["r"], rx=e["x"], rm=e["m"])
            e["c"] = c + 1
    return h


def validate(spec, hists, chunk_events=60000, timeout=800, mem="3g"):
    """Indices of the histories that specs/<spec>Lin.tla cannot produce -> {index: event reached}"""
    chunk_events = min(chunk_events, max(600, sum(map(len, hists)) // vf.NPROC + 1))
    chunks, cur, n = [], [], 0
    for i, h in enumerate(hists):
        cur.append(i); n += len(h)
        if n >= chunk_events:
            chunks.append(cur); cur, n = [], 0
    if cur:
        chunks.append(cur)
    bad, states = {}, 0
    with cf.ThreadPoolExecutor(vf.NPROC) as ex:
        for b, s in ex.map(lambda c: _chunk(spec, hists, c, timeout, mem), chunks):
            bad.update(b); states += s
    return bad, states


def _chunk(spec, hists, idx, timeout, mem):
    fd, path = tempfile.mkstemp(prefix="hist-", suffix=".ndjson", dir=vf.OUT)
    with os.fdopen(fd, "w") as f:
        for i in idx:
            f.write(json.dumps(dict(h=prepare(hists[i]))) + "\n")
    try:
        rc, out = vf.tlc(spec + "Lin", spec + "Lin.cfg", env={"TRACE": path}, timeout=timeout, mem=mem)
    finally:
        os.remove(path)
    m = re.search(r'<<"CHECKED", (\d+)>>', out)
    if rc != 0 and vf.EVAL_ERROR.search(out):
        if len(idx) == 1:
            return {idx[0]: 0}, 1                     # a recorded value the specification cannot even be evaluated on
        a, x = _chunk(spec, hists, idx[:len(idx) // 2], timeout, mem)
        b, y = _chunk(spec, hists, idx[len(idx) // 2:], timeout, mem)
        if a or b:
            return dict(a, **b), x + y
    if rc != 0 or not m or int(m.group(1)) != len(idx):
        raise vf.CheckError("TLC failed on %sLin:\n%s" % (spec, out[-3500:]))
    return {idx[int(k) - 1]: int(v) for k, v in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)}, vf.tlc_stats(out)[1]


def show(h, upto=None):
    out = []
    for k, e in enumerate(h):
        t = "   thread %d at %dms: " % (e["t"], e["m"])
        if e["k"] == "call": t += "call %s(%s)" % (e["o"], ", ".join(map(str, e["a"])))
        elif e["k"] == "ret": t += "returns %s%s" % (e["r"], " !" + e["x"] if e["x"] else "")
        elif e["k"] == "mark": t += "(inside the code) %s %s" % (e["o"], e["a"])
        else: t += e["k"].upper()
        out.append((">>" + t[2:]) if k == upto else t)
    return out


def check(prop, spec, driver, scenarios, plans, mcs=(), assumptions=(), timeout_each=30):
    """scenarios(rng, thorough) -> list of dict(init, threads, final); plans(index, thorough) -> list of plan lines"""
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build, driver)
            fm = [ex.submit(vf.model_check, m, c) for m, c in mcs]
            sc = scenarios(random.Random(vf.seed() * 7919 + 3), vf.thorough())
            ms = [f.result() for f in fm]
            exe = fb.result()
        log("driver built; %d scenarios" % len(sc))
        hists, st = execute(exe, sc, lambda k: plans(k, vf.thorough()), timeout_each)
        uniq = {}
        for k, s, h in hists:
            uniq.setdefault(json.dumps(h), (k, s, h))
        hists = list(uniq.values())
        log("%d executions, %d distinct histories, %d schedule points" % (st["executions"], len(hists), st["points"]))
        bad, states = validate(spec, [h for _, _, h in hists])
        log("validated: %d states" % states)
        cov = dict(states=sum(m[1] for m in ms) + states, transitions=sum(m[0] for m in ms) + states, traces_validated_against_impl=len(hists),
                   executions=st["executions"], schedule_points=st["points"], scenarios=len(sc), scenarios_exhausted=st["complete"],
                   distinct_traces=len(hists), samples=[show(h) for _, _, h in hists[:1] + hists[len(hists) // 2:len(hists) // 2 + 1]],
                   rule="every distinct history of each scenario under systematic (preemption-bounded) and seeded random schedules")
        if bad:
            i = min(bad, key=lambda x: (len(hists[x][2]), x))
            k, s, h = hists[i]
            lines = ["no behaviour of specs/%s.tla produces this history (stopped at event %d):" % (spec, bad[i])] + show(h, bad[i]) + ["schedule: " + s]
            path = vf.write_replay(prop, "violation", dict(property=prop, spec=spec, conc=True, driver=driver, scenario=sc[k], schedule=s, recorded=h, explanation=lines,
                                   rejected=len(bad), how="python3 check.py --replay <this file>"))
            vf.write_evidence(prop, "model_checking", cov, list(assumptions), violations=len(bad))
            print("\n".join(lines))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        vf.write_evidence(prop, "model_checking", cov, list(assumptions))
        print("OK property=%s: %d histories from %d executions accepted by %s" % (prop, len(hists), st["executions"], spec))
        return 0
    except vf.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2


def replay(d):
    return replay_with(build(d["driver"]), d["spec"], d)


def replay_with(exe, spec, d):
    kind, _, rest = d["schedule"].partition(":")
    if kind == "systematic":
        plan = "one systematic " + rest
    else:
        f = rest.split(":")
        plan = "one random %s %s" % (f[0], " ".join(x[1:] for x in f[1:]))
    hists, _ = execute(exe, [d["scenario"]], lambda k: [plan])
    rc = 0
    for _, s, h in hists:
        bad, _ = validate(spec, [h])
        print("\n".join(show(h, bad.get(0))))
        print("rejected" if bad else "accepted")
        rc |= bool(bad)
    return rc
