"""Shared machinery: build the library under test, run drivers, run TLC, report.

The pipeline of every sequential check is
   TLC explores specs/<X>.tla  ->  scripts (one per explored transition)      [model -> code]
   seeded generator            ->  scripts with larger values                  [code -> model]
   driver (drivers/<x>.cpp, linked with the library built from /repo now) runs the scripts and
   records for every call: result, exception, and the abstract state read back through the API
   TLC checks every recorded line against specs/<X>Trace.tla (same actions as <X>.tla)
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
OUT = os.path.join(VERIF, "out")
SPECS = os.path.join(VERIF, "specs")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=gnu++11", "-D_GNU_SOURCE", "-w", "-O0", "-g1"]
CC = ["gcc", "-D_GNU_SOURCE", "-w", "-O0", "-g1"]
# Sequential drivers and the library under them are built so that a stray memory access ends the process
# (a step no specification has) and memory the code never wrote holds a pattern instead of lucky zeros.
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
SAN_ENV = ("detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_odr_violation=0:hard_rss_limit_mb=3000:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=165:detect_stack_use_after_return=0:exitcode=86:handle_abort=0:symbolize=0")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
T0 = time.time()


class CheckError(Exception):
    """The check itself could not decide (never reported as a violation)."""


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building the code under test
def lib_sources():
    res = []
    for d, ds, fs in os.walk(os.path.join(REPO, "library")):
        ds.sort()
        for f in sorted(fs):
            if re.search(r"\.(cpp|c)$", f):
                if re.search(r"(Test|Benchmark)\.cpp$", f):
                    continue
                p = os.path.join(d, f)
                if f.endswith(".cpp"):
                    with open(p, errors="replace") as fh:
                        if re.search(r"^\s*TEST\s*\(", fh.read(), re.M):
                            continue          # a test file that does not follow the naming rule
                res.append(p)
    return res


def tree_key(extra=""):
    h = hashlib.sha256(extra.encode())
    files = [os.path.join(REPO, "library.hpp")]
    for d, ds, fs in os.walk(os.path.join(REPO, "library")):
        ds.sort()
        for f in sorted(fs):
            if re.search(r"\.(cpp|c|hpp|h|hh|tcc)$", f) and not re.search(r"(Test|Benchmark)\.cpp$", f):
                files.append(os.path.join(d, f))
    for p in files:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _compile(job):
    cmd, out = job
    tmp = out + ".%d.tmp" % os.getpid()
    r = run_cmd(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return r.returncode, " ".join(cmd), r.stdout


def build_objs(flags=(), tag="plain", only=None, cxx=None, cc=None):
    """Compile the library (or the sources whose path matches `only`); returns a list of object files."""
    flags = list(flags)
    cxx, cc = cxx or CXX, cc or CC
    key = tree_key(repr((flags, cxx, cc)))
    d = os.path.join(CACHE, "obj-%s-%s" % (tag, key))
    os.makedirs(d, exist_ok=True)
    _prune("obj-%s-" % tag, d)
    jobs, objs = [], []
    for s in lib_sources():
        if only and not re.search(only, s):
            continue
        o = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(((cc if s.endswith(".c") else cxx) + flags + ["-I" + REPO, "-c", s], o))
    if jobs:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for rc, cmd, out in ex.map(_compile, jobs):
                if rc:
                    raise CheckError("library does not compile: %s\n%s" % (cmd, out[-3000:]))
    return objs


def _prune(prefix, keep):
    ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith(prefix)]
    ds = sorted((x for x in ds if x != keep), key=lambda x: os.path.getmtime(x))
    for x in ds[:-1]:
        shutil.rmtree(x, ignore_errors=True)


def build_driver(src, flags=(), tag="plain", libs=("-lpthread", "-lm", "-lrt"), lib_flags=(), only=None,
                 extra_objs=(), cxx=None, cc=None, optional_defs=()):
    objs = build_objs(lib_flags, tag, only, cxx, cc)
    path = os.path.join(VERIF, "drivers", src)
    h = hashlib.sha256()
    for f in [path] + [os.path.join(VERIF, "drivers", x) for x in sorted(os.listdir(os.path.join(VERIF, "drivers"))) if x.endswith(".hpp")]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((list(flags), tree_key())).encode())
    exe = os.path.join(CACHE, "%s-%s-%s" % (os.path.splitext(src)[0], tag, h.hexdigest()[:20]))
    if not os.path.exists(exe):
        for x in os.listdir(CACHE):      # drop older builds of this driver
            if x.startswith("%s-%s-" % (os.path.splitext(src)[0], tag)):
                try: os.remove(os.path.join(CACHE, x))
                except OSError: pass
        lib = os.path.join(os.path.dirname(objs[0]), "libnative.a")
        if not os.path.exists(lib):
            tmp = lib + ".%d" % os.getpid()
            r = run_cmd(["ar", "rcs", tmp] + objs)
            if r.returncode:
                raise CheckError("ar: " + r.stdout)
            os.replace(tmp, lib)
        tmp = exe + ".%d.tmp" % os.getpid()
        base = (cxx or CXX) + list(flags) + ["-I" + REPO, "-I" + os.path.join(VERIF, "drivers"), path] + list(extra_objs)
        # whole archive for drivers that need every static initialiser: not needed, plain link is enough
        r = run_cmd(base + [lib] + list(libs) + ["-o", tmp])
        if r.returncode:
            raise CheckError("driver %s does not build against the library:\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------ scripts and drivers
# A scenario is a list of calls; a call is [op, arg, ...], arg an int or a list of ints (a string).
def enc_arg(a):
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (list, tuple)) for x in a):
            return "[" + ",".join(enc_arg(x) for x in a) + "]"
        return "x" + ",".join(str(x) for x in a)
    return str(a)


def enc_call(c):
    return c[0] + "".join(" " + enc_arg(a) for a in c[1:])


EVAL_ERROR = re.compile("The error occurred when TLC was evaluating|TLC was unable to fingerprint|The exception was a java.lang.RuntimeException")
bad_scripts = []


def run_scenarios(exe, scenarios, timeout_each=20, env=None, cwd=None):
    """Runs every scenario in the driver; returns for each a list of events (dicts o,a,r,x,s).

    A scenario always starts with a "new" call (added here).  If the driver dies, the call that was
    executing gets x = "CRASH <signal>", a call that does not return gets x = "HANG"."""
    scenarios = [sc if sc and sc[0][0] == "new" else [["new"]] + sc for sc in scenarios]
    n = len(scenarios)
    if n == 0:
        return []
    parts = min(NPROC, max(1, n // 4), n)
    chunks = [list(range(i, n, parts)) for i in range(parts)]
    res = [None] * n
    with cf.ThreadPoolExecutor(parts) as ex:
        for idx, evs in ex.map(lambda c: _run_chunk(exe, scenarios, c, timeout_each, env, cwd), chunks):
            for i, e in zip(idx, evs):
                res[i] = e
    return res


def _run_chunk(exe, scenarios, idx, timeout_each, env, cwd):
    out = []
    pos = 0
    e = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", MALLOC_PERTURB_="165", ASAN_OPTIONS=SAN_ENV)
    e.update(env or {})
    while pos < len(idx):
        sub = idx[pos:]
        lines, where = [], []
        for i in sub:
            for k, c in enumerate(scenarios[i]):
                lines.append(enc_call(c)); where.append((i, k))
        with tempfile.TemporaryFile("w+") as fin, tempfile.TemporaryFile("w+b") as fout, tempfile.TemporaryFile("w+b") as ferr:
            fin.write("\n".join(lines) + "\n"); fin.flush(); fin.seek(0)
            p = subprocess.Popen([exe, str(timeout_each)], stdin=fin, stdout=fout, stderr=ferr, env=e, cwd=cwd,
                                 preexec_fn=_limits)
            try:
                rc = p.wait(timeout=60 + timeout_each * 4 + len(lines) * 0.05)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -14
            fout.seek(0); ferr.seek(0)
            got = []
            for ln in fout.read().decode("latin-1").split("\n"):
                if ln.startswith("@"):
                    try:
                        got.append(json.loads(ln[1:]))
                    except ValueError:
                        break
            err = ferr.read().decode("latin-1"); err = (err[err.find("ERROR: AddressSanitizer"):] if "ERROR: AddressSanitizer" in err else err)[-200000:][:2000]
        cur = {}
        for j, g in enumerate(got):
            i, k = where[j]
            c = scenarios[i][k]
            cur.setdefault(i, []).append(dict(o=c[0], a=list(c[1:]), r=g["r"], x=g["x"], s=g["s"]))
        if len(got) == len(lines):
            for i in sub:
                out.append(cur[i])
            break
        i, k = where[len(got)]
        if rc == 97:                                  # the code's state is not what the script was made for: judge what came before
            bad_scripts.append(err)
            cur.setdefault(i, [])
            done = sub.index(i)
            for q in sub[:done + 1]:
                out.append(cur[q])
            pos += done + 1
            continue
        c = scenarios[i][k]
        last = got[-1]["s"] if got else []
        x = "HANG" if rc in (-14, -9) else "BADMEMORY" if rc == 86 else "CRASH %d" % (-rc if rc < 0 else rc)
        cur.setdefault(i, []).append(dict(o=c[0], a=list(c[1:]), r=[], x=x, s=last, err=err[:300]))
        done = sub.index(i)
        for q in sub[:done + 1]:
            out.append(cur[q])
        pos += done + 1
    return idx, out


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


# ------------------------------------------------------------------ TLC
_slots = None


def tlc(module, cfg, env=None, args=(), timeout=600, workers="1", mem="3g", cwd=None, jvm=()):
    """Runs TLC on specs/<module>.tla with specs/<cfg>; returns its output."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=OUT)
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + mem, "-XX:TieredStopAtLevel=4", *jvm, "-cp", TLAJAR, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return (int(m.group(1)), int(m.group(2)), int(d.group(1)) if d else 0) if m else (0, 0, 0)


def model_check(module, cfg, timeout=600, workers=NPROC, args=(), mem="6g"):
    """Design-level check: the specification itself satisfies its invariants/properties."""
    rc, out = tlc(module, cfg, timeout=timeout, workers=workers, args=args, mem=mem)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification %s (%s) does not satisfy its own properties:\n%s" % (module, cfg, out[-3000:]))
    st = tlc_stats(out)
    log("TLC %s/%s: %d transitions, %d states" % (module, cfg, st[0], st[1]))
    return st


def gen_scripts(module, cfg, timeout=300, limit=None, seed=1, args=()):
    """Transition cover: <module> prints, for every explored transition, the call history leading to it."""
    rc, out = tlc(module, cfg, timeout=timeout, workers=1, args=args)
    if rc != 0:
        raise CheckError("script generation %s failed:\n%s" % (module, out[-3000:]))
    muts, queries = [], {}
    for ln in out.split("\n"):
        if ln.startswith('"SCRIPT ') or ln.startswith('"QUERY '):
            kind, txt = json.loads(ln).split(" ", 1)       # TLC prints a quoted string
            h = [[c["o"]] + c["a"] for c in json.loads(txt)]
            if kind == "SCRIPT":
                muts.append(h)
            else:                                           # calls that leave the state alone share one script
                queries.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    n_tr = len(muts) + sum(map(len, queries.values()))
    scr = drop_prefixes(muts + [json.loads(k) + q[i:i + 40] for k, q in queries.items() for i in range(0, len(q), 40)])
    st = tlc_stats(out)
    total = len(scr)
    if total == 0:
        raise CheckError("no scripts from %s\n%s" % (module, out[-2000:]))
    if limit and total > limit:
        random.Random(seed).shuffle(scr)
        scr = scr[:limit]
    log("TLC %s: %d transitions, %d distinct states, %d scripts (%d used)" % (module, st[0], st[1], total, len(scr)))
    return scr, (n_tr, st[1]), total


def drop_prefixes(scripts):
    """Removes scripts that are proper prefixes of others (their transitions are covered there)."""
    keys = sorted((json.dumps(s)[:-1], s) for s in scripts)
    keep = []
    for i, (k, s) in enumerate(keys):
        if i + 1 < len(keys) and (keys[i + 1][0] == k or keys[i + 1][0].startswith(k + ",")):
            continue
        keep.append(s)
    return keep


def validate(module, traces, cfg=None, env=None, chunk_events=6000, timeout=600, mem="3g"):
    """Checks recorded traces against specs/<module>.tla.  Returns None or (trace index, event index)
    of the first rejected event; raises CheckError when TLC itself fails."""
    cfg = cfg or module + ".cfg"
    chunks, cur, n = [], [], 0
    for i, t in enumerate(traces):
        cur.append(i); n += len(t)
        if n >= chunk_events:
            chunks.append(cur); cur, n = [], 0
    if cur:
        chunks.append(cur)
    if len(chunks) < NPROC and sum(map(len, traces)) > 2000:   # spread over the cores
        per = max(800, sum(map(len, traces)) // NPROC + 1)
        if per < chunk_events:
            return validate(module, traces, cfg, env, per, timeout, mem)
    bad = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda c: _validate_chunk(module, traces, c, cfg, env, timeout, mem), chunks):
            if r:
                bad.append(r)
    return min(bad) if bad else None


def _validate_chunk(module, traces, idx, cfg, env, timeout, mem):
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=OUT)
    pos = []
    with os.fdopen(fd, "w") as f:
        for i in idx:
            for k, e in enumerate(traces[i]):
                pos.append((i, k))
                f.write(json.dumps({x: e[x] for x in e if x != "err"}) + "\n")
    try:
        return _validate_file(module, path, pos, cfg, env, timeout, mem)
    finally:
        os.remove(path)


def _validate_file(module, path, pos, cfg, env, timeout, mem):
    e = {"TRACE": path}
    e.update(env or {})
    for attempt in (1, 2):
        rc, out = tlc(module, cfg, env=e, timeout=timeout, mem=mem)
        m = re.search(r'<<"MATCHED", (\d+), "OF", (\d+)>>', out)
        if m and rc == 0 and int(m.group(1)) == int(m.group(2)) == len(pos):
            return None
        if m and int(m.group(1)) < int(m.group(2)) == len(pos):
            if attempt == 1:
                continue                      # report a rejection only if a re-run repeats it
            return pos[int(m.group(1))]
        # a recorded value the specification cannot even be evaluated on (a missing list, a text for a number): the line it was at
        at = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if attempt == 2 and at and EVAL_ERROR.search(out) and int(at[-1]) <= len(pos):
            return pos[int(at[-1]) - 1]
        if attempt == 2:
            raise CheckError("TLC failed on %s:\n%s" % (module, out[-3500:]))
    return None


# ------------------------------------------------------------------ reporting
def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]


def write_replay(prop, name, data):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, "%s-%s.json" % (prop, name))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def write_evidence(prop, level, coverage, assumptions, violations=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=os.environ.get("VERIF_TIER", "quick"), seed=seed(), level=level, coverage=coverage,
              assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=violations)
    if ev["tier"] not in ("quick", "thorough"):
        ev["tier"] = "quick"
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def thorough():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"


os.makedirs(CACHE, exist_ok=True)
os.makedirs(OUT, exist_ok=True)
