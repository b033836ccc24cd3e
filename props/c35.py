"""C35: what the library allocates is given back.  The histories are those of the other sequential properties."""
import concurrent.futures as cf
import importlib, json, random
import seqcheck, vf
from vf import log
TURNS = 6
SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c11", "c12", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24",
           "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34"]
ENV = {"HEAP_MARKS": "1"}


def gather(rng, th):
    """(driver, flags, env, script) of every sequential property"""
    seqcheck.collect = []
    for m in SOURCES:
        importlib.import_module(m).main()
    cs, seqcheck.collect = seqcheck.collect, None
    out = []
    for c in cs:
        sc = c["randoms"](random.Random(vf.seed() * 7919 + 3), th) if c["randoms"] else []
        if c["transform"]: sc = [c["transform"](s) for s in sc]
        rng.shuffle(sc)
        sc = [s for s in sc if len(s) <= 120][:3000 if th else 260]
        out.append((c, sc))
    return out


def repeat(s):
    """the history TURNS times; with an object of its own the mark follows the destruction of the one before"""
    r = []
    for _ in range(TURNS):
        r += [s[0], ["mark"]] + s[1:] if s[0][0] == "new" else s + [["mark"]]
    return r


def main():
    try:
        th = vf.thorough()
        st = [vf.model_check("HeapModel", "HeapMC%d.cfg" % k) for k in (0, 1)]
        src = gather(random.Random(vf.seed()), th)
        for d, fl in {(c["driver"], tuple(c["flags"])): 0 for c, _ in src}:      # the library first, then the drivers side by side
            seqcheck.build(d, fl); break
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            list(ex.map(lambda k: seqcheck.build(*k), sorted({(c["driver"], tuple(c["flags"])) for c, _ in src})))
        log("%d drivers built" % len({c["driver"] for c, _ in src}))
        traces, scripts = [], []
        for c, sc in src:
            exe = seqcheck.build(c["driver"], c["flags"])
            ev = vf.run_scenarios(exe, [repeat(s) for s in sc], timeout_each=c["timeout"], env=dict(c["env"] or {}, **ENV))
            for s, e in zip(sc, ev):
                m = [x for x in e if x["o"] == "mark"]
                if len(m) == TURNS:                  # a history the code does not survive belongs to its own property
                    traces.append([dict(o="new", a=[0], r=[], x="", s=[])] + [dict(o="mark", a=x["r"], r=[], x="", s=[]) for x in m])
                    scripts.append((c, s))
        log("%d histories repeated %d times" % (len(traces), TURNS))
        bad = vf.validate("HeapTrace", traces)
        cov = dict(states=sum(x[1] for x in st), transitions=sum(x[0] for x in st), traces_validated_against_impl=len(traces),
                   calls_validated=sum(len(s) * TURNS for _, s in scripts), drivers=len(src), turns=TURNS,
                   still_held_after_last_turn=sum(t[-1]["a"][0] > 0 for t in traces),
                   samples=[[s[1][:8], [x["a"][0] for x in t[1:]]] for s, t in list(zip(scripts, traces))[::max(1, len(traces) // 3)]][:3],
                   rule="every history of the other sequential properties' generators, run %d times in one process" % TURNS)
        ass = ["blocks handed out by malloc, calloc, realloc, strdup, operator new and the functions built on them are counted by the address sanitizer's hooks",
               "blocks kept for the life of the program are filled within the first two runs of a history"]
        if bad:
            c, s = scripts[bad[0]]
            s, marks = shorten(c, s)
            text = ["blocks held after each run of the same history: %s" % marks] + ["   %s(%s)" % (x[0], ", ".join(map(str, x[1:]))) for x in s]
            path = vf.write_replay("C35", "violation", dict(property="C35", of=c["prop"], script=s, marks=marks, explanation=text,
                                   how="python3 check.py --replay <this file>: runs the history %d times and prints the blocks held" % TURNS))
            vf.write_evidence("C35", "model_checking", cov, ass, violations=1)
            print("\n".join(text)); print("VIOLATION property=C35 replay=%s" % path)
            return 1
        vf.write_evidence("C35", "model_checking", cov, ass)
        print("OK property=C35: %d histories of %d drivers, %d runs each, leave the heap as they found it" % (len(traces), len(src), TURNS))
        return 0
    except vf.CheckError as e:
        print("CHECK ERROR property=C35: %s" % e)
        return 2


def marks_of(c, s):
    ev = vf.run_scenarios(seqcheck.build(c["driver"], c["flags"]), [repeat(s)], timeout_each=c["timeout"], env=dict(c["env"] or {}, **ENV))[0]
    return [x["r"][0] for x in ev if x["o"] == "mark"]


def growing(m):
    return len(m) == TURNS and all(m[k] < m[k + 1] for k in range(2, TURNS - 1))


def shorten(c, s):
    """drops calls while the heap goes on growing (the verdict is already TLC's)"""
    k = 1
    for _ in range(60):
        if k >= len(s): break
        t = s[:k] + s[k + 1:]
        try: g = growing(marks_of(c, t))
        except vf.CheckError: g = False
        if g: s = t
        else: k += 1
    return s, marks_of(c, s)


def replay(d):
    seqcheck.collect = []
    importlib.import_module(d["of"].lower()).main()
    c = seqcheck.collect[0]; seqcheck.collect = None
    m = marks_of(c, d["script"])
    print("blocks held after each run: %s" % m)
    return 1 if growing(m) else 0
