"""Runner for properties decided by a sequential state machine (see vf.py for the pipeline)."""
import concurrent.futures as cf
import json, os, random, sys
import vf
from vf import log


collect = None      # a list while another check gathers the histories of the properties (see props/c35.py)


def build(driver, flags=()):
    return vf.build_driver(driver, list(flags) + vf.SAN, tag="san", lib_flags=vf.SAN)


def check(prop, spec, driver, gens=(), mcs=(), randoms=None, variants=(None,), gen_limit=None, assumptions=(),
          driver_flags=(), rule="", timeout_each=20, transform=None, env=None, chunk_events=6000, extra_gens=()):
    """gens: cfg files of specs/<spec>Gen.tla; mcs: (module, cfg) pairs model checked first;
    randoms(rng, thorough) -> scenarios; variants: argument lists of the "new" call the generated scripts are run under."""
    if collect is not None:
        collect.append(dict(prop=prop, spec=spec, driver=driver, flags=driver_flags, randoms=randoms, gens=gens, variants=variants, transform=transform, env=env, timeout=timeout_each))
        return 0
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build, driver, driver_flags)
            fm = [ex.submit(vf.model_check, module, cfg) for module, cfg in mcs]
            fg = []
            for g in gens:
                module, cfg = (spec + "Gen", g) if isinstance(g, str) else g[:2]
                vs = g[2] if isinstance(g, tuple) and len(g) > 2 else variants
                fg.append((vs, ex.submit(vf.gen_scripts, module, cfg, limit=None if vf.thorough() else gen_limit, seed=vf.seed())))
            states = transitions = 0
            scen, n_gen, gen_tr = [], 0, 0
            fb.result()
            for f in fm:
                g, d, _ = f.result()
                states += d; transitions += g
            for vs, f in fg:
                scr, st, total = f.result()
                gen_tr += st[0]; states += st[1]; transitions += st[0]
                for v in vs:
                    scen += [([["new"] + list(v)] if v is not None else []) + s for s in scr]
            n_gen = len(scen)
            rng = random.Random(vf.seed() * 1000003 + 17)
            if randoms:
                scen += randoms(rng, vf.thorough())
            if transform:
                scen = [transform(s) for s in scen]
            exe = fb.result()
        log("driver built; %d scenarios (%d from the model)" % (len(scen), n_gen))
        events = vf.run_scenarios(exe, scen, timeout_each=timeout_each, env=env)
        n_ev = sum(map(len, events))
        log("%d calls executed" % n_ev)
        bad = vf.validate(spec + "Trace", events, chunk_events=chunk_events)
        log("validated")
        if vf.bad_scripts and not bad:
            raise vf.CheckError("driver could not interpret its script: " + vf.bad_scripts[0])
        known = known_findings(prop, spec, exe, timeout_each, env)
        cov = dict(states=states, transitions=transitions, traces_validated_against_impl=len(events), calls_validated=n_ev,
                   model_transitions_replayed=gen_tr, model_scripts=n_gen, random_scripts=len(scen) - n_gen,
                   known_findings_reproduced=known, distinct_traces=len({json.dumps(e) for e in events}),
                   samples=samples(events), rule=rule or "one trace per transition of the model plus seeded random histories")
        if bad:
            i, k = bad
            path, msg = minimise(prop, spec, exe, events[i], k, timeout_each, env)
            vf.write_evidence(prop, "model_checking", cov, list(assumptions), violations=1)
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        vf.write_evidence(prop, "model_checking", cov, list(assumptions))
        print("OK property=%s: %d traces, %d calls accepted by %s; model: %d states, %d transitions" % (prop, len(events), n_ev, spec, states, transitions))
        return 0
    except vf.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2


def samples(events):
    out = []
    for i in ([0, len(events) // 2, len(events) - 1] if events else []):
        out.append([{x: e[x] for x in ("o", "a", "r", "x")} for e in events[i][:12]])
    return out


def show(e):
    return "%s(%s) -> %s%s   state %s" % (e["o"], ", ".join(map(str, e["a"])), e["r"], " !" + e["x"] if e["x"] else "", e["s"])


def minimise(prop, spec, exe, evs, k, timeout_each, env, budget=14):
    """Shortens the rejected trace by dropping blocks of calls; every candidate is re-executed and re-validated."""
    calls = [[e["o"]] + list(e["a"]) for e in evs[:k + 1]]
    best, best_ev, best_k = calls, evs[:k + 1], k
    size = max(1, (len(best) - 2) // 2)
    while budget > 0 and size >= 1 and len(best) > 2:
        cands = []
        for st in range(1, len(best) - 1, size):
            c = best[:st] + best[min(st + size, len(best) - 1):]
            if len(c) < len(best):
                cands.append(c)
        budget -= 1
        try:
            evs2 = vf.run_scenarios(exe, cands, timeout_each=timeout_each, env=env)
        except vf.CheckError:
            break
        found = None
        with cf.ThreadPoolExecutor(vf.NPROC) as ex:
            def one(e):
                try:
                    return vf.validate(spec + "Trace", [e])
                except vf.CheckError:
                    return None
            for c, e, b in zip(cands[:16], evs2, ex.map(one, evs2[:16])):
                if b and (found is None or b[1] < found[2]):
                    found = (c, e, b[1])
        if found:
            best, best_ev, best_k = found[0][:found[2] + 1], found[1][:found[2] + 1], found[2]
            size = min(size, max(1, (len(best) - 2) // 2))
        elif size == 1:
            break
        else:
            size //= 2
    text = ["rejected by specs/%s.tla at call %d:" % (spec, best_k)] + ["   " + show(e) for e in best_ev[:-1]] + [">> " + show(best_ev[-1])]
    path = vf.write_replay(prop, "violation", dict(property=prop, spec=spec, script=best, recorded=best_ev, explanation=text,
                           how="python3 check.py --replay <this file>: re-runs the script on the code and re-validates"))
    return path, "\n".join(text)


def known_findings(prop, spec, exe, timeout_each, env):
    """Each listed finding is a script whose last call the specification must reject with the recorded outcome."""
    n = 0
    for f in vf.load_findings(prop):
        if f.get("spec") != spec:
            continue
        ev = vf.run_scenarios(exe, [f["script"]], timeout_each=timeout_each, env=env)
        b = vf.validate(spec + "Trace", ev)
        if b is None:
            log("known finding no longer reproduces: %s" % f["what"])
            continue
        e = ev[0][b[1]]
        got = dict(r=e["r"], x=e["x"])
        if b[1] == len(f["script"]) - 1 + (0 if f["script"][0][0] == "new" else 1) and any(got == o for o in f["observed"]) or f.get("any_outcome"):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            n += 1
        else:
            path = vf.write_replay(prop, "violation", dict(property=prop, spec=spec, script=f["script"], recorded=ev[0], explanation=["differs from the listed finding: " + f["what"]]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            vf.write_evidence(prop, "model_checking", dict(states=1, transitions=1, traces_validated_against_impl=1, samples=[f["script"]]), [], 1)
            sys.exit(1)
    return n


def replay(path):
    d = json.load(open(path))
    import importlib
    m = importlib.import_module(d["property"].lower())
    exe = build(m.DRIVER, getattr(m, "FLAGS", ()))
    ev = vf.run_scenarios(exe, [d["script"]])
    for e in ev[0]:
        print(show(e))
    b = vf.validate(d["spec"] + "Trace", ev)
    print("accepted" if b is None else "rejected at call %d: %s" % (b[1], show(ev[0][b[1]])))
    return 0 if b is None else 1
