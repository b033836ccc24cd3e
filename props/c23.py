"""C23 UUID."""
import both, conccheck, nums, seqcheck
DRIVER = "uuid.cpp"
BAD = [ord(c) for c in "ghGxX-+ .,:/@`{_"] + [0, 127, 128, 200, 255]


def half(rng, version=None, variant=None):
    v = rng.choice([rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), nums.value(rng, 64)]) & (1 << 64) - 1
    if version is not None and rng.random() < .6: v = v & ~0xf000 | version << 12
    if variant is not None and rng.random() < .6: v = v & (1 << 61) - 1 | variant << 61
    return v


def text(rng):
    m, l = half(rng), half(rng)
    g = ["%08x" % (m >> 32), "%04x" % (m >> 16 & 0xffff), "%04x" % (m & 0xffff), "%04x" % (l >> 48), "%012x" % (l & (1 << 48) - 1)]
    k = rng.random()
    if k < .3: g = [x.lstrip("0") or "0" for x in g]                 # shorter groups
    if rng.random() < .4: g = [x.upper() for x in g]
    if rng.random() < .2: g = ["".join(rng.choice([c.lower(), c.upper()]) for c in x) for x in g]
    t = [ord(c) for c in "-".join(g)]
    if rng.random() < .45:
        for _ in range(rng.randint(1, 2)):
            p = rng.randrange(len(t) + 1)
            w = rng.randint(0, 3)
            if w == 0 and p < len(t): t[p] = rng.choice(BAD)
            elif w == 1 and p < len(t): del t[p]
            elif w == 2: t.insert(p, rng.choice(BAD + [48, 97]))
            else: t = t[:p] if rng.random() < .5 else t[p:]
    return t


def scripts(rng, th):
    out = []
    for _ in range(4000 if th else 700):
        sc, last = [["new"]], None
        for _ in range(rng.randint(4, 16)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            op = rng.choice(["make"] * 4 + ["fields"] * 5 + ["parse"] * 4 + ["copy", "reparse", "reparse", "compare", "compare", "compare", "none", "random"])
            if op == "make":
                m, l = nums.limbs(half(rng, version=rng.choice([0, 1, 1, 4, 15])), 1), nums.limbs(half(rng, variant=rng.randint(0, 7)), 1)
                if last and rng.random() < .5: m = last[0]                  # the same most significant half
                elif last and rng.random() < .2: l = last[1]
                last = (m, l)
            sc.append([op, i] + ([m, l] if op == "make"
                                 else [text(rng)] if op == "parse" else [j] if op in ("copy", "reparse", "compare") else []))
        out.append(sc)
    for _ in range(800 if th else 150):
        t, sc = rng.randint(0, 1000), [["new"]]
        style = rng.randint(0, 2)
        for _ in range(rng.randint(5, 40)):
            ts = [t]
            for _ in range(rng.randint(0, 3)): t += rng.choice([0, 0, 0, 1, 7]); ts.append(t)
            sc.append(["time", ts])
            t += 0 if style == 0 else rng.choice([0, 0, 0, 1, 2, 1000, 3000000]) if style == 1 else rng.choice([0, 1, -1, -5, 20, 0, 0])
            t = max(t, 0)
        out.append(sc)
    return out


def scenarios(rng, th):
    out = []
    for n, m in [(1, 1), (1, 2), (2, 2), (3, 2)]:
        out.append(dict(threads=[[["time"]] * n, [["time"]] * m], final=[["time"]]))
    out.append(dict(threads=[[["time"]], [["time"]], [["time"]]], final=[["time"]]))
    out.append(dict(init=[["time"]], threads=[[["time"], ["random"]], [["random"], ["time"]]], final=[["random"]]))
    return out


def plans(k, th):
    return ["dfs 2 %d 0" % (6000 if th else 800), "rnd %d %d 0" % (6000 if th else 500, k)]


def main():
    return both.check("C23", lambda: seqcheck.check("C23", "Uuid", DRIVER, gens=["UuidGen.cfg"], mcs=[("Uuid", "UuidMC.cfg")], gen_limit=2500, randoms=scripts,
                                                    assumptions=["time-based identifiers are generated against a clock the driver controls; random ones are only required to differ and to carry version and variant"]),
                      lambda: conccheck.check("C23", "UuidShared", "concuuid.cpp", scenarios, plans,
                                              assumptions=["schedules are sequentially consistent interleavings of the compiled code's memory accesses"]))
