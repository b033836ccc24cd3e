"""C30 SimpleDateFormat."""
import seqcheck
DRIVER = "formats.cpp"
SIMPLE = [ord(c) for c in "YCymdejHkIlMSpPaAbhBuwUWVGgzZ%nt"]
LONG = [ord(c) for c in "TDFRrcxX"]
PLAIN = [ord(c) for c in " -:/,.aTYm[]'\"\t"]


def pattern(rng):
    p = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 25, 60])):
        c = rng.random()
        if c < .5: p += [37, rng.choice(SIMPLE)]
        elif c < .65: p += [37, rng.choice(LONG)]
        else: p += [rng.choice(PLAIN)]
    return p


def scripts(rng, th):
    out = []
    def day(z):
        if z in (1, 4, 5): return rng.choice([rng.randint(5000, 38000)] * 3 + [rng.choice([10957, 11322, 19357, 19723]) + rng.randint(-3, 8), 365 * rng.randint(16, 90) + rng.randint(0, 30), 19800 + 365 * rng.randint(-9, 9) + rng.randint(-12, 12)])
        return rng.choice([rng.randint(-250000, 2900000), rng.randint(-30000, 40000), rng.choice([0, -1, -719162 + 400000, 11016, 11017, 47541])])
    sec = lambda: rng.choice([rng.randrange(86400), rng.randrange(24) * 3600 + rng.choice([0, 3599]), 0, 86399])
    for _ in range(20000 if th else 2500):
        h = rng.choice([0, 1, 1, 2, 3, 9])
        sc, zone = [["new", h]], {1: 0, 2: 0}
        for _ in range(rng.randint(4, 14)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            op = rng.choice(["make", "make", "setZone", "setZone", "copy", "assign", "format", "format", "format", "format", "ids", "local", "local", "wall"])
            if h == 9 and op in ("local", "wall"): op = "ids"
            if op == "make": sc.append([op, i, pattern(rng)]); zone[i] = 0
            elif op == "setZone": zone[i] = rng.randint(0, 5); sc.append([op, i, zone[i]])
            elif op in ("copy", "assign"): sc.append([op, i, j]); zone[i] = zone[j]
            elif op == "format": sc.append([op, i, day(zone[i]), sec()])
            elif op == "ids": sc.append([op, rng.randint(0, 5), rng.randint(0, 5)])
            else: sc.append([op, day(h), sec()])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C30", "Formats", DRIVER, gens=[("FormatsGen", "FormatsGen0.cfg", [[0]]), ("FormatsGen", "FormatsGen1.cfg", [[1]]), ("FormatsGen", "FormatsGen9.cfg", [[9]])], mcs=[("Formats", "FormatsMC.cfg")], randoms=scripts,
                          assumptions=["conversions are those of strftime in the C locale, for years 1000 to 9999 and without flags, widths or %s", "leading and trailing blanks of the text are removed, as the implementation does",
                                       "zones given as POSIX rules, and two zones of the time zone database from 1983 on", "one thread formats at a time"])
