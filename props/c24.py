"""C24 Date."""
import seqcheck, vf
DRIVER = "date.cpp"


def field(rng, lo, hi):
    return rng.choice([rng.randint(lo, hi)] * 4 + [lo, hi, lo - 1, hi + 1, rng.randint(-3 * hi - 3, 4 * hi + 5), rng.randint(-100, 100)])


def scripts(rng, th):
    out = []
    for _ in range(6000 if th else 900):
        z = rng.randint(0, 3)
        dst = z == 1
        # glibc applies a POSIX daylight saving rule from 1971 on
        year = lambda: rng.randint(80, 180) if dst else rng.choice([rng.randint(-300, 500), rng.randint(60, 130), rng.choice([0, -1, 100, 200, 300, 69, 70, 71, 1000, -100])])
        day = lambda: rng.randint(4100, 40000) if dst else rng.choice([rng.randint(-200000, 200000), rng.randint(-800, 800), rng.choice([0, -1, 1, 59, 60, 11016, 11017, -25509, -25510])])

        def near():                                                  # around a change of daylight saving time
            y = rng.randint(80, 160); m = rng.choice([2, 10])
            return [y, m, rng.randint(1, 15), rng.choice([0, 1, 1, 1, 2, 2, 3]), rng.randint(0, 59), rng.randint(0, 59)]

        def six(legal=False):
            if dst and rng.random() < .5: return near()
            if legal: return [year(), rng.randint(0, 11), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]
            return [year(), field(rng, 0, 11), field(rng, 1, 31), field(rng, 0, 23), field(rng, 0, 59), field(rng, 0, 59)]
        sc = [["new", z]]
        for i in (1, 2): sc.append(["fromInstant", i, day(), rng.randrange(86400) * 1000 + rng.choice([0, 0, 1, 999])])
        for _ in range(rng.randint(4, 14)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            op = rng.choice(["make6"] * 3 + ["make5", "make3", "fromInstant", "fromInstant", "setTime", "copy", "assign", "clone", "setYear", "setMonth", "setDate", "setHours", "setMinutes", "setSeconds",
                             "utc", "texts", "texts", "compare", "compare", "parseLong", "parseLocale", "parseGmt", "parseZoned", "parseZoned", "parseLocal", "parseDate", "parseShort"])
            if op in ("make6", "utc"): sc.append([op, i] + six())
            elif op == "make5": sc.append([op, i] + six()[:5])
            elif op == "make3": sc.append([op, i] + six()[:3])
            elif op in ("fromInstant", "setTime"): sc.append([op, i, day(), rng.choice([rng.randrange(86400) * 1000 + rng.choice([0, 1, 999]), 0, 86399999, 43200000])])
            elif op in ("copy", "assign", "clone", "compare", "parseGmt", "parseLocale"): sc.append([op, i, j])
            elif op == "parseLong": sc.append(["texts", i] if z == 2 else [op, i, j])
            elif op == "texts": sc.append([op, i])
            elif op == "setYear": sc.append([op, i, year()])
            elif op == "setMonth": sc.append([op, i, field(rng, 0, 11)])
            elif op == "setDate": sc.append([op, i, field(rng, 1, 31)])
            elif op == "setHours": sc.append([op, i, field(rng, 0, 23)])
            elif op in ("setMinutes", "setSeconds"): sc.append([op, i, field(rng, 0, 59)])
            elif op == "parseZoned":
                if rng.random() < .5: sc.append([op, i] + six(True) + [rng.choice([0, 300, 240, 480, 420]), 0])
                else: sc.append([op, i] + six(True) + [rng.choice([1, -1]) * (60 * rng.randint(1, 12) + rng.choice([0, 30, 45])), rng.randint(1, 2)])
            elif op == "parseLocal": sc.append([op, i] + six(True) + [rng.randint(0, 2)])
            elif op == "parseDate": sc.append([op, i] + six(True)[:3])
            elif op == "parseShort": sc.append([op, i, rng.choice([rng.randint(72, 99), rng.randint(0, 40)] + ([] if dst else [rng.randint(0, 99), rng.randint(44, 47)])), rng.randint(0, 11), rng.randint(1, 28)])
        out.append(sc)
    return [[c for c in sc if legal(c, k)] for sc in out for k in [0]]


def legal(c, _):
    # texts name years from 100 on, so that their year is not taken for a two-digit one
    return not (c[0] in ("parseZoned", "parseLocal", "parseDate") and c[2] + 1900 < 100)


def main():
    return seqcheck.check("C24", "Dates", DRIVER, gens=[("DatesGen", "DatesGen%d.cfg" % z, [[z]]) for z in range(4)], mcs=[("Dates", "DatesMCDeep.cfg" if vf.thorough() else "DatesMC.cfg")], gen_limit=900, randoms=scripts,
                          assumptions=["a Date keeps whole seconds", "four zones, given by POSIX rules; daylight saving time from 1971 on",
                                       "local times that are repeated or skipped when clocks change may denote either instant", "textual forms of years from 100 on, or of their last two digits"])
