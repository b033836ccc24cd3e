"""C06 BitSet."""
import seqcheck
DRIVER = "bitset.cpp"
OPS = dict(set=4, clearBit=3, flip=3, setVal=2, setRange=6, clearRange=5, flipRange=6, setRangeVal=2, clear=.4, **{"and": 2}, **{"or": 2}, xor=2, andNot=2, get=2,
           getRange=5, cardinality=1, length=1, isEmpty=1, intersects=2, nextSetBit=3, nextClearBit=3, previousSetBit=3, previousClearBit=3, equals=2,
           equalsForeign=.2, hashCode=2, toByteArray=1, toLongArray=1, valueOfBytes=.7, valueOfLongs=.7, toString=.5, size=.5, copy=1, assign=1, clone=1, sized=.5)


def randoms(rng, thorough):
    out = []
    for _ in range(1500 if thorough else 350):
        hi = rng.choice([70, 130, 200, 330])
        cand = sorted({x for w in range(0, hi, 64) for x in (w - 1, w, w + 1) if x >= 0} | {hi})
        pos = lambda: rng.choice(cand) if rng.random() < .5 else rng.randint(0, hi)
        bad = lambda: rng.choice([-1, -2, -2147483648]) if rng.random() < .04 else pos()
        names = list(OPS) if rng.random() < .7 else sorted(set(rng.sample(list(OPS), 9) + ["setRange", "flip"]))
        sc = [["new"]]
        for _ in range(rng.randint(5, 45)):
            op = rng.choices(names, [OPS[x] for x in names])[0]
            s, d = rng.randint(1, 2), rng.randint(1, 2)
            if op in ("set", "clearBit", "flip", "get", "nextSetBit", "nextClearBit", "previousSetBit", "previousClearBit"): a = [s, bad()]
            elif op == "setVal": a = [s, bad(), rng.randint(0, 1)]
            elif op in ("setRange", "clearRange", "flipRange", "setRangeVal", "getRange"):
                f, t = bad(), bad()
                if f > t and rng.random() < .9: f, t = t, f
                if rng.random() < .05: t = f
                if op in ("clearRange", "getRange") and rng.random() < .1: t = 2147483647
                a = [s, f, t] + ([rng.randint(0, 1)] if op == "setRangeVal" else [d] if op == "getRange" else [])
            elif op in ("and", "or", "xor", "andNot", "intersects", "equals", "copy", "assign", "clone"): a = [s, d]
            elif op == "valueOfBytes": a = [s, [rng.choice([0, 1, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 20))] + [0] * rng.randint(0, 9)]
            elif op == "valueOfLongs":
                a = [s, [[rng.choice([0, 65535, rng.randint(0, 65535)]) for _ in range(4)] for _ in range(rng.randint(0, 3))] + [[0] * 4] * rng.randint(0, 2)]
                if not a[1]: a[1] = [[0] * 4]
            elif op == "sized": a = [s, rng.choice([-1, 0, 1, 63, 64, 65, 128, 300])]
            else: a = [s]
            sc.append([op] + a)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C06", "BitSet", DRIVER, gens=["BitSetGen.cfg"], mcs=[("BitSet", "BitSetMC.cfg")], randoms=randoms, gen_limit=2500, chunk_events=2500,
                          assumptions=["indexes up to a few hundred (several words); larger ones differ only in word count"])
