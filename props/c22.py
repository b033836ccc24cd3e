"""C22 Random."""
import both, conccheck, nums, seqcheck
DRIVER = "random.cpp"
D = ["nextInt", "nextBoolean", "nextFloat", "nextLong", "nextDouble"]


def bound(rng):
    return rng.choice([rng.randint(1, 100), 1 << rng.randint(0, 30), (1 << rng.randint(1, 30)) + rng.randint(-1, 1) or 1, 1073741825, 1500000000, 2147483647, 2147483646, rng.randint(1, 2147483647), 62, 1])


def scripts(rng, th):
    out = []
    for _ in range(3000 if th else 500):
        seed = lambda: nums.limbs(nums.value(rng, 64), 1)
        sc = [["new"], ["make", 1, seed()]]
        for _ in range(rng.randint(5, 30)):
            i = rng.randint(1, 2)
            op = rng.choice(D + ["nextBelow"] * 4 + ["nextBytes", "nextString", "gaussian", "gaussian", "gaussian", "copy", "setSeed", "make", "same"])
            if op == "same": s = seed(); sc += [["make", 1, s], ["setSeed", 2, s]]; continue
            sc.append([op, i] + ([bound(rng) if rng.random() < .95 else rng.choice([0, -1, -2147483648])] if op == "nextBelow" else [rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 20])] if op in ("nextBytes", "nextString")
                                 else [3 - i] if op == "copy" else [seed()] if op in ("setSeed", "make") else []))
        out.append(sc)
    return out


def scenarios(rng, th):
    out = []
    calls = [[d] for d in D] + [["nextBelow", 10], ["nextBelow", 16], ["nextBelow", 1073741825], ["setSeed", [7, 0, 0, 0]]]
    for i, a in enumerate(calls):
        for b in calls[i:]:
            out.append(dict(init=[["setSeed", nums.limbs(rng.getrandbits(64), 1)]], threads=[[a], [b]], final=[["nextInt"], ["nextInt"]]))
    for _ in range(300 if th else 80):
        out.append(dict(init=[["setSeed", nums.limbs(rng.getrandbits(64), 1)]], threads=[[list(rng.choice(calls)) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 4))], final=[["nextInt"], ["nextInt"]]))
    return out


def plans(k, th):
    return ["dfs 2 %d 0" % (250 if th else 60), "rnd %d %d 0" % (150 if th else 40, k)]


def main():
    return both.check("C22", lambda: seqcheck.check("C22", "Rand", DRIVER, gens=["RandGen.cfg"], mcs=[("Rand", "RandMC.cfg")], gen_limit=1500, randoms=scripts,
                                                    assumptions=["Gaussian values: as many draws as the polar method needs, each value a function of the seed; not their magnitude"]),
                      lambda: conccheck.check("C22", "RandShared", "concrandom.cpp", scenarios, plans,
                                              assumptions=["schedules are sequentially consistent interleavings of the compiled code's memory accesses"]))
