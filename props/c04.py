"""C04 HashMap."""
import rnd, seqcheck
DRIVER = "hashmap.cpp"
OPS = dict(put=(8, "skv"), putIfAbsent=(4, "skv"), putAll=(1, "sd"), get=(3, "sk"), getOrDefault=(2, "skv"), containsKey=(2, "sk"), containsValue=(1, "sv"),
           remove=(3, "sk"), removeKV=(3, "skv"), replace=(3, "skv"), replaceKV=(3, "skvv"), size=(1, "s"), isEmpty=(1, "s"), clear=(.3, "s"), reinitialize=(.2, "s"),
           equals=(2, "sd"), iterate=(1, "s"), entrySet=(1, "s"), forEach=(1, "sn"), toString=(1, "s"), copy=(1, "sd"), assign=(1, "sd"), clone=(1, "sd"), fromInit=(.6, "sp"))


def randoms(rng, thorough):
    out = []
    for q in range(2500 if thorough else 500):
        kind = rng.randint(0, 3)
        few = rng.random() < .8                       # toString enumerates the orders of at most five entries
        keys = rng.sample([0, 1, 2, 3, 5, -7, 100, 2147483647, -2147483647], rng.randint(1, 5)) if few else rng.sample(range(-50, 400), 30)
        vals = rng.sample([0, 1, 2, -3, 55, 2147483647], rng.randint(1, 3))
        names = [x for x in OPS if (x != "toString" or few and kind != 3) and (few or x != "forEach")]
        sc = [["new", kind]]
        for _ in range(rng.randint(5, 60) if few else rng.randint(60, 150)):
            op = rng.choices(names, [OPS[x][0] for x in names])[0]
            a = []
            for t in OPS[op][1]:
                a.append(rng.randint(1, 2) if t in "sd" else rng.choice(keys) if t == "k" else rng.choice(vals) if t == "v" else rng.randint(1, 6) if t == "n"
                         else [[rng.choice(keys), rng.choice(vals)] for _ in range(rng.randint(0, 4))])
            sc.append([op] + a)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C04", "HashMap", DRIVER, gens=["HashMapGen.cfg"], mcs=[("HashMap", "HashMapMC.cfg")], randoms=randoms, variants=[(0,), (1,), (2,)], gen_limit=2500,
                          assumptions=["key/value types Integer, String and int stand for every type (the container is a template)",
                                       "iteration order is unspecified: the driver sorts entries before recording; toString may list them in any order"])
