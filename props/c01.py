"""C01 ArrayList."""
import seqcheck
DRIVER = "arraylist.cpp"
VALS = [0, 1, 2, 3, -7, 100, 2147483647, -2147483647]


def randoms(rng, thorough):
    out = []
    for n in range(1500 if thorough else 250):
        size = [0, 0]
        vals = rng.sample(VALS, rng.randint(1, 4))
        sc = [["new", rng.randint(0, 1)]]
        for _ in range(rng.randint(5, 60)):
            s = rng.randint(1, 2); m = size[s - 1]
            i = rng.choice([0, m - 1, m, m + 1, -1, rng.randint(-2, m + 2), 2147483647, -2147483648]) if rng.random() < .3 else (rng.randrange(m) if m else 0)
            v = rng.choice(vals)
            op = rng.choices(["add", "addAt", "set", "setOp", "get", "removeAt", "removeElem", "clear", "contains", "indexOf", "lastIndexOf",
                              "size", "isEmpty", "toArray", "iterate", "forEach", "trimToSize", "toString", "clone", "copy", "assign", "fromInit", "fromArray", "sized", "removeRange"],
                             [14, 10, 6, 2, 4, 5, 5, .3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, .7, .7, .3, 1.5])[0]
            if op in ("addAt", "set"): c = [op, s, i, v]
            elif op == "setOp":
                if not m: continue
                c = [op, s, rng.randrange(m), v]
            elif op in ("get", "removeAt"): c = [op, s, i]
            elif op in ("add", "removeElem", "contains", "indexOf", "lastIndexOf"): c = [op, s, v]
            elif op == "forEach": c = [op, s, rng.randint(1, m + 2)]
            elif op in ("clone", "copy", "assign"): c = [op, s, rng.randint(1, 2)]
            elif op in ("fromInit", "fromArray"): c = [op, s, [rng.choice(vals) for _ in range(rng.randint(0, 4 if op == "fromInit" else 9))]]
            elif op == "sized": c = [op, s, rng.randint(0, 5)]
            elif op == "removeRange": f = rng.randint(0, m); c = [op, s, f, rng.randint(f, m)] if rng.random() < .9 else [op, s, i, rng.randint(-1, m + 1)]
            else: c = [op, s]
            sc.append(c)
            # keep a rough idea of the sizes so that most indexes are interesting
            if op == "add" or (op == "addAt" and 0 <= i <= m): size[s - 1] += 1
            elif op == "removeRange" and 0 <= c[2] <= c[3] <= m: size[s - 1] -= c[3] - c[2]
            elif op == "removeAt" and 0 <= i < m: size[s - 1] -= 1
            elif op == "clear": size[s - 1] = 0
            elif op in ("clone", "copy", "assign"): size[c[2] - 1] = m
            elif op in ("fromInit", "fromArray"): size[s - 1] = len(c[2])
            elif op == "sized": size[s - 1] = c[2]
            elif op == "removeElem": size[s - 1] = max(0, m - 1)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C01", "ArrayList", DRIVER, gens=["ArrayListGen.cfg"], mcs=[("ArrayList", "ArrayListMC.cfg")],
                          randoms=randoms, variants=[(0,), (1,)], gen_limit=4000,
                          assumptions=["element types Integer and String stand for every element type (the container is a template)",
                                       "calls whose C++ body is an unimplemented stub in the repository (Collection/Predicate parameters) are outside the property"])
