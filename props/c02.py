"""C02 Vector and Stack."""
import seqcheck
DRIVER = "vector.cpp"
VALS = [0, 1, 2, 3, -7, 100, 2147483647, -2147483647]
OPS = dict(add=10, addElement=4, addAt=6, insertElementAt=3, addAll=3, addAllAt=3, set=4, setElementAt=3, setOp=3, get=3, getOp=2, elementAt=2, firstElement=2,
           lastElement=2, removeAt=4, removeElementAt=3, removeElem=5, removeForeign=.5, removeAll=1, retainAll=.7, removeRange=3, clear=.4, removeAllElements=.2,
           setSize=2, ensureCapacity=2, trimToSize=1.5, capacity=1, contains=2, containsAll=1, indexOf=2, indexOfFrom=3, lastIndexOf=2, lastIndexOfFrom=3, size=1,
           isEmpty=1, toArray=1, copyInto=1, iterate=1, equals=2, copy=1, assign=1)
VEC = dict(OPS, clone=1, fromInit=.7, assignInit=.7, sized=.7)
STK = dict(OPS, push=12, pop=8, peek=4, search=4, empty=2)


def randoms(rng, thorough):
    out = []
    for n in range(2500 if thorough else 500):
        kind = rng.randint(0, 3)
        ops = VEC if kind < 2 else STK
        vals = rng.sample(VALS, rng.randint(1, 4))
        size = [0, 0]
        names = list(ops) if rng.random() < .7 else rng.sample(list(ops), 12) + ["add", "addAt"]
        wts = [ops[x] for x in names]
        sc = [["new", kind]]
        many = lambda k=5: [rng.choice(vals) for _ in range(rng.randint(0, k))]
        for _ in range(rng.randint(5, 60)):
            s = rng.randint(1, 2); m = size[s - 1]
            i = rng.choice([0, m - 1, m, m + 1, -1, rng.randint(-2, m + 2), 2147483647, -2147483648]) if rng.random() < .3 else (rng.randrange(m) if m else 0)
            v = rng.choice(vals)
            op = rng.choices(names, wts)[0]
            d = 0
            if op in ("add", "addElement", "push"): c = [op, s, v]; d = 1
            elif op in ("addAt", "insertElementAt"): c = [op, s, i, v]; d = 1 if 0 <= i <= m else 0
            elif op == "addAll": c = [op, s, many()]; d = len(c[2])
            elif op == "addAllAt":
                c = [op, s, i, many() or [v]]; d = len(c[3]) if 0 <= i <= m else 0
            elif op in ("set", "setElementAt", "setOp"): c = [op, s, i, v]
            elif op in ("get", "getOp", "elementAt"): c = [op, s, i]
            elif op in ("removeAt", "removeElementAt"): c = [op, s, i]; d = -1 if 0 <= i < m else 0
            elif op in ("removeElem", "contains", "indexOf", "lastIndexOf", "search"): c = [op, s, v]; d = -1 if op == "removeElem" and m else 0
            elif op in ("indexOfFrom", "lastIndexOfFrom"): c = [op, s, v, i]
            elif op in ("removeAll", "retainAll", "containsAll", "copyInto"): c = [op, s, many(3)]
            elif op == "removeRange":
                j = rng.choice([i, i + 1, rng.randint(-1, m + 2), m - 1]) if abs(i) < 10**6 else rng.randint(-1, m)
                c = [op, s, i, j]; d = -(max(j - i, 1)) if 0 <= i <= j < m else 0
            elif op == "setSize": c = [op, s, rng.choice([m, m + 1, m + 7, 0, m - 1, -1, rng.randint(0, 40)])]; d = max(c[2], 0) - m if c[2] >= 0 else 0
            elif op == "ensureCapacity": c = [op, s, rng.choice([0, -1, m, m + 1, 10, 11, 21, rng.randint(0, 60)])]
            elif op in ("copy", "assign", "clone", "equals"):
                c = [op, s, rng.randint(1, 2)]
                if op != "equals": size[c[2] - 1] = m
            elif op in ("fromInit", "assignInit"): c = [op, s, many()]; d = len(c[2]) - m
            elif op == "sized": c = [op, s, rng.choice([0, 1, 2, 3, 10, 30, -1]), rng.choice([0, 0, 1, 2, 5, -3])]; d = -m if c[2] >= 0 else 0
            else:
                c = [op, s]
                if op in ("clear", "removeAllElements"): d = -m
                if op == "pop" and m: d = -1
            sc.append(c)
            size[s - 1] = max(0, size[s - 1] + d)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C02", "Vector", DRIVER, gens=[("VectorGenK", "VectorGen0.cfg", [(0,), (1,)]), ("VectorGenK", "VectorGen2.cfg", [(2,)])], mcs=[("Vector", "VectorMC.cfg")],
                          randoms=randoms, gen_limit=3000,
                          assumptions=["element types Integer and String stand for every element type (the container is a template)"])
