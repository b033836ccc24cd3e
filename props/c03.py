"""C03 LinkedList."""
import rnd, seqcheck
DRIVER = "linkedlist.cpp"
OPS = dict(add=(6, "sv"), offer=(4, "sv"), offerLast=(3, "sv"), addLast=(3, "sv"), offerFirst=(3, "sv"), addFirst=(3, "sv"), push=(4, "sv"),
           peek=(1, "s"), peekFirst=(1, "s"), getFirst=(1, "s"), element=(1, "s"), peekLast=(1, "s"), getLast=(1, "s"), poll=(2, "s"), pollFirst=(2, "s"),
           pop=(2, "s"), remove=(2, "s"), pollLast=(2, "s"), removeLast=(2, "s"), get=(3, "si"), set=(3, "siv"), removeAt=(3, "si"), removeNode=(2, "si"),
           removeForeign=(1, "sd"), writeNode=(2, "siv"), clear=(.4, "s"), size=(1, "s"), iterate=(1, "s"), forEach=(1, "sn"), forEachRemove=(1, "sv"),
           forEachWrite=(.5, "sv"), copy=(1, "sd"), assign=(1, "sd"), fromInit=(.7, "sl"))



def randoms(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 500):
        vals = rng.sample([0, 1, 2, 3, -7, 100, 2147483647], rng.randint(1, 4))
        ls = [[], []]
        sc = [["new", rng.randint(0, 1)]]
        names = list(OPS) if rng.random() < .7 else sorted(set(rng.sample(list(OPS), 10) + ["add", "push"]))
        for _ in range(rng.randint(5, 60)):
            op = rng.choices(names, [OPS[x][0] for x in names])[0]
            s = rng.randint(1, 2); l = ls[s - 1]; m = len(l)
            v = rng.choice(vals); d = rng.randint(1, 2)
            i = rng.randrange(m) if m and rng.random() < .75 else rng.choice([-1, m, m + 1, 2147483647, -2147483648])
            a = [s]
            if op in ("removeNode", "writeNode"):
                if not m: continue
                i = rng.randrange(m)
            for t in OPS[op][1][1:]:
                a.append(v if t == "v" else d if t == "d" else i if t == "i" else rng.randint(1, m + 2) if t == "n" else [rng.choice(vals) for _ in range(rng.randint(0, 6))])
            sc.append([op] + a)
            ok = 0 <= i < m
            if op in ("add", "offer", "offerLast", "addLast"): l.append(v)
            elif op in ("offerFirst", "addFirst", "push"): l.insert(0, v)
            elif op in ("poll", "pollFirst", "pop", "remove") and m: l.pop(0)
            elif op in ("pollLast", "removeLast") and m: l.pop()
            elif op in ("set", "writeNode") and ok: l[i] = v
            elif op in ("removeAt", "removeNode") and ok: l.pop(i)
            elif op == "clear": l.clear()
            elif op == "forEachRemove": l[:] = [x for x in l if x != v]
            elif op == "forEachWrite": l[:] = [v] * m
            elif op in ("copy", "assign"): ls[d - 1] = list(l)
            elif op == "fromInit": ls[s - 1] = list(a[1])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C03", "LinkedList", DRIVER, gens=["LinkedListGen.cfg"], mcs=[("LinkedList", "LinkedListMC.cfg")], randoms=randoms,
                          variants=[(0,), (1,)], gen_limit=3000, assumptions=["element types Integer and String stand for every element type (the container is a template)"])
