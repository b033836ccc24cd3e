"""C26 Arrays."""
import seqcheck
DRIVER = "arrays.cpp"
NO = {7: {"setAt", "fill", "fillAll", "asList"}, 8: {"fill", "fillAll", "equals", "hash", "sameHash"}, 9: {"fill", "fillAll", "equals", "hash", "sameHash"},
      5: {"hash"}, 6: {"hash"}}
EXTREME = {0: [2147483647, -2147483647, 2147483646], 1: [255, 254, 128], 2: [32767, -32767], 3: [2147483647, -2147483647, 65536], 4: [127, -127], 5: [999, -12345], 6: [99999, -7],
           7: [1], 8: [2147483647, -2147483647], 9: [60, 50]}


def transform(sc):
    """Leaves out the calls the library does not offer for an element type, and numbers that stand for none."""
    k = sc[0][1]
    out = [sc[0]]
    for c in sc[1:]:
        if c[0] in NO.get(k, ()) or (k == 7 and c[0] in ("sort", "sortAll", "search", "searchAll") and c[-1] == 0): continue
        if k in (1, 7, 9):
            fix = lambda x: [fix(y) for y in x] if isinstance(x, list) else x
            if c[0] in ("init", "append", "push", "searchAll", "search", "setAt", "fill", "fillAll", "asList"):
                pos = {"init": 2, "append": 2, "push": 2, "searchAll": 2, "search": 4, "setAt": 3, "fill": 4, "fillAll": 2, "asList": 1}[c[0]]
                m = (lambda x: [m(y) for y in x] if isinstance(x, list) else (1 if x > 0 else 0) if k == 7 else abs(x) if k == 1 else min(abs(x), 60))
                c = c[:pos] + [m(c[pos])] + c[pos + 1:]
        out.append(c)
    return out


def scripts(rng, th):
    out = []
    for _ in range(6000 if th else 1200):
        k = rng.randint(0, 9)
        pool = [0, 1, 2, 3, -1, -2] + EXTREME[k] + [rng.randint(-100, 100) for _ in range(4)]
        if rng.random() < .5: pool = rng.sample(pool, rng.randint(1, 4))
        val = lambda: rng.choice(pool)
        n = {1: 0, 2: 0}
        sc = [["new", k]]

        def load(i, m):
            l = [val() for _ in range(m)]
            z = rng.random()
            if z < .2: l.sort()
            elif z < .3: l.sort(reverse=True)
            elif z < .4: l = sorted(l[:m // 2]) + sorted(l[m // 2:], reverse=True)
            n[i] = m
            sc.append(["init", i, l])
        load(1, rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 20]))
        for _ in range(rng.randint(5, 14)):
            i = rng.randint(1, 2) if rng.random() < .3 else 1
            j = rng.randint(1, 2); L = n[i]
            ix = lambda: rng.randint(-1, L + 1)
            def rg():
                if not L: return 0, -1
                f = rng.randrange(L); return f, rng.randrange(f, L)
            op = rng.choice(["init", "sized", "copy", "push", "append", "get", "setAt", "iterate", "sortAll", "sortAll", "sort", "sort", "search", "search", "searchAll",
                             "sorted", "sorted", "copyOf", "copyOfRange", "equals", "fillAll", "fill", "hash", "sameHash", "asList", "near"])
            if op == "init": load(i, rng.choice([0, 1, 2, 3, 5, 9, 17]))
            elif op == "sized": n[i] = rng.randint(0, 6); sc.append([op, i, n[i]])
            elif op == "copy": sc.append([op, i, j]); n[i] = n[j]
            elif op == "push": sc.append([op, i, val()]); n[i] += 1
            elif op == "append": l = [val() for _ in range(rng.randint(0, 2))]; sc.append([op, i, l]); n[i] += len(l)
            elif op == "get": sc.append([op, i, rng.choice([ix(), ix(), 2147483647, -2147483648])])
            elif op == "setAt": sc.append([op, i, ix(), val()])
            elif op in ("iterate", "hash"): sc.append([op, i])
            elif op == "sortAll": sc.append([op, i, rng.randint(0, 2)])
            elif op == "sort": f, t = rg(); sc.append([op, i, f, t, rng.randint(0, 1)])
            elif op == "searchAll": sc.append([op, i, val(), rng.randint(0, 1)])
            elif op == "search": f, t = rg(); sc.append([op, i, f, t, val(), rng.randint(0, 2)])
            elif op == "sorted":
                f, t = rg()
                if t < f: continue
                if rng.random() < .6: sc.append(["sort", i, f, t, rng.randint(0, 1) if k != 7 else 1])
                else: sc.append(["sortAll", i, 1])
                for _ in range(3): sc.append(["search", i, f, t, val(), rng.randint(0, 2)])
                if rng.random() < .3: sc.append(["search", i, f, f, val(), rng.randint(0, 2)])
                if rng.random() < .2: sc.append(["search", i, -1, t, val(), rng.randint(0, 2)])
            elif op == "copyOf": m = rng.choice([0, L, max(0, L - 1), L + 1, L + 3]); sc.append([op, i, j, m, rng.randint(0, 1)]); n[j] = m
            elif op == "copyOfRange": f, t = ix(), ix(); sc.append([op, i, j, f, t, rng.randint(0, 1)]); n[j] = t - f if 0 <= f <= t <= L else 0
            elif op in ("equals", "sameHash"): sc.append([op, i, j])
            elif op == "near": sc.append(["copy", j, i]); n[j] = L; sc += [["setAt", j, rng.randrange(L), val()] if L and rng.random() < .7 else ["iterate", j], ["equals", i, j], ["sameHash", i, j]]
            elif op == "fillAll": sc.append([op, i, val()])
            elif op == "fill": sc.append([op, i] + (list(rg()) if L and rng.random() < .7 else [ix(), ix()]) + [val()])
            elif op == "asList": sc.append([op, [val() for _ in range(rng.randint(0, 4))]])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C26", "Arrays", DRIVER, gens=[("ArraysGen", "ArraysGen.cfg", [(k,) for k in range(10)])], mcs=[("Arrays", "ArraysMC.cfg")], gen_limit=700,
                          randoms=scripts, transform=transform,
                          assumptions=["ranges of sort, search and fill include both ends, as the tests pin; illegal ranges of sort are outside",
                                       "element numbers stand for elements in the same order; hashes of float and double arrays are only checked to agree on equal arrays"])
