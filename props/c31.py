"""C31 Array."""
import seqcheck
DRIVER = "arrayobj.cpp"


def scripts(rng, th):
    out = []
    for _ in range(15000 if th else 1500):
        k = rng.randint(0, 2); n = [0, 0]
        val = lambda: rng.choice([rng.randint(-9, 9), 0, 2147483647, -2147483647] if k < 2 else [rng.randint(-99, 99)])
        sc = [["new", k]]
        for _ in range(rng.randint(5, 40)):
            i = rng.randint(1, 2); m = n[i - 1]
            ix = rng.randrange(m) if m and rng.random() < .75 else rng.choice([-1, m, m + 1, m - 1, 2147483647, -2147483648])
            op = rng.choice(["push"] * 6 + ["set"] * 4 + ["get", "at", "atConst", "pushOwn", "pushOwn", "plus", "plus", "list", "sized", "copy", "assign", "assign", "iterate", "passed", "passed"] + (["empty"] if rng.random() < .2 else []) + (["chars"] if k == 1 else []))
            if op == "push": sc.append([op, i, val()]); n[i - 1] += 1
            elif op == "pushOwn": sc.append([op, i, ix]); n[i - 1] += 0 <= ix < m
            elif op == "set": sc.append([op, i, ix, val()])
            elif op in ("get", "at", "atConst"): sc.append([op, i, ix])
            elif op == "plus": v = [val() for _ in range(rng.randint(0, 3))]; sc.append([op, i, v]); n[i - 1] += len(v)
            elif op in ("list", "chars"): v = [val() for _ in range(rng.randint(0, 4))]; sc.append([op, i, v]); n[i - 1] = len(v)
            elif op == "sized": s = rng.choice([0, 1, 2, 7, 33, -1, -2147483648]); sc.append([op, i, s]); n[i - 1] = m if s < 0 else s
            elif op in ("copy", "assign"): j = rng.randint(1, 2); sc.append([op, i, j]); n[i - 1] = n[j - 1]
            elif op == "passed": sc.append([op, i, val()])
            else: sc.append([op, i]); n[i - 1] = 0 if op == "empty" else m
        out.append(sc)
    return out


def main():
    return seqcheck.check("C31", "ArrayObj", DRIVER, gens=[("ArrayObjGen", "ArrayObjGen%d.cfg" % k, [[k]] + ([[2]] if k == 0 else [])) for k in (0, 1)], mcs=[("ArrayObj", "ArrayObjMC.cfg")], randoms=scripts,
                          assumptions=["element types int, String and Array<int>", "length is a public field that the program does not write"])
