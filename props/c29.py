"""C29 exception objects."""
import seqcheck
DRIVER = "exceptions.cpp"
PARENT = [-1, 0, 0, 1, 3, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 1, 17, 1, 19, 1, 3, 22, 23, 1]


def scripts(rng, th):
    out = []
    text = lambda: [rng.randint(1, 255) for _ in range(rng.choice([0, 1, 2, 5, 15, 16, 17, 40, 200]))]
    for _ in range(20000 if th else 2000):
        cls = {}
        sc = [["new", 0]]
        few = rng.sample(range(26), 3)
        for _ in range(rng.randint(5, 20)):
            s = rng.randint(1, 3)
            c = rng.choice(few)
            live = list(cls)
            op = rng.choice(["plain", "text", "text", "both", "both", "cause", "raise", "raise", "raise", "copy", "assign", "assign", "keep", "chain", "outOf", "assertInt", "assertLong", "assertBool", "assertChar"])
            if op == "plain": sc.append([op, s, c]); cls[s] = c
            elif op == "text" and c not in (11, 16): sc.append([op, s, c, text()]); cls[s] = c
            elif op == "both" and c not in (8, 10, 11, 18): z = rng.choice(live + [0]); sc.append([op, s, c, text(), z]); cls[s] = c
            elif op == "cause" and c not in (8, 10, 11, 16, 18) and live: sc.append([op, s, c, rng.choice(live)]); cls[s] = c
            elif op == "outOf": sc.append([op, s, rng.choice([rng.randint(-5, 99), rng.randint(-2**31 + 1, 2**31 - 1)])]); cls[s] = 5
            elif op in ("assertInt", "assertLong"): sc.append([op, s, rng.choice([rng.randint(-5, 99), rng.randint(-2**31 + 1, 2**31 - 1)])]); cls[s] = 16
            elif op == "assertBool": sc.append([op, s, rng.randint(0, 1)]); cls[s] = 16
            elif op == "assertChar": sc.append([op, s, rng.randint(1, 255)]); cls[s] = 16
            elif not live: continue
            elif op in ("copy", "keep"): t = rng.choice(live); sc.append([op, s, t]); cls[s] = cls[t]
            elif op == "assign":
                s = rng.choice(live); t = rng.choice([x for x in live if cls[x] == cls[s]]); sc.append([op, s, t])
            elif op == "raise":
                s = rng.choice(live); b = cls[s]
                for _ in range(rng.randint(0, 3)): b = max(PARENT[b], 0)
                sc.append([op, s, rng.choice([b, b, rng.randint(0, 25)])])
            elif op == "chain": sc.append([op, rng.choice(live)])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C29", "Exceptions", DRIVER, gens=["ExceptionsGen0.cfg", "ExceptionsGen1.cfg"], mcs=[("Exceptions", "ExceptionsMC.cfg")], randoms=scripts,
                          assumptions=["a cause is a borrowed pointer: the object it names outlives its use, as in the driver's fixed slots", "messages hold no NUL characters"])
