"""C32 Boolean, Character, Enum."""
import seqcheck
DRIVER = "values.cpp"


def scripts(rng, th):
    out = []
    for _ in range(12000 if th else 1500):
        k = rng.randint(0, 2)
        sc = [["new", k]]
        def text():
            t = rng.choice(["true", "True", "TRUE", "tRuE", "false", "False", "yes", "1", "", "true ", " true", "t", "truetrue", "trve"])
            return [ord(c) for c in "".join(c.upper() if rng.random() < .2 else c for c in t)]
        for _ in range(rng.randint(4, 20)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            if rng.random() < .12: sc.append([rng.choice(["copy", "assign"]), i, j]); continue
            if k == 0:
                op = rng.choice(["make", "valueOf", "makeText", "valueOfText", "valueOfString", "parse", "getBoolean", "texts", "again", "compareB", "equalB"])
                sc.append([op, i, rng.randint(0, 1)] if op in ("make", "valueOf") else [op, i, text()] if "Text" in op or "String" in op else [op, text()] if op in ("parse", "getBoolean") else [op, i] if op == "texts" else [op, i, j])
            elif k == 1:
                op = rng.choice(["makeC", "makeC", "compareC", "digit", "digit", "digit", "charCount", "pointAt", "pointAtLimit", "pointBefore", "pointBeforeStart", "pointCount"])
                if op == "makeC": sc.append([op, i, rng.randrange(256)])
                elif op == "compareC": sc.append([op, i, j])
                elif op == "digit": sc.append([op, rng.choice([rng.randint(0, 127)] * 6 + [rng.randint(-300, 70000), 2147483647, -2147483648]), rng.choice([rng.randint(2, 36)] * 5 + [0, 1, 37, -1, 100])])
                elif op == "charCount": sc.append([op, i, rng.choice([rng.randint(0, 0x10ffff), 65535, 65536])])
                else:
                    t = [rng.randint(0, 127) for _ in range(rng.randint(0, 6))]; x = lambda: rng.choice([rng.randint(-1, len(t) + 1)] * 6 + [2147483647])
                    sc.append([op, t, x()] if op in ("pointAt", "pointBefore") else [op, t, x(), x()])
            else:
                op = rng.choice(["makeE", "makeE", "textsE", "compareE"])
                sc.append([op, i, [rng.randint(33, 126) for _ in range(rng.choice([0, 1, 2, 5, 16, 60]))], rng.choice([rng.randint(0, 9), 2147483647])] if op == "makeE" else [op, i] if op == "textsE" else [op, i, j])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C32", "Values", DRIVER, gens=[("ValuesGen", "ValuesGen%d.cfg" % k, [[k]]) for k in (0, 1, 2)], mcs=[("Values", "ValuesMC.cfg")], randoms=scripts,
                          assumptions=["code points of arrays of ASCII characters only: the surrogate ranges are pinned to other values by the tests", "ordinals are not negative, as in Java"])
