"""C16 Base64."""
import seqcheck
DRIVER = "base64.cpp"
SEPS = [[13, 10], [10], [], [64, 35], [0], [200, 9], [45], [95, 95], [32] * 5]
BADSEPS = [[65], [10, 61], [43], [47, 10], [10, 10, 122]]
STD = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"]
URL = STD[:62] + [45, 95]


def scripts(rng, count):
    out = []
    for _ in range(count):
        sc = [["new"]]
        pad = 0

        def data():
            n = rng.choice([rng.randint(0, 6), rng.randint(0, 30), 54, 55, 56, 57, 58, 59, 114, 115, rng.randint(0, 130)])
            pool = rng.choice([list(range(256)), [0, 255], [251, 239, 190, 248], [rng.randrange(256)]])
            return [rng.choice(pool) for _ in range(n)]

        def enc():
            k = rng.randint(0, 3)
            return [k, rng.randint(0, 1), rng.choice([-2147483648, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 20, 75, 76, 77, 2147483647]),
                    rng.choice(SEPS if rng.random() < .9 else BADSEPS)] if k == 3 else [k, rng.randint(0, 1), 0, []]

        def text(d):
            al = URL if d == 1 else STD
            n = rng.choice([rng.randint(0, 9), rng.randint(0, 40)])
            t = [rng.choice(al) for _ in range(n)]
            if rng.random() < .7: t += [61] * rng.choice([(-len(t)) % 4, (-len(t)) % 4, 0, 1, 2, 3])
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
                t.insert(rng.choice([rng.randint(0, len(t)), len(t)]), rng.choice([61, 10, 13, 32, 45, 95, 43, 47, 0, 255, 128, 42, 64, 91, 96, 123, 58, 65, rng.randrange(256)]))
            return t

        for _ in range(rng.randint(3, 14)):
            op = rng.choice(["encode", "encode", "encodeText", "encodeLast", "decode", "decode", "decode", "decodeText", "decodeLast", "decodeLast", "encodeInto", "decodeInto"])
            if op in ("encode", "encodeText"):
                e = enc(); a = [e, data()]
                sc.append([op] + a)
                sc.append(["decodeLast", rng.choice([1 if e[0] == 1 else 2 if e[0] > 1 else 0, rng.randint(0, 2)])])
                continue
            if op == "encodeLast": a = [enc()]
            elif op == "decodeLast": a = [rng.randint(0, 2)]
            elif op in ("decode", "decodeText"): d = rng.randint(0, 2); a = [d, text(d if rng.random() < .9 else rng.randint(0, 2))]
            elif op == "encodeInto":
                e, b = enc(), data()
                n = (len(b) + 2) // 3 * 4 if e[1] else (4 * len(b) + 2) // 3
                a = [e, b, max(0, n + rng.choice([-1, 0, 0, 1, 3, 10, -len(b), rng.randint(-6, 6)]))]
            else:
                d = rng.randint(0, 2); t = text(d); a = [d, t, max(0, 3 * len(t) // 4 + rng.choice([-2, -1, 0, 1, 1, 2, 5]))]
            sc.append([op] + a)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C16", "Base64", DRIVER, gens=["Base64Gen.cfg"], mcs=[("Base64", "Base64MC.cfg")], gen_limit=4000,
                          randoms=lambda rng, th: scripts(rng, 5000 if th else 900),
                          assumptions=["texts whose unused low bits are not zero are accepted, as java.util.Base64 does",
                                       "a target array too small raises InterruptedException (pinned by the repository's tests) and stays untouched"])
