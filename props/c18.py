"""C18 message digests."""
import seqcheck
DRIVER = "digest.cpp"
EDGE = [1, 2, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129]


def scripts(rng, count, top):
    out = []
    for _ in range(count):
        sc = [["new", rng.randint(0, 3)]]
        cap = rng.choice([70, 140, top]); size = [0, 0]
        for _ in range(rng.randint(3, 16)):
            op = rng.choice(["update"] * 8 + ["digest"] * 4 + ["reset"] * 2 + ["copy", "assign", "get", "updateNull", "digestNull", "length", "algorithm", "getUnknown", "short", "empty"])
            s = rng.randint(1, 2)
            if op == "update":
                n = rng.choice(EDGE + [rng.randint(1, 20), rng.randint(1, 70), 64 - size[s - 1] % 64, max(1, 55 - size[s - 1] % 64), max(1, 56 - size[s - 1] % 64)])
                if size[s - 1] + n > cap: op = "digest"
                else:
                    size[s - 1] += n
                    sc.append(["update", s, [rng.choice([0, 255, 128, rng.randrange(256), rng.randrange(256)]) for _ in range(n)]]); continue
            if op == "digest": sc.append(["digest", s, rng.choice([20, 20, 21, 64])])
            elif op == "short": sc.append(["digest", s, rng.choice([0, 1, 15, 16, 19])])
            elif op == "empty": sc.append(["update", s, []])
            elif op in ("copy", "assign"): sc.append([op, s, 3 - s]); size[2 - s] = size[s - 1]
            elif op == "get": sc.append([op, s, rng.choice([1, 5])]); size[s - 1] = 0
            elif op == "getUnknown": sc.append([op, s, [ord(c) for c in rng.choice(["MDx", "", "SHA256", "md", "MD55", "XMD5"])]])
            elif op == "updateNull": sc.append([op, s, rng.choice([0, 5])])
            else:
                if op == "reset": size[s - 1] = 0
                sc.append([op, s])
        sc += [["digest", 1, 20], ["digest", 2, 20]]
        out.append(sc)
    return out


def main():
    return seqcheck.check("C18", "Digest", DRIVER, gens=["DigestGen.cfg"], mcs=[("Digest", "DigestMC.cfg")], gen_limit=900,
                          randoms=lambda rng, th: scripts(rng, 4000 if th else 500, 1500 if th else 320), chunk_events=1500,
                          assumptions=["messages of at most a few hundred bytes (thorough: 1500): the carry into the second length word is out of reach"])
