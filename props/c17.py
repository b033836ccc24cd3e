"""C17 URL encoding."""
import seqcheck
DRIVER = "urlcode.cpp"
NAMES = ["UTF-8", "utf-8", "Utf-8", "uTF-8", "UTF-8", "UTF8", "", "UTF-16", "utf-8 ", " UTF-8", "UTF-0", "ISO-8859-1", "UTF-88", "UTF_8", "TF-8", "UTF-8\0"]


def scripts(rng, count):
    out = []
    for _ in range(count):
        sc = [["new"]]

        def text():
            pool = rng.choice([list(range(256)), list(range(128, 256)), [37, 43, 32, 45, 95, 46, 126, 48, 57, 65, 90, 97, 122, 64, 91, 96, 123, 47, 58, 44], [97, 32, 200, 0]])
            return [rng.choice(pool) for _ in range(rng.choice([rng.randint(0, 4), rng.randint(0, 25), rng.randint(0, 60)]))]

        def coded():
            t = []
            for _ in range(rng.randint(0, 20)):
                k = rng.random()
                t += [37] + [rng.choice(b"0123456789abcdefABCDEF") for _ in "xy"] if k < .5 else [43] if k < .6 else [rng.choice([c for c in range(256) if c != 37])] if k < .97 else [37]
            return t

        for _ in range(rng.randint(2, 12)):
            op = rng.choice(["encode", "encode", "encodeAs", "encodeLast", "decode", "decode", "decodeAs", "decodeLast", "decodeLast"])
            a = [text()] if op[:6] == "encode" else [coded()]
            if op[-2:] == "As": a.append([ord(c) for c in (rng.choice(NAMES) if rng.random() < .6 else "UTF-8")])
            if op[-4:] == "Last": a = []
            if op == "encodeLast" and sum(1 for x in sc if x[0] == "encodeLast") > 3: continue
            sc.append([op] + a)
            if op == "encode": sc.append(["decodeLast"])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C17", "UrlCode", DRIVER, gens=["UrlCodeGen.cfg"], mcs=[("UrlCode", "UrlCodeMC.cfg")], gen_limit=4000,
                          randoms=lambda rng, th: scripts(rng, 6000 if th else 900),
                          assumptions=["what a malformed escape decodes to is not constrained", "the C locale"])
