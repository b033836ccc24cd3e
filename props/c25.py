"""C25 MediaType."""
import seqcheck
DRIVER = "media.cpp"
T = ["application", "text", "image", "a", "*", "x-y", "application", "text", "te"]
S = ["*", "json", "xml", "atom+xml", "*+xml", "*+json", "svg+xml", "html", "x", "a+b", "*+", "+xml", "*x", "**", "vnd.api+json", "xm", "plain", "html5"]
s = lambda t: [ord(c) for c in t]


def scripts(rng, th):
    out = []
    for _ in range(5000 if th else 900):
        sc = [["new"]]
        word = lambda: "".join(rng.choice("abx*-.") for _ in range(rng.randint(1, 4)))
        ty = lambda: rng.choice(T) if rng.random() < .8 else word()
        su = lambda: rng.choice(S) if rng.random() < .7 else rng.choice([word(), word() + "+" + word(), "*+" + word()])
        for _ in range(rng.randint(5, 15)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            op = rng.choice(["make", "make", "makeP", "any", "copy", "assign", "parse", "parse", "parse", "reparse", "string", "wild", "wild"] + ["compatible"] * 6)
            if op == "make": sc.append([op, i, s(ty() if rng.random() < .95 else ""), s(su() if rng.random() < .95 else "")])
            elif op == "makeP":
                sc.append([op, i, s(ty()), s(su()), [[s(rng.choice(["q", "charset", "a", "b", ""])), s(rng.choice(["1", "utf-8", "", "x/y;z"]))] for _ in range(rng.randint(1, 4))]])
            elif op == "parse":
                t = ty() + "/" + su() if rng.random() < .8 else rng.choice([ty(), ty() + "/", "/" + su(), "", " ", "*", "/", "*/" + su(), ";", " ;a/b"])
                if rng.random() < .4: t = rng.choice([" ", "\t", "  "]) + t
                if rng.random() < .5: t += rng.choice(["", " ", "\t "]) + ";" + rng.choice(["", "q=0.5", " charset=utf-8; a=/", "/"])
                sc.append([op, i, s(t)])
            elif op in ("string", "wild", "any"): sc.append([op, i])
            else: sc.append([op, i, j])
            if op in ("make", "parse") and rng.random() < .5: sc += [["compatible", 1, 2], ["compatible", 2, 1]]
        out.append(sc)
    return out


def main():
    return seqcheck.check("C25", "Media", DRIVER, gens=["MediaGen.cfg"], mcs=[("Media", "MediaMC.cfg")], gen_limit=4000, randoms=scripts,
                          assumptions=["texts with several slashes, and suffixes of subtypes with several plus signs, are left open; parameters in a text are not kept"])
