"""Scripts for C19 and C20."""
DRIVER = "num.cpp"
BITS = [32, 64, 16, 8]
GENS = lambda part: [("NumGen", f"NumGen{part}_{k}.cfg", [[k]]) for k in range(4)]


def limbs(v, kind):
    n = [2, 4, 1, 1][kind]
    return [(v >> (16 * i)) & (65535 if kind < 3 else 255) for i in range(n)]


def value(rng, bits):
    """a bit pattern, often near a power of two or sparse"""
    m = (1 << bits) - 1
    c = rng.random()
    if c < .3: return (1 << rng.randrange(bits)) + rng.randint(-2, 2) & m
    if c < .45: return -(1 << rng.randrange(bits)) + rng.randint(-2, 2) & m
    if c < .6: return rng.randint(-12, 12) & m
    if c < .7: return (1 << rng.randrange(bits)) | (1 << rng.randrange(bits))
    if c < .8: return rng.getrandbits(bits) & rng.getrandbits(bits) & rng.getrandbits(bits)
    if c < .9: return (rng.randrange(10 ** rng.randint(1, 19)) * rng.choice([1, -1])) & m
    return rng.getrandbits(bits)


def digits(n, r):
    s = ""
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[n % r] + s; n //= r
        if not n: return s


def text(rng, kind, radix):
    bits = BITS[kind]
    n = rng.choice([value(rng, bits), (1 << bits) + rng.randint(-3, 3), (1 << bits - 1) + rng.randint(-3, 3), rng.getrandbits(rng.randint(1, bits + 6)), rng.getrandbits(130), 0, 7,
                    rng.randint(0, 130) + (rng.randint(1, 3) << rng.choice([8, 16, 32, 64]))])      # small when cut to fewer bits
    t = digits(n, radix)
    if rng.random() < .3: t = t.upper()
    if rng.random() < .15: t = "0" * rng.randint(1, 30) + t
    if rng.random() < .22:
        p = rng.randint(0, len(t))
        t = t[:p] + rng.choice([" ", "x", "-", "+", ".", "\0", "\t", "g", "z", "/", ":", "@", "[", "`", "{", "\xff", "_", ",", "8", "L", "l", chr(rng.randrange(256))]) + t[p + (rng.random() < .5):]
    if rng.random() < .03: t = ""
    return [ord(c) for c in rng.choice(["", "", "", "+", "-", "-"]) + t]


def scripts(rng, count, part):
    out = []
    for _ in range(count):
        k = rng.choice([0, 0, 1, 1, 2, 3]); bits = BITS[k]
        v = lambda: limbs(value(rng, bits), k)
        sc = [["new", k], ["make", 1, v()], ["make", 2, v()]]
        for _ in range(rng.randint(3, 14)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            if part == 19:
                ops = ["bop", "bop", "parse", "parse", "parse", "make", "makeText", "copy", "assign", "as"] + [[], [], ["none"], []][k]
                if k != 2: ops += ["cop", "cop", "parseR", "decode", "decode", "toString", "toString"]
                if k < 2: ops += ["toBase", "toBase"]
                if k == 0: ops += ["parseU", "parseU", "toStringR", "toUnsigned"]
            else:
                ops = ["rel", "rel", "make"] + (["bits", "bits", "bits", "rot", "rot", "cmp"] if k < 2 else ["cmp"] if k == 3 else []) + (["udiv"] if k == 0 else [])
            op = rng.choice([x for x in ops if x != "none"])
            f = rng.randint(0, 4)
            r = rng.choice([2, 3, 7, 8, 10, 10, 16, 16, 27, 31, 32])
            if op == "make": a = [i, v()]
            elif op == "makeText": a = [i, text(rng, k, 10)]
            elif op in ("copy", "assign", "rel"): a = [i, j]
            elif op in ("cop", "bop"): a = [f, i, j]
            elif op == "as": a = [i]
            elif op in ("toString", "bits"): a = [v()]
            elif op == "toBase": a = [v(), rng.choice([2, 8, 16])]
            elif op in ("toStringR", "toUnsigned"): a = [v(), rng.choice([2, 8, 10, 16, 16, 33, -1, 1, 20])]
            elif op == "parse": a = [text(rng, k, 10)]
            elif op in ("parseR", "parseU"): a = [text(rng, k, r), r if rng.random() < .92 else rng.choice([0, 1, -1, -2147483648, 2147483647] + ([33, 36] if k != 1 else [37]))]
            elif op == "decode":
                p, r = rng.choice([("0x", 16), ("0X", 16), ("0", 8), ("", 10), ("#", 16) if k == 1 else ("0x", 16)])
                t = text(rng, k, r); n = 1 if t and t[0] in (43, 45) and rng.random() < .9 else 0
                a = [t[:n] + [ord(c) for c in p] + t[n:]]
                if 35 in a[0] and k != 1: continue
            elif op == "rot": a = [v(), rng.choice([rng.randint(-70, 140), rng.randint(-2147483648, 2147483647)])]
            else: a = [v(), v()] if rng.random() < .85 else [v()] * 2
            sc.append([op] + a)
        out.append(sc)
    return out
