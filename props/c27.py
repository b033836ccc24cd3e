"""C27 Float and Double."""
import struct
import nums, seqcheck
DRIVER = "real.cpp"
s = lambda t: [ord(c) for c in t]


def pattern(x, k):
    return nums.limbs(struct.unpack("<I" if k == 0 else "<Q", struct.pack("<f" if k == 0 else "<d", x))[0], k)


def number(l, k):
    n = sum(v << 16 * i for i, v in enumerate(l))
    return struct.unpack("<f" if k == 0 else "<d", struct.pack("<I" if k == 0 else "<Q", n))[0]


def bits(rng, k):
    """a bit pattern that is not a NaN (or the usual NaN)"""
    eb, fb = (8, 23) if k == 0 else (11, 52)
    emax = (1 << eb) - 1
    c = rng.random()
    if c < .04: return nums.limbs((emax << fb) | 1 << fb - 1, k)
    if c < .09: e, f = emax, 0
    elif c < .17: e, f = 0, rng.choice([0, 0, 1, rng.getrandbits(fb), (1 << fb) - 1])
    else:
        e = rng.choice([rng.randint(0, emax - 1), (emax >> 1) + rng.randint(-6, 6), (emax >> 1) + rng.randint(-40, 66), (emax >> 1) + fb + rng.randint(-2, 40)])
        e = max(0, min(emax - 1, e))
        f = rng.choice([0, 1, (1 << fb) - 1, rng.getrandbits(fb), 1 << rng.randrange(fb), rng.getrandbits(fb) & rng.getrandbits(fb)])
    return nums.limbs(rng.randint(0, 1) << eb + fb | e << fb | f, k)


def near(rng, l, k):
    """the pattern, a neighbour, its negative, or another"""
    n = sum(v << 16 * i for i, v in enumerate(l)); w = nums.BITS[k]
    c = rng.random()
    if c < .3: return l
    m = n + rng.choice([1, -1]) if c < .6 else n ^ 1 << w - 1 if c < .75 else n ^ 1 << rng.randrange(w)
    r = nums.limbs(m & (1 << w) - 1, k)
    x = number(r, k)
    return r if x == x else l


def printable(rng, k):
    """a finite value whose decimal form the specification computes quickly"""
    while True:
        x = rng.choice([rng.uniform(-10, 10), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 17), rng.randint(-10 ** 6, 10 ** 6), rng.randint(-999, 999) / 10 ** rng.randint(0, 6), rng.randint(-4000, 4000) / 16.0,
                        (rng.randint(0, 10 ** 6) + .5) * 10 ** rng.randint(-9, 3), 10.0 ** rng.randint(-9, 12), 10.0 ** rng.randint(-6, 8) - 10.0 ** -6, 0.0])
        if rng.random() < .2: x = rng.uniform(1, 10) * 10.0 ** rng.randint(-44, 37)
        elif k == 1 and rng.random() < .05: x = rng.uniform(1, 10) * 10.0 ** rng.randint(17, 290)
        l = pattern(x, k)
        if abs(x) < (1e300 if k else 3e38): return l


def numeral(rng, k):
    c = rng.random()
    if c < .25:
        t = repr(number(printable(rng, k), k)) if rng.random() < .5 else "%.*f" % (rng.randint(0, 20), number(printable(rng, 1), 1) % 1e6)
    else:
        i = str(rng.randrange(10 ** rng.randint(1, 12))) if rng.random() < .9 else ""
        f = "".join(rng.choice("0123456789") for _ in range(rng.randint(0 if i else 1, 12)))
        t = i + ("." + f if f or rng.random() < .1 else "")
        if rng.random() < .4: t += rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", ""]) + str(rng.randint(0, rng.choice([3, 20, 45])))
    if c > .9:   # half-way between neighbours, or next to it
        m = (1 << (24 if k == 0 else 53)) + 2 * rng.randrange(1 << 20) + 1
        t = str(m + rng.choice([0, 0, 2])) + rng.choice(["", ".0", ".00001", "e0", ".5"])
    if rng.random() < .2: t = rng.choice("+-") + t
    return s(t)


def illegal(rng):
    t = "".join(chr(c) for c in numeral(rng, 0))
    p = rng.randint(0, len(t))
    return s(rng.choice([t[:p] + rng.choice([",", "+", "-", "..", "e", "a", "\0", "_", "/", ":", "%"]) + t[p:], rng.choice(["", "abc", "e", "+", "-", ".", "e5", ".e1", "1e", "1e+", "--1", "+-1", "1.2.3", "one", "null"])]))


def scripts(rng, th):
    out = []
    for _ in range(60000 if th else 1500):
        k = rng.randint(0, 1)
        sc, last = [["new", k]], bits(rng, k)
        small = {}
        for _ in range(rng.randint(4, 14)):
            i, j = rng.randint(1, 2), rng.randint(1, 2)
            op = rng.choice(["make"] * 3 + ["copy", "assign"] + ["rel"] * 4 + ["bits"] * 3 + ["calc"] * 3 + ["update", "update", "ofBits", "min", "arith", "arith", "text", "text", "parse", "parse", "bad", "int", "change", "change"])
            if op == "make": last = near(rng, last, k) if rng.random() < .5 else bits(rng, k); sc.append([op, i, last]); small.pop(i, 0)
            elif op in ("copy", "assign"):
                sc.append([op, i, j])
                if j in small: small[i] = small[j]
                else: small.pop(i, 0)
            elif op == "rel": sc.append([op, i, j])
            elif op == "bits": sc.append([op, bits(rng, k)])
            elif op == "ofBits":
                l = bits(rng, k); x = number(l, k)
                if x != x: continue
                n = sum(v << 16 * q for q, v in enumerate(l)); w = nums.BITS[k]
                if k == 1 and n >> 63: n = -(n & (1 << 63) - 1) & (1 << 64) - 1
                sc.append([op, nums.limbs(n, k)])
            elif op == "min":
                a = bits(rng, k); b = near(rng, a, k) if rng.random() < .5 else bits(rng, k)
                if number(a, k) == number(a, k) and number(b, k) == number(b, k): sc.append([op, a, b])
            elif op in ("int", "change", "arith"):
                n = rng.choice([rng.randint(-9, 9), rng.randint(-300, 300)])
                if op == "int": n = rng.choice([n, rng.randint(-8000000, 8000000)]); sc.append([op, i, n]); small[i] = n
                else:
                    f = rng.randint(0, 3); x = rng.randint(-1500, 1500) if op == "arith" else small.get(i)
                    if x is None: continue
                    if f == 3:
                        n = n or 1
                        if op == "arith": x = x // 50 * n
                        elif x % n: continue
                        if x == 0: continue                     # the sign of zero
                    r = [x + n, x - n, x * n, int(x / n) if n else 0][f]
                    if abs(r) >= 1 << 23 or (r == 0 and f >= 2): continue
                    if op == "arith": sc.append([op, f, x, n])
                    else: sc.append([op, f, i, n]); small[i] = r
                if i in small and rng.random() < .4: sc.append(["whole", i])
            elif op == "calc":
                x = bits(rng, k); y = near(rng, x, k) if rng.random() < .3 else bits(rng, k)
                if rng.random() < .3: x, y = printable(rng, k), printable(rng, k)
                if rng.random() < .08: x, y = (pattern(rng.choice([0.0, -0.0, 1.0, float("inf"), -float("inf")]), k) for _ in "xy")
                sc.append([op, rng.randint(0, 3), x, y])
            elif op == "update":
                small.pop(i, 0)
                sc.append([op, rng.randint(0, 3), i, printable(rng, k) if rng.random() < .5 else bits(rng, k)])
                if rng.random() < .3: sc.append(["rel", i, 3 - i])
            elif op == "text":
                sc += [["make", i, printable(rng, k)]] if rng.random() < .7 else [["make", 3 - i, printable(rng, k)], [rng.choice(["copy", "assign"]), i, 3 - i]]
                small.clear(); sc.append([op, i])
            elif op == "parse": sc.append([op, i, numeral(rng, k)]); small.pop(i, 0)
            else:
                t = illegal(rng)
                sc.append(["parse", i, t]); small.pop(i, 0)
        out.append(sc)
    return out


def main():
    return seqcheck.check("C27", "Real", DRIVER, gens=[("RealGen", "RealGen%d.cfg" % k, [[k]]) for k in (0, 1)], mcs=[("Real", "RealMC.cfg")], gen_limit=2000, randoms=scripts,
                          assumptions=["the integer form of a value is the one the repository's tests pin (magnitude bits, negated for negative values)", "hexadecimal and suffixed numerals, blanks around numerals, and signalling NaNs are outside"])
