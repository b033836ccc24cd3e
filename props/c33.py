"""C33 String.format."""
import struct
import seqcheck
DRIVER = "printf.cpp"
FLAGS = "-#+0 "
INT = {0: "", 1: "l", 2: "ll", 3: "", 4: "", 5: "", 6: "l", 13: "", 14: "", 15: "l", 18: ""}


def limbs(x, n): return [(x >> (16 * k)) & 0xffff for k in range(n)]


def value(rng, t, conv):
    if t in (9, 10, 19): return [rng.choice([rng.randint(33, 126), 37, 37, rng.randint(128, 255), 32]) for _ in range(rng.choice([0, 1, 3, 8, 20, rng.choice([126, 127, 128, 129, 200, 300])]))]
    if t in (11, 12): return [rng.randint(0, 1)]
    if t in (7, 17, 8, 16):
        x = rng.choice([rng.uniform(-1000, 1000), rng.randint(-5000, 5000) / 8, float(rng.randint(-99, 99)), rng.uniform(-1, 1) * 10 ** rng.randint(-9, 12), 0.0, -0.0, 999999.5, 9.9999995, 0.00009999995,
                        10.0 ** rng.randint(-6, 18), rng.uniform(-9, 9) * 10.0 ** rng.randint(-37, 38), float("inf"), float("-inf"), rng.randint(0, 40) + .5])
        if t in (7, 17) and rng.random() < .04: x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(63) | rng.getrandbits(1) << 63))[0]
        if x != x: x = 1.5
        if t in (8, 16) and 3e38 < abs(x) < float("inf"): x = 1.5
        if t in (8, 16): x = struct.unpack("<f", struct.pack("<f", x))[0]
        return limbs(struct.unpack("<Q", struct.pack("<d", x))[0], 4)
    n = 64 if INT[t] else 16 if t in (3, 4, 13) else 8 if t == 18 else 32
    x = rng.choice([rng.getrandbits(n), rng.getrandbits(rng.randint(1, n)), rng.randint(0, 9), (1 << n) - 1 - rng.randint(0, 99), 1 << (n - 1), (1 << (n - 1)) - 1]) & ((1 << n) - 1)
    if conv == "c": x = x % 255 + 1
    elif t in (3, 13, 18) and x >> (n - 1): x -= 1 << n
    return limbs(x, 4 if INT[t] else 2)


def directive(rng, t):
    flags = "".join(rng.choice(FLAGS) for _ in range(rng.choice([0, 0, 1, 1, 2, 4])))
    width = rng.choice(["", "", str(rng.randint(1, 12)), str(rng.randint(1, 40)), str(rng.choice([126, 127, 128, 129, 150, 260]) if rng.random() < .3 else 9)])
    prec = rng.choice(["", "", "." + str(rng.randint(0, 8)), ".%d" % rng.choice([0, 1, 15, 20])])
    if t in (9, 10, 19): conv = "s"; flags = "-" * (rng.random() < .4); prec = rng.choice(["", "", ".%d" % rng.choice([0, 1, 5, 127, 128, 400])])
    elif t in (11, 12): conv = rng.choice("bB"); flags = "-" * (rng.random() < .4); prec = ""
    elif t in (7, 8, 16, 17):
        conv = rng.choice("ffFeEgG")
        if conv in "gG": flags = flags.replace("#", "")      # glibc drops the zeros when rounding carries
    else:
        conv = rng.choice("dddiuoxX" + ("cc" if t in (0, 14, 18) else ""))
        if conv == "c": flags = "-" * (rng.random() < .4); prec = ""
    return "%" + flags + width + prec + INT.get(t, "") + conv, conv


def text(rng):
    return "".join(rng.choice(["a", "b", " ", "%%", "%5%", "%-%", "\n", "%q", "%D", "100%&", "\xe9", "x" * 20, "{}", "%lll", "l", "$"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 4])))


def scripts(rng, th):
    out = []
    for _ in range(7000 if th else 1100):
        sc = [["new", 1]]
        for _ in range(5):
            n = rng.choice([0, 1, 1, 1, 1, 2, 2, 3])
            ts = [rng.randint(0, 19)] if n == 1 else [rng.choice([0, 1, 7, 10, 11]) for _ in range(n)]
            f, vs = text(rng), []
            miss = rng.random() < .08
            for k, t in enumerate(ts):
                d, conv = directive(rng, t)
                f += d + text(rng); vs.append(value(rng, t, conv))
            if miss: f += directive(rng, rng.randint(0, 19))[0] + text(rng)
            sc.append(["format", [ord(c) for c in f], ts, vs])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C33", "Printf", DRIVER, gens=[("PrintfGen", "PrintfGen%d.cfg" % k, [[1]]) for k in range(4)], mcs=[("Printf", "PrintfMC.cfg")], randoms=scripts, variants=[[1]], chunk_events=500,
                          assumptions=["each directive's conversion and length suit its argument (as in C), and its digits do not precede other flags", "%n, %p, %a are not used; formats and texts hold no null character; C locale"])
