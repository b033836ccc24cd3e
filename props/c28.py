"""C28 exact floating-point functions of Math."""
import nums, seqcheck
from c27 import bits, near, pattern, number
DRIVER = "realmath.cpp"
UN = ["round", "nextUp", "nextDown", "ulp", "exponent", "signum", "abs"]
DUN = ["floor", "ceil", "rint", "sqrt"]
BI = ["nextAfter", "copySign", "max", "min"]


def point(rng, k):
    c = rng.random()
    if c < .45: return bits(rng, k)
    if c < .6: return near(rng, pattern(float(rng.randint(-20, 20)) / 2, k), k)
    if c < .75: return near(rng, pattern(rng.choice([-1, 1]) * (rng.getrandbits(rng.randint(1, 23 if k == 0 else 52)) + .5), k), k)      # ties
    if c < .85: return near(rng, pattern(rng.choice([-1, 1]) * 2.0 ** rng.randint(20, 70), k), k)                                   # ends of the integer types
    if c < .95: return near(rng, pattern(rng.choice([-1, 1]) * 2.0 ** rng.randint(-149 if k == 0 else -1074, 127 if k == 0 else 1023), k), k)
    if k == 1 and rng.random() < .5: n = rng.getrandbits(26); return near(rng, pattern(float(n * n), 1), 1)
    return pattern(rng.uniform(-100, 100), k)


def pair(rng, k):
    x = point(rng, k)
    return x, near(rng, x, k) if rng.random() < .4 else point(rng, k)


def scripts(rng, th):
    out = []
    for _ in range(30000 if th else 2500):
        k = rng.randint(0, 1)
        sc = [["new", k]]
        for _ in range(rng.randint(5, 12)):
            c = rng.random()
            if c < .55: sc.append([rng.choice(UN + (DUN if k else [])), point(rng, k)])
            elif c < .75: sc.append([rng.choice(BI), *pair(rng, k)])
            elif c < .87: sc.append(["scalb", point(rng, k), [rng.choice([rng.randint(-5, 5), rng.randint(-60, 60), rng.randint(-300, 300), rng.randint(-2200, 2200)])]])
            elif k:
                x = point(rng, 1); n = number(x, 1)
                y = near(rng, x, 1) if rng.random() < .2 else point(rng, 1); m = number(y, 1)
                if rng.random() < .4 and m == m and abs(m) < 1e200 and m: x = near(rng, pattern(m * rng.choice([rng.randint(-9, 9), rng.randint(-19, 19) / 2.0]), 1), 1); n = number(x, 1)
                if n == n and m == m and 0 < abs(n) < 1e308 and 0 < abs(m) < 1e308 and abs(n) / 1e22 > abs(m) * (1e60 if rng.random() < .1 else 1):
                    continue                                # a quotient of many bits: the specification would take long
                sc.append(["rem", x, y])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C28", "RealMath", DRIVER, gens=[("RealMathGen", "RealMathGen%d.cfg" % k, [[k]]) for k in (0, 1)], mcs=[("RealMath", "RealMathMC.cfg")], randoms=scripts,
                          assumptions=["max and min with a NaN operand return what the header documents (valueB unless valueA is greater or less)", "the integer nearest to a half-way value is either neighbour, as the header leaves it open",
                                       "transcendental functions (sin, exp, pow, ...) have no exact specification and are outside"])
