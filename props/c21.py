"""C21 exact arithmetic."""
import seqcheck, nums
DRIVER = "exactmath.cpp"


def scripts(rng, count):
    out = []
    for _ in range(count):
        sc = [["new"]]
        for _ in range(rng.randint(6, 14)):
            k = rng.randint(0, 1); bits = nums.BITS[k]
            sig = lambda x: x - (1 << bits) if x >> (bits - 1) else x
            op = rng.choice(["add", "subtract", "multiply", "multiply", "increment", "decrement", "negate", "floorDiv", "floorDiv", "floorMod", "floorMod", "abs", "max", "min", "toInt", "toInt"])
            a, b = nums.value(rng, bits), nums.value(rng, bits)
            top = 1 << (bits - 1)
            lim = rng.choice([top, -top, top - 1, -top - 1]) + rng.randint(-2, 2)
            if rng.random() < .6:                                   # results around the limits of the type
                if op == "add": b = lim - sig(a)
                elif op == "subtract": b = sig(a) - lim
                elif op == "multiply":
                    a = rng.choice([rng.getrandbits(rng.randint(1, bits - 1)), 1 << rng.randrange(bits), 3]) * rng.choice([1, -1]) or 1
                    b = lim // a + rng.randint(-1, 1)
                elif op in ("floorDiv", "floorMod") and rng.random() < .5: a = sig(b) * rng.randint(-5, 5) + rng.randint(-1, 1)
                elif op in ("increment", "decrement", "negate", "abs"): a = lim
            if op == "toInt":
                x = rng.choice([nums.value(rng, 64), nums.value(rng, 34), -nums.value(rng, 33), rng.choice([1, -1]) * (1 << 31) + rng.randint(-2, 2)])
                sc.append([op, nums.limbs(x, 1)])
            else: sc.append([op, nums.limbs(a, k)] + ([] if op in ("increment", "decrement", "negate", "abs") else [nums.limbs(b, k)]))
        out.append(sc)
    return out


def main():
    return seqcheck.check("C21", "ExactMath", DRIVER, gens=["ExactMathGen.cfg"], mcs=[("ExactMath", "ExactMathMC.cfg")], gen_limit=4000,
                          randoms=lambda rng, th: scripts(rng, 8000 if th else 1200),
                          assumptions=["the absolute value of the minimum, and its floor quotient by -1, wrap around as documented for Java"])
