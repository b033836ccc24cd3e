"""C05 PriorityQueue."""
import rnd, seqcheck
DRIVER = "priorityqueue.cpp"
OPS = dict(add=(8, "sv"), offer=(6, "sv"), peek=(2, "s"), poll=(5, "s"), remove=(5, "sv"), contains=(2, "sv"), size=(1, "s"), clear=(.3, "s"), toArray=(1, "s"),
           toArrayInto=(1, "sn"), drain=(.4, "s"), copy=(1, "sd"), assign=(1, "sd"), fromInit=(1, "sl"), sized=(.3, "sv"))


def delta(op, a, m, c):
    if op in ("add", "offer"): return m + 1
    if op in ("poll", "remove"): return m - 1
    if op in ("clear", "drain"): return 0
    if op in ("copy", "assign"): c.size[a[1] - 1] = m
    if op == "fromInit": return len(a[1])


def randoms(rng, thorough):
    cust = dict(toArrayInto=lambda c, s, m: [s, max(0, m + rng.randint(-3, 3))], sized=lambda c, s, m: [s, rng.choice([-1, 0, 1, 20])])
    n = 2500 if thorough else 500
    kinds = [(0,), (1,)]
    return (rnd.scripts(rng, n, OPS, [0, 1, 2, 3, 5, -7, 100, 2147483647, -2147483647], kinds, delta, custom=cust, must=("add",)) +
            rnd.scripts(rng, n // 5, OPS, list(range(-20, 60)), kinds, delta, length=(60, 160), custom=cust, nvals=(10, 40), must=("add", "offer", "remove")))


def main():
    return seqcheck.check("C05", "PriorityQueue", DRIVER, gens=["PriorityQueueGen.cfg"], mcs=[("PriorityQueue", "PriorityQueueMC.cfg")], randoms=randoms,
                          variants=[(0,), (1,)], gen_limit=3000,
                          assumptions=["element types Integer and int stand for every element type (the container is a template)", "equal elements are interchangeable",
                                       "toArray's order is unspecified: the driver sorts it before recording"])
