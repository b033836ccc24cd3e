"""C34 Application and System."""
import seqcheck
DRIVER = "launch.cpp"


def scripts(rng, th):
    out = []
    for _ in range(6000 if th else 600):
        sc = [["new", 0]]
        text = lambda: [rng.choice([rng.randint(33, 126), 32, 10, rng.randint(128, 255), 37]) for _ in range(rng.choice([0, 1, 3, 12, 200]))]
        for _ in range(rng.randint(3, 14)):
            op = rng.choice(["put", "put", "drop", "getenv", "getenv", "print", "println", "app", "app", "app", "clock", "exit" if rng.random() < .1 else "getenv"])
            n = rng.randint(0, 3)
            if op == "put": sc.append([op, n, text()])
            elif op in ("drop", "getenv"): sc.append([op, n])
            elif op in ("print", "println"):
                k = rng.randint(0, 6)
                sc.append([op, k, text() if k in (1, 2) else [rng.randint(1, 255)] if k == 3 else [rng.randint(0, 1)] if k == 4 else [rng.choice([0, -1, 5, 2147483647, -2147483647, rng.randint(-10**6, 10**6)])]])
            elif op == "app": sc.append([op, [text() for _ in range(rng.choice([0, 1, 2, 3, 9]))], rng.randint(0, 9), text()])
            elif op == "clock": sc.append([op])
            else: sc.append([op, rng.choice([0, 1, 2, 3, 127, 255, 256, 511])])
        out.append(sc)
    return out


def main():
    return seqcheck.check("C34", "Launch", DRIVER, gens=["LaunchGen.cfg"], mcs=[("Launch", "LaunchMC.cfg")], randoms=scripts, variants=[[0]],
                          assumptions=["argv ends with a null pointer after argc texts, as the C runtime provides it", "environment values hold no null character"])
