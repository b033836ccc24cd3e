"""C15 String equality, order and hashing."""
import seqcheck, strings
DRIVER = strings.DRIVER


def main():
    return seqcheck.check("C15", "Str", DRIVER, gens=["StrGen15.cfg"], mcs=[("Str", "StrMC.cfg")], gen_limit=3500,
                          randoms=lambda rng, th: strings.scripts(rng, 3000 if th else 500, strings.Q15, strings.ALPHA),
                          assumptions=["letters are compared without regard to case for ASCII only, as the code does"])
