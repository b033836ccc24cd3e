"""C20 bit operations and order."""
import seqcheck, nums
DRIVER = nums.DRIVER


def main():
    return seqcheck.check("C20", "Num", DRIVER, gens=nums.GENS(20), mcs=[("Num", "NumMC20.cfg")], gen_limit=1800,
                          randoms=lambda rng, th: nums.scripts(rng, 4000 if th else 700, 20))
