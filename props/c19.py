"""C19 integer text conversion."""
import seqcheck, nums
DRIVER = nums.DRIVER


def main():
    return seqcheck.check("C19", "Num", DRIVER, gens=nums.GENS(19), mcs=[("Num", "NumMC19.cfg")], gen_limit=1500,
                          randoms=lambda rng, th: nums.scripts(rng, 4000 if th else 700, 19),
                          assumptions=["Long reports text that is not a numeral as -1 (pinned by the repository's tests)",
                                       "formatting in a radix other than 2, 8, 10 and 16 may be refused (pinned by the repository's tests)"])
