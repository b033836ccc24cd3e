"""C14 String operations."""
import seqcheck, strings
DRIVER = strings.DRIVER


def main():
    return seqcheck.check("C14", "Str", DRIVER, gens=["StrGen14.cfg"], mcs=[("Str", "StrMC.cfg")], gen_limit=4500,
                          randoms=lambda rng, th: strings.scripts(rng, 3000 if th else 600, strings.Q14, strings.ALPHA),
                          assumptions=["case conversion is decided for ASCII and Latin-1 letters in valid UTF-8, in a UTF-8 locale",
                                       "where the empty text occurs is left open, as is a backward search from so near the end that the text does not fit (pinned by a test of the repository)"])
