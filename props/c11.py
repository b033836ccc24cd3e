"""C11 StringBuilder."""
import charseq
DRIVER = charseq.DRIVER
def main(): return charseq.run("C11", [0], "CharSeqGen0.cfg")
