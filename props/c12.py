"""C12 StringBuffer and its unsynchronised base."""
import charseq
DRIVER = charseq.DRIVER
def main(): return charseq.run("C12", [1, 2], "CharSeqGen1.cfg")
