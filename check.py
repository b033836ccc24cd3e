#!/usr/bin/env python3
"""python3 check.py C01 [quick|thorough]   runs the check of one property against /repo's working tree.
python3 check.py --replay FILE             re-runs a reported violation."""
import importlib, os, sys
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        import json, conccheck, seqcheck
        d = json.load(open(sys.argv[2]))
        if d["property"] == "C35": import c35; sys.exit(c35.replay(d))
        if d["property"] == "C36": import c36; sys.exit(c36.replay(d))
        sys.exit(conccheck.replay(d) if d.get("conc") else seqcheck.replay(sys.argv[2]))
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(sys.argv[1].lower())
    rc = mod.main()
    sys.stdout.flush()
    sys.exit(rc)
