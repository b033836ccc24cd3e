"""Runs several parts of one check (a sequential and a concurrent specification) and merges their evidence."""
import json, os
import seqcheck, vf


def check(prop, *parts):
    if seqcheck.collect is not None:
        return parts[0]()
    docs = []
    for part in parts:
        rc = part()
        if rc:
            return rc
        with open(os.path.join(vf.VERIF, "evidence", prop + ".json")) as f:
            docs.append(json.load(f))
    cov, ass = {}, []
    for d in docs:
        ass += d.get("assumptions", [])
        for k, v in d["coverage"].items():
            if k not in cov:
                cov[k] = v
            elif isinstance(v, bool):
                cov[k] = cov[k] and v
            elif isinstance(v, (int, float)) or isinstance(v, list):
                cov[k] = cov[k] + v
            elif isinstance(v, str) and v != cov[k]:
                cov[k] = cov[k] + "; " + v
    vf.write_evidence(prop, docs[0].get("level", "model_checking"), cov, ass)
    return 0
