"""Shared by C11 (StringBuilder) and C12 (StringBuffer)."""
import rnd, seqcheck
DRIVER = "charseq.cpp"
ED = dict(append=3, appendSeq=2, appendChars=2, appendChar=2, appendInt=1, appendLong=1, appendBool=.5, appendRange=2, appendPart=2, appendOther=1.5, appendOtherRange=1, insert=3,
          insertSeq=2, insertChars=2, insertChar=2, insertInt=1, insertLong=1, insertBool=.5, insertRange=2, insertPart=2, insertOther=1.5, delete=5, deleteCharAt=3, replace=5,
          reverse=2, setCharAt=2, setLength=2.5, ensureCapacity=1.5, trimToSize=1.5, make=.4, fromText=.6, copy=.7, assign=.7, appendValue=1.5, appendBox=1.5, insertValue=1.5, insertBox=1.5, appendInit=.8, appendBoxes=.8, appendBoxesPart=1,
          insertBoxes=1, insertBoxesPart=1, setBox=.8, appendCode=.8, fromInit=.3, fromSeq=.4, fromBuffer=.5)
QU = dict(charAt=2, indexOf=3, indexOfFrom=4, lastIndexOf=3, lastIndexOfFrom=4, substringFrom=2, substring=3, toString=1, getValue=1, codePointAt=.6, codePointBefore=.6, codePointCount=.6)


def gen(kinds):
    def randoms(rng, thorough):
        out = []
        ops = dict(ED, **QU)
        for _ in range(3000 if thorough else 600):
            alpha = rng.choice(["ab", "aab", "abc", "xyzXYZ09 ", "ab\xff\x80"])
            txt = lambda k=4: [ord(rng.choice(alpha)) for _ in range(rng.choice([0, 1, 1, 2, 3, k, rng.randint(0, 25)]) if rng.random() < .25 else rng.randint(1, k))]
            n = [0, 0]; sc = [["new", rng.choice(kinds)]]
            names = list(ops) if rng.random() < .6 else sorted(set(rng.sample(list(ED), 6) + rng.sample(list(QU), 4) + ["append", "trimToSize"]))
            kind = sc[0][1]
            for _ in range(rng.randint(6, 60)):
                op = rng.choices(names, [ops[x] for x in names])[0]
                s, d = rng.randint(1, 2), rng.randint(1, 2); m = n[s - 1]
                def ix(top=0):
                    if rng.random() < .12: return rng.choice([-1, m, m + 1, m + 2, -2147483648, 2147483647])
                    return rng.randint(0, max(0, m - 1 + top))
                def rg(k, bad=.12):
                    if rng.random() < bad: return [rng.choice([-1, 0, 1, k, k + 1]), rng.choice([-1, 0, k, k + 1, k + 9, 2147483647])]
                    f = rng.randint(0, k); return [f, rng.randint(f, k)]
                t = txt()
                val = lambda: (lambda k: [k, rng.randint(0, 1) if k == 0 else ord(rng.choice(alpha)) if k == 1 else rng.choice([0, 1, -1, rng.randint(-9999, 9999)])])(rng.randint(0, 5))
                if op == "appendCode" and kind == 0: continue
                if op in ("appendValue", "appendBox"): a = [s] + val()
                elif op in ("insertValue", "insertBox"): a = [s, ix(1)] + val()
                elif op in ("appendInit", "fromInit"): a = [s, t[:3]]
                elif op in ("appendBoxes", "fromSeq"): a = [s, t]
                elif op in ("appendBoxesPart", "insertBoxesPart"):
                    p = rg(len(t))
                    if p[0] >= 0 and p[1] >= p[0] and rng.random() < .9: p[1] -= p[0]
                    a = [s] + ([ix(1)] if op[0] == "i" else []) + [t] + p
                elif op == "insertBoxes": a = [s, ix(1), t]
                elif op == "setBox": a = [s, ix(), ord(rng.choice(alpha))]
                elif op == "appendCode": a = [s, rng.choice([-1, 0, 65, 127, 1114112, 2147483647, -2147483648, 1200000, rng.randint(0, 127)])]
                elif op == "fromBuffer": a = [s, d]
                elif op in ("append", "appendSeq", "appendChars", "indexOf", "lastIndexOf", "fromText"): a = [s, t]
                elif op == "appendChar": a = [s, ord(rng.choice(alpha))]
                elif op in ("appendInt", "appendLong"): a = [s, rng.choice([0, 7, -1, 12345, rng.randint(-10**6, 10**6)])]
                elif op == "appendBool": a = [s, rng.randint(0, 1)]
                elif op in ("appendRange", "appendPart", "insertRange", "insertPart"):
                    p = rg(len(t))
                    if op.endswith("Part") and p[0] >= 0 and p[1] >= p[0] and rng.random() < .9: p[1] -= p[0]
                    a = [s] + ([ix(1)] if op[0] == "i" else []) + [t] + p
                elif op in ("appendOther", "copy", "assign"):
                    a = [s, d]
                    if op == "appendOther" and n[s - 1] + n[d - 1] > 150: continue
                elif op == "appendOtherRange": a = [s, d] + rg(n[d - 1])
                elif op in ("insert", "insertSeq", "insertChars"): a = [s, ix(1), t]
                elif op == "insertChar": a = [s, ix(1), ord(rng.choice(alpha))]
                elif op in ("insertInt", "insertLong"): a = [s, ix(1), rng.randint(-999, 99999)]
                elif op == "insertBool": a = [s, ix(1), rng.randint(0, 1)]
                elif op == "insertOther":
                    if n[s - 1] + n[d - 1] > 150: continue
                    a = [s, ix(1), d]
                elif op == "delete": a = [s] + rg(m, .2)
                elif op == "replace": a = [s] + rg(m, .2) + [t]
                elif op in ("deleteCharAt", "charAt", "codePointAt", "codePointBefore", "substringFrom"): a = [s, ix(1)]
                elif op == "setCharAt": a = [s, ix(), ord(rng.choice(alpha))]
                elif op == "setLength": a = [s, rng.choice([-1, 0, m, m + 1, m + 3, max(0, m - 1), rng.randint(0, m + 30)])]
                elif op == "ensureCapacity": a = [s, rng.choice([-1, 0, 1, m, m + 1, 17, 35, 100, 300])]
                elif op == "make": a = [s, rng.choice([-1, 0, 1, 2, 5, 40])]
                elif op in ("indexOfFrom", "lastIndexOfFrom"): a = [s, t, ix(1)]
                elif op in ("substring", "codePointCount"): a = [s] + rg(m)
                else: a = [s]
                sc.append([op] + a)
                if op in ("fromText", "fromInit", "fromSeq"): n[s - 1] = len(a[1])
                elif op in ("appendInit", "appendBoxes"): n[s - 1] += len(a[1])
                elif op == "insertBoxes": n[s - 1] += len(t)
                elif op in ("appendValue", "appendBox", "insertValue", "insertBox"): n[s - 1] += 5
                elif op == "fromBuffer": n[d - 1] = m
                elif op == "make": n[s - 1] = 0 if a[1] >= 0 else m
                elif op in ("append", "appendSeq", "appendChars", "insert", "insertSeq", "insertChars"): n[s - 1] = m + len(t)
                elif op in ("appendChar", "insertChar"): n[s - 1] += 1
                elif op in ("appendInt", "appendLong", "insertInt", "insertLong"): n[s - 1] += len(str(a[-1]))
                elif op in ("appendBool", "insertBool"): n[s - 1] += 4 + (1 - a[-1])
                elif op in ("appendOther", "insertOther"): n[s - 1] += n[d - 1]
                elif op == "delete" and 0 <= a[1] <= min(m, a[2]): n[s - 1] = m - (min(a[2], m) - a[1])
                elif op == "deleteCharAt" and 0 <= a[1] < m: n[s - 1] -= 1
                elif op == "replace" and 0 <= a[1] <= min(m, a[2]): n[s - 1] = m - (min(a[2], m) - a[1]) + len(t)
                elif op == "setLength" and a[1] >= 0: n[s - 1] = a[1]
                elif op in ("copy", "assign"): n[d - 1] = n[s - 1]
                if n[s - 1] > 250: sc.append(["setLength", s, 20]); n[s - 1] = 20
            out.append(sc)
        for _ in range(2500 if thorough else 350):               # searching for patterns that overlap themselves
            sc = [["new", rng.choice(kinds)]]
            for _ in range(4):
                text, p = rnd.overlapping(rng); s = rng.randint(1, 2); n = len(text)
                sc.append(["fromText", s, text])
                sc += rng.sample([["indexOf", s, p], ["lastIndexOf", s, p], ["indexOfFrom", s, p, rng.randint(-1, n + 1)], ["lastIndexOfFrom", s, p, rng.randint(-1, n + 1)]], 3)
            out.append(sc)
        return out
    return randoms


def run(prop, kinds, gencfg):
    return seqcheck.check(prop, "CharSeq", DRIVER, gens=[gencfg], mcs=[("CharSeq", "CharSeqMC.cfg")], randoms=gen(kinds), variants=[[k] for k in kinds], gen_limit=4000,
                          assumptions=["characters are single bytes, so no surrogate pairs arise", "texts given as arguments contain no null character (setLength puts them into the buffers)"])
