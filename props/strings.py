"""Scripts for C14 and C15."""
import rnd
DRIVER = "string.cpp"
EDIT = dict(set=4, plusAssign=3, plusAssignChar=2, plusAssignPointer=.5, plusAssignOther=1.5, setAt=2, assign=1, copy=1, clone=.5, toString=.5, valueOfString=.4,
            fromChars=.5, fromBytes=.5, copyValueOf=.3, fromCharArray=.3, fromStd=.3, fromCharsPart=1, fromBytesPart=1, copyValuePart=.6, fromPointer=.5)
Q14 = dict(concat=1, plus=1, charAt=2, at=1, length=1, getSize=.3, isEmpty=.5, indexOfChar=2, indexOfCharFrom=3, lastIndexOfChar=2, lastIndexOfCharFrom=3, indexOf=3, indexOfFrom=4,
           lastIndexOf=3, lastIndexOfFrom=4, contains=2, containsSeq=1.5, startsWith=2, startsWithFrom=3, endsWith=2, subStringFrom=2, getStringFromIndex=1.5, subString=3, replaceChar=2,
           replace=3, replaceAll=2, replaceFirst=3, trim=2, toLowerCase=1.5, toUpperCase=1.5, split=3, splitUpTo=3, join=2, toCharArray=1, getBytes=1, toStd=.5, getChars=3,
           regionMatches=4, valueOfChar=.5, valueOfInt=.7, valueOfBool=.2)
Q15 = dict(equals=2, eq=2, ne=2, contentEquals=2, compareTo=3, compareToIgnoreCase=3, equalsIgnoreCase=2, lt=2, gt=2, le=2, ge=2, hashCode=4, stdHash=1)
EXT = [0, 1, -1, 2147483647, -2147483648]


def scripts(rng, count, queries, alphabets):
    out = []
    for _ in range(count):
        alpha = rng.choice(alphabets)
        ops = dict(EDIT, **queries) if rng.random() < .6 else dict({x: EDIT[x] for x in rng.sample(list(EDIT), 6)}, **{x: queries[x] for x in rng.sample(list(queries), min(len(queries), 8))}, set=4)
        cur = [[], []]                                    # the contents, so that arguments hit
        top = rng.choice([4, 8, 30])

        def text(k=None):
            t = []
            for _ in range(rng.randint(0, top if k is None else k)): t += rng.choice(alpha)
            return t

        def near(s):                                       # text that probably occurs
            m = cur[s]
            if m and rng.random() < .65:
                i = rng.randrange(len(m)); t = m[i:i + rng.randint(1, 4)]
                return t if rng.random() < .85 else t + rng.choice(alpha)
            return text(2)

        def idx(s):
            n = len(cur[s])
            return rng.choice(EXT + [n - 1, n, n + 1]) if rng.random() < .3 else rng.randint(0, max(n, 1))

        sc = [["new"]]
        for _ in range(rng.randint(5, 45)):
            op = rng.choices(list(ops), list(ops.values()))[0]
            s, d = rng.randint(0, 1), rng.randint(0, 1)
            if len(cur[s]) > 80: op = "set"
            m = cur[s]
            if op in ("set", "fromChars", "fromBytes", "copyValueOf", "fromCharArray", "fromStd"):
                t = text()
                if rng.random() < .35: t = list(cur[1 - s])
                if rng.random() < .2 and t: t = t[:-1] + rng.choice(alpha)
                a = [t]; cur[s] = t
            elif op in ("fromCharsPart", "fromBytesPart", "copyValuePart"):
                t = text(); n = len(t); a = [t, rng.choice([0, 0, 1, n, n + 1, -1, rng.randint(0, n)]), rng.choice([0, 1, n, n + 1, -1, rng.randint(0, n)])]
                if 0 <= a[1] and 0 <= a[2] and a[1] + a[2] <= n: cur[s] = t[a[1]:a[1] + a[2]]
            elif op == "fromPointer": t = text(); n = rng.randint(0, len(t)); a = [t, n]; cur[s] = t[:n]
            elif op in ("assign", "copy", "clone", "toString", "valueOfString"): a = [d + 1]; cur[d] = list(m)
            elif op == "plusAssign": t = text(3); a = [t]; cur[s] = m + t
            elif op == "plusAssignPointer": t = [c for c in text(3) if c]; a = [t]; cur[s] = m + t
            elif op == "plusAssignChar": t = rng.choice(alpha); t = t[:1] if t[0] < 128 else [33]; a = [t[0]]; cur[s] = m + t
            elif op == "plusAssignOther": a = [d + 1]; cur[s] = m + cur[d]
            elif op == "setAt":
                if not m: continue
                i = rng.randrange(len(m)); c = rng.choice(alpha)[0]; a = [i, c]; cur[s] = m[:i] + [c] + m[i + 1:]
            elif op in ("at",):
                if not m: continue
                a = [rng.randrange(len(m))]
            elif op in ("concat", "plus"): a = [text(4)]
            elif op in ("indexOf", "lastIndexOf", "contains", "startsWith", "endsWith", "split"):
                a = [near(s)]
                if op == "startsWith" and rng.random() < .5: a = [m[:rng.randint(0, len(m))]]
                if op == "endsWith" and rng.random() < .5: a = [m[rng.randint(0, len(m)):]]
            elif op == "containsSeq": a = [[c for c in near(s) if c]]
            elif op in ("charAt", "subStringFrom", "getStringFromIndex"): a = [idx(s)]
            elif op in ("indexOfChar", "lastIndexOfChar", "indexOfCharFrom", "lastIndexOfCharFrom"):
                a = [rng.choice(m) if m and rng.random() < .7 else rng.choice(alpha)[0]] + ([idx(s)] if op.endswith("From") else [])
            elif op in ("indexOfFrom", "lastIndexOfFrom", "startsWithFrom"):
                a = [near(s), idx(s)]
                if a[1] > 2000000000: a[1] = len(m) + 60        # TLC's integers end there
            elif op == "subString":
                a = [idx(s), idx(s)]
                if a[0] > a[1] and rng.random() < .8: a.reverse()
            elif op == "replaceChar": a = [rng.choice(m) if m and rng.random() < .7 else rng.choice(alpha)[0], rng.choice(alpha)[0]]
            elif op in ("replace", "replaceAll", "replaceFirst"): a = [near(s), text(3)]
            elif op == "splitUpTo": a = [near(s), rng.choice([-1, 0, 1, 2, 3, 4, 9])]
            elif op == "join": a = [[text(3) for _ in range(rng.randint(1, 4))]]
            elif op == "getChars":
                b = rng.choice([-1, 0, 0, rng.randint(0, len(m))]); e = rng.choice([len(m), len(m) + 1, b, rng.randint(0, len(m))])
                n = rng.choice([0, len(m), len(m) + 3, max(0, e - b), max(0, e - b) + 1]); a = [b, e, n, rng.choice([0, 0, 1, -1, max(0, n - e + b)])]
            elif op == "regionMatches":
                t = near(s) if rng.random() < .4 else [c ^ 32 if 65 <= (c & 223) <= 90 and rng.random() < .5 else c for c in m]
                big = [2147483647, -2147483648] if rng.random() < .1 else [1]
                a = [rng.randint(0, 1), rng.choice([0, 0, 1, -1, len(m), len(m) + 1, rng.randint(0, len(m))]), t, rng.choice([0, 0, 1, -1, len(t), len(t) + 1]), rng.choice([0, 1, 2, 3, -1, len(m)] + big)]
            elif op == "valueOfChar": a = [rng.choice(alpha)[0]]
            elif op == "valueOfInt": a = [rng.choice([0, 7, -7, 10, -100, 2147483647, -2147483647, rng.randint(-99999, 99999)])]
            elif op == "valueOfBool": a = [rng.randint(0, 1)]
            elif op in ("toLowerCase", "toUpperCase"): a = []
            elif op in Q15: a = [] if op == "hashCode" else [d + 1]
            else: a = []
            sc.append([op, s + 1] + a)
        out.append(sc)
    if "indexOf" in queries:
        for _ in range(count // 2):
            sc = [["new"]]
            for _ in range(4):
                t, p = rnd.overlapping(rng); n = len(t)
                sc.append(["set", 1, t])
                sc += rng.sample([["indexOf", 1, p], ["lastIndexOf", 1, p], ["indexOfFrom", 1, p, rng.randint(-1, n + 1)], ["lastIndexOfFrom", 1, p, rng.randint(0, n)], ["split", 1, p],
                                  ["replace", 1, p, rng.choice([[], [99], p])], ["contains", 1, p], ["replaceFirst", 1, p, [99]]], 4)
            out.append(sc)
    return out


ALPHA = [[[97], [98]], [[97], [98], [32]], [[97], [65], [98], [66], [91], [96], [95]], [[32], [9], [10], [97], [13]], [[0], [97], [98]], [[97], [195, 169], [195, 137], [90]],
         [[0], [1], [127], [128], [255], [65], [97]], [[44], [97], [44, 44]], [[x] for x in range(33, 127)]]
