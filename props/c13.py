"""C13 StringBuffer under concurrent use."""
import conccheck
ED = [["append", 1, [120, 121]], ["appendChar", 1, 122], ["appendInt", 1, -12], ["appendLong", 1, 345], ["appendBool", 1, 1], ["insert", 1, 1, [113, 114]], ["insertChar", 1, 0, 115], ["insertInt", 1, 2, 67],
      ["delete", 1, 1, 3], ["delete", 1, 0, 99], ["deleteCharAt", 1, 2], ["replace", 1, 0, 2, [109, 110, 111]], ["reverse", 1], ["setCharAt", 1, 1, 88], ["setLength", 1, 1], ["setLength", 1, 6],
      ["ensureCapacity", 1, 50], ["trimToSize", 1]]
QU = [["length", 1], ["toString", 1], ["copyText", 1], ["charAt", 1, 2], ["indexOf", 1, [98]], ["lastIndexOf", 1, [99]], ["substring", 1, 1, 3], ["substringFrom", 1, 1], ["roomy", 1], ["codePointCount", 1, 0, 3]]
XX = [["appendOther", 1, 2], ["appendOther", 2, 1], ["appendOther", 1, 1], ["appendOtherSeq", 1, 2], ["appendOtherSeq", 2, 1], ["insertOther", 1, 1, 2], ["insertOther", 2, 0, 1], ["assign", 1, 2], ["assign", 2, 1], ["assign", 1, 1]]
INIT = [[["append", 1, [97, 98, 99]], ["append", 2, [49, 50]]], [["append", 1, [97, 98, 99, 100]], ["trimToSize", 1]]]
FIN = [["length", 1], ["toString", 1], ["toString", 2]]


def scenarios(rng, thorough):
    out = []
    for i, a in enumerate(ED):
        for b in ED[i:] + QU + XX:
            out.append(dict(init=INIT[len(out) % 2], threads=[[a], [b]], final=FIN))
    for i, a in enumerate(XX):
        for b in XX[i:] + QU:
            out.append(dict(init=INIT[0], threads=[[a], [b]], final=FIN))
    for _ in range(500 if thorough else 150):
        th = []
        for _ in range(rng.randint(2, 3)):
            cs = []
            for _ in range(rng.randint(1, 3)):
                c = list(rng.choice(ED + ED + QU + XX))
                if c in ED + QU and rng.random() < .15: c[1] = 2
                if c[0] in ("charAt", "deleteCharAt", "setCharAt", "insertChar", "insert"): c[2] = rng.randint(0, 4)
                cs.append(c)
            th.append(cs)
        out.append(dict(init=rng.choice(INIT), threads=th, final=FIN))
    return out


def plans(k, thorough):
    return ["dfs 2 %d 0" % (2000 if thorough else 80), "rnd %d %d 0" % (4000 if thorough else 240, k)]


def main():
    return conccheck.check("C13", "SharedBuffer", "buffer.cpp", scenarios, plans,
                           assumptions=["schedules are sequentially consistent interleavings of the compiled code's memory accesses"])
