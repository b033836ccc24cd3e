"""C10 Thread."""
import conccheck


def scenarios(rng, thorough):
    out = []
    for kind in (0, 1, 2):
        for delay in (0, 10):
            mk = ["make", 1, kind, delay]
            for a in ([["join", 1], ["isAlive", 1], ["read", 1], ["idIsMine", 1]], [["isAlive", 1]], [["read", 1]], [["joinFor", 1, 4], ["isAlive", 1]], [["joinFor", 1, 50], ["read", 1], ["isAlive", 1]]):
                out.append(dict(init=[mk], threads=[[["start", 1]] + a], final=[["join", 1], ["read", 1], ["isAlive", 1], ["join", 1]]))
                for b in ([["join", 1], ["read", 1], ["isAlive", 1]], [["isAlive", 1], ["isAlive", 1]], [["start", 1]], [["joinFor", 1, 4], ["joinFor", 1, 4]], [["join", 1], ["join", 1]]):
                    out.append(dict(init=[mk, ["start", 1]], threads=[a, b], final=[["join", 1], ["read", 1], ["isAlive", 1], ["idIsMine", 1]]))
                    if kind == 0:
                        out.append(dict(init=[mk], threads=[[["start", 1]] + a, [["start", 1]] + b], final=[["join", 1], ["read", 1], ["isAlive", 1]]))
            if kind < 2:        # (an object of a class derived from Thread must be joined before it goes)
                out.append(dict(init=[mk, ["isAlive", 1], ["read", 1]], threads=[[["start", 1], ["delete", 1]]], final=[]))
            out.append(dict(init=[mk, ["isAlive", 1]], threads=[[["sleep", 30], ["isAlive", 1], ["read", 1]]], final=[["isAlive", 1]]))
    for d in (0, 5):            # two threads alive together (started before: the two ids are not read at one instant)
        out.append(dict(init=[["make", 1, 0, d], ["make", 2, 1, d], ["start", 1], ["start", 2]], threads=[[["sameId", 1, 2]]], final=[["join", 1], ["join", 2], ["idIsMine", 1], ["idIsMine", 2]]))
    names = [[97], [98, 99], []]
    for _ in range(400 if thorough else 90):
        K = rng.randint(1, 3)
        init = [["make", k, rng.randint(0, 2), rng.choice([0, 0, 3, 10])] for k in range(1, K + 1)]
        for k in range(1, K + 1):
            if rng.random() < .3: init += rng.choice([[["isAlive", k]], [["getName", k]], [["start", k]], [["setName", k, rng.choice(names)]]])
        th = []
        for _ in range(rng.randint(1, 3)):
            cs = []
            for _ in range(rng.randint(1, 5)):
                k = rng.randint(1, K)
                o = rng.choice(["start"] * 3 + ["join", "joinFor", "isAlive", "read", "setName", "getName", "sleep"])
                if o == "sleep": cs.append([o, rng.choice([1, 3, 10])])
                elif o == "joinFor": cs.append([o, k, rng.choice([1, 3, 5, 20])])
                elif o == "setName": cs.append([o, k, rng.choice(names)])
                else:
                    if o == "join": cs.append(["start", k])
                    cs.append([o, k])
            th.append(cs)
        fin = []
        for k in range(1, K + 1):
            fin += [["start", k], ["join", k], ["isAlive", k], ["read", k], ["idIsMine", k], ["getName", k]]
        out.append(dict(init=init, threads=th, final=fin))
    return out


def plans(k, thorough):
    return ["dfs 2 %d 0" % (4000 if thorough else 150), "dfs 1 %d 1" % (1000 if thorough else 40), "rnd %d %d 0.05" % (3000 if thorough else 120, k)]


def main():
    return conccheck.check("C10", "ThreadLife", "thread.cpp", scenarios, plans, mcs=[("ThreadLifeDesign", "ThreadLifeDesign.cfg")],
                           assumptions=["schedules are sequentially consistent interleavings (no weak-memory reorderings)", "time is virtual; condition variables may wake up spuriously"])
