"""C09 Semaphore."""
import conccheck
A = ["acquire", "acquireN", "tryAcquire", "tryAcquireN", "tryAcquireFor", "release", "releaseN", "available"]


def scenarios(rng, thorough):
    out = []
    small = [["acquire"], ["acquireN", 2], ["tryAcquireN", 2], ["tryAcquireFor", 1, 5], ["release"], ["releaseN", 2], ["available"]]
    for p in (0, 1, 2):                                     # every pair and the interesting triples of calls
        for i, a in enumerate(small):
            for b in small[i:]:
                out.append(dict(init=[["make", p]], threads=[[a], [b]], final=[["available"]]))
                out.append(dict(init=[["make", p]], threads=[[a], [b], [["releaseN", 2]]], final=[["available"]]))
                if p < 2:
                    out.append(dict(init=[["make", p]], threads=[[a], [b], [["release"], ["release"]]], final=[["available"]]))
    for _ in range(600 if thorough else 120):               # longer histories, with time passing
        th = []
        for _ in range(rng.randint(2, 4)):
            cs = []
            for _ in range(rng.randint(1, 3)):
                o = rng.choice(A + ["release", "releaseN", "sleep"])
                if o == "sleep": cs.append([o, rng.choice([1, 3, 5, 8])])
                elif o == "tryAcquireFor": cs.append([o, rng.randint(1, 3), rng.choice([0, 1, 4, 5, 10])])
                elif o.endswith("N"): cs.append([o, rng.randint(1, 3)])
                else: cs.append([o])
            th.append(cs)
        if rng.random() < .7: th.append([["sleep", rng.choice([2, 20])], ["releaseN", rng.randint(2, 9)]])
        out.append(dict(init=[["make", rng.choice([0, 0, 1, 2, 3, -1])]], threads=th, final=[["available"]]))
    return out


def plans(k, thorough):
    return ["dfs 2 %d 0" % (4000 if thorough else 250), "dfs 1 %d 1" % (1000 if thorough else 60), "rnd %d %d 0.05" % (3000 if thorough else 150, k)]


def main():
    return conccheck.check("C09", "Semaphore", "semaphore.cpp", scenarios, plans, mcs=[("SemaphoreDesign", "SemaphoreDesign.cfg")],
                           assumptions=["schedules are sequentially consistent interleavings (no weak-memory reorderings)", "condition variables may wake up spuriously and time may pass at any point"])
