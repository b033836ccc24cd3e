"""C08 ConcurrentLinkedQueue."""
import conccheck


takers = set()


def fin(m, n): return [["size", m], ["isEmpty", m], ["pollMany", m, n], ["size", m], ["isEmpty", m], ["poll", m]]


def scenarios(rng, thorough):
    out = []
    # small: adders, takers and both
    for q in range(900 if thorough else 260):
        m, nxt = rng.randint(1, 3), [0]
        def val():
            nxt[0] += 1
            return 100 + nxt[0]
        def call():
            op = rng.choices(["add", "offer", "poll", "clear", "size", "isEmpty"], [4, 3, 5, .5, .5, .4])[0]
            return [op, m, val()] if op in ("add", "offer") else [op, m]
        role = lambda k: [[rng.choice(["add", "offer"]), m, val()] for _ in range(k)] if rng.random() < .35 else [["poll", m] for _ in range(k)] if rng.random() < .4 else [call() for _ in range(k)]
        init = [["add", m, val()] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        th = [role(rng.randint(1, 4)) for _ in range(rng.choice([2, 2, 3, 4]))]
        if not any(c[0] in ("add", "offer") for t in th for c in t) and not init: init = [["offer", m, val()]]
        out.append(dict(init=init, threads=th, final=fin(m, nxt[0] + 1)))
    # several takers and hardly anything to take
    for q in range(200 if thorough else 40):
        m, n = rng.randint(1, 3), rng.choice([1, 1, 2])
        k = rng.choice([2, 3, 3, 3, 4])
        th = [[["poll", m]] * rng.choice([1, 1, 2]) for _ in range(k)]
        if rng.random() < .3: th.append([["add", m, 50], ["add", m, 51]][:rng.randint(1, 2)])
        out.append(dict(init=[["add", m, 1 + i] for i in range(n)], threads=th, final=[["add", m, 90], ["poll", m]] + fin(m, 4), takers=True))
    # around the edges of the blocks of 32 elements
    for q in range(300 if thorough else 70):
        m = rng.randint(1, 3)
        n = rng.choice([29, 30, 31, 32, 33, 62, 63, 64, 65, 130])
        gone = rng.choice([0, 1, n - 2, n - 1, 31, 30])
        gone = max(0, min(n, gone))
        init = [["addMany", m, 1000, 1000 + n]] + ([["pollMany", m, gone]] if gone else [])
        nxt = [0]
        th = []
        for t in range(rng.choice([2, 3])):
            cs = []
            for _ in range(rng.randint(1, 3)):
                nxt[0] += 1
                cs.append(rng.choice([["add", m, nxt[0]], ["offer", m, nxt[0]], ["poll", m], ["poll", m]]))
            th.append(cs)
        if rng.random() < .3: th[0] = [["add", m, 500 + k] for k in range(33)]; th[1] = th[1][:2]
        out.append(dict(init=init, threads=th, final=fin(m, n + nxt[0] + 35)))
    # one thread: first in, first out
    for q in range(300 if thorough else 80):
        m, sc, k = rng.randint(1, 3), [], 0
        for _ in range(rng.choice([10, 40, 150])):
            op = rng.choices(["add", "offer", "poll", "clear", "size", "isEmpty", "addMany", "pollMany"], [4, 4, rng.choice([3, 8]), .2, 1, 1, .3, .3])[0]
            if op in ("add", "offer"): k += 1; sc.append([op, m, k])
            elif op == "addMany": n = rng.randint(1, 70); sc.append([op, m, k + 1, k + 1 + n]); k += n
            elif op == "pollMany": sc.append([op, m, rng.randint(1, 70)])
            else: sc.append([op, m])
        out.append(dict(init=[], threads=[sc], final=fin(m, 8)))
    takers.clear(); takers.update(k for k, x in enumerate(out) if x.get("takers"))
    return out


def plans(k, thorough):
    if k in takers:
        return ["dfs 2 %d 0" % (6000 if thorough else 500), "dfs 3 %d 0" % (6000 if thorough else 500), "rnd %d %d 0" % (6000 if thorough else 1200, k)]
    return ["dfs 2 %d 0" % (3000 if thorough else 120), "rnd %d %d 0" % (3000 if thorough else 200, k)]


def main():
    return conccheck.check("C08", "ConcQueue", "concqueue.cpp", scenarios, plans,
                           assumptions=["schedules are sequentially consistent interleavings of the compiled code's memory accesses",
                                        "a poll may report absence while another poll or clear is under way (documented by the underlying queue)"])
