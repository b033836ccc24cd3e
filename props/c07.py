"""C07 ConcurrentHashMap."""
import conccheck
K2 = [1, 2]


def call(rng, m, keys, vals, weights):
    op = rng.choices(list(weights), list(weights.values()))[0]
    k, v = rng.choice(keys), rng.choice(vals)
    if op in ("put", "putIfAbsent", "getOrDefault", "removeKV", "replace"): return [op, m, k, v]
    if op == "replaceKV": return [op, m, k, v, rng.choice(vals)]
    if op in ("get", "containsKey", "find", "remove"): return [op, m, k]
    if op == "containsValue": return [op, m, v]
    if op == "forEach": return [op, m, rng.choice([1, 2, 99])]
    return [op, m]


ED = dict(put=5, putIfAbsent=4, remove=4, removeKV=3, replace=3, replaceKV=4, get=3, getOrDefault=1, containsKey=1, find=.5, clear=.6, containsValue=.5, forEach=.5, size=.5, isEmpty=.3, reinitialize=.2)
SEQ = dict(ED, iterate=1, copyOf=.5)
FIN = [["size", 1], ["forEach", 1, 99], ["iterate", 1]]


def fin(m): return [["size", m], ["isEmpty", m], ["forEach", m, 999], ["iterate", m], ["copyOf", m]]


def scenarios(rng, thorough):
    out = []
    one = [["put", 1, 5], ["putIfAbsent", 1, 6], ["remove", 1], ["removeKV", 1, 7], ["replace", 1, 8], ["replaceKV", 1, 7, 9], ["replaceKV", 1, 5, 4], ["get", 1], ["getOrDefault", 1, 3],
           ["containsKey", 1], ["find", 1], ["clear"], ["containsValue", 7], ["forEach", 99], ["size"], ["isEmpty"]]
    call_ = lambda m, c: [c[0], m] + c[1:]
    # every pair of calls on one key, which is there or not
    for i, a in enumerate(one):
        for b in one[i:]:
            for init in ([], [["put", 1, 7]]):
                m = 1 + len(out) % 3
                out.append(dict(init=[call_(m, c) for c in init], threads=[[call_(m, a)], [call_(m, b)]], final=[["get", m, 1]] + fin(m)))
    # two threads doing several calls, few keys
    for _ in range(700 if thorough else 160):
        m = rng.randint(1, 3)
        keys = rng.sample([0, 1, 2, 3, 17, 33], rng.randint(1, 3))
        th = [[call(rng, m, keys, [5, 6, 7], ED) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))]
        out.append(dict(init=[["put", m, k, 5] for k in keys if rng.random() < .5], threads=th, final=fin(m)))
    # the table is nearly full: elements move between buckets and the table grows
    for _ in range(500 if thorough else 110):
        m = rng.randint(1, 3)
        full = rng.sample(range(1, 60), rng.choice([12, 14, 15, 16, 17]) if rng.random() < .7 else rng.choice([29, 31, 32]))
        extra = [x for x in range(60, 90)]
        th = []
        for _ in range(rng.randint(2, 3)):
            cs = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .5: cs.append([rng.choice(["put", "putIfAbsent"]), m, extra.pop(rng.randrange(4)), rng.randint(1, 9)])
                else: cs.append(call(rng, m, rng.sample(full, 2), [5, 6], {x: w for x, w in ED.items() if x not in ("clear", "reinitialize")}))
            th.append(cs)
        out.append(dict(init=[["put", m, k, 5] for k in full], threads=th, final=fin(m)))
    # one thread: a finite map through and through
    for _ in range(600 if thorough else 150):
        m = rng.randint(1, 3)
        keys = rng.sample(range(-9, 90), rng.choice([2, 5, 40]))
        sc = [call(rng, m, keys, [0, 1, 2, 3], SEQ) for _ in range(rng.choice([20, 60]))]
        out.append(dict(init=[], threads=[[c for c in sc if c[0] != "forEach" or c[2] > 9 or len(keys) < 6]], final=fin(m)))
    return out


def plans(k, thorough):
    return ["dfs 2 %d 0" % (3000 if thorough else 120), "rnd %d %d 0" % (3000 if thorough else 160, k)]


def main():
    return conccheck.check("C07", "ConcMap", "concmap.cpp", scenarios, plans,
                           assumptions=["schedules are sequentially consistent interleavings of the compiled code's memory accesses",
                                        "the table starts with 16 places instead of 262144, so that it fills up and grows within a scenario",
                                        "size and isEmpty are only promised while no other call is under way"])
