"""Random scripts over two object slots from a table of operations.

ops: name -> (weight, template).  Template letters: s slot, d other slot (any), v value, i index (mostly legal),
j index legal for insertion, n small count, l list of values.  delta(name, args, size) -> new size of slot s (approximate)."""


class Ctx:
    def __init__(self, rng, vals):
        self.rng, self.vals, self.size = rng, vals, [0, 0]

    def v(self): return self.rng.choice(self.vals)

    def l(self, k=5): return [self.v() for _ in range(self.rng.randint(0, k))]

    def idx(self, m, top=0, bad=.25):
        r = self.rng
        if r.random() < bad:
            return r.choice([0, m - 1, m, m + 1, -1, r.randint(-2, m + 2), 2147483647, -2147483648])
        return r.randrange(m + top) if m + top > 0 else 0


def scripts(rng, count, ops, vals, kinds, delta, length=(5, 60), custom=None, nvals=(1, 4), subset=.3, must=()):
    out = []
    for _ in range(count):
        c = Ctx(rng, rng.sample(vals, min(len(vals), rng.randint(*nvals))))
        names = list(ops) if rng.random() > subset else sorted(set(rng.sample(list(ops), min(len(ops), 8)) + list(must)))
        wts = [ops[x][0] for x in names]
        sc = [["new"] + list(rng.choice(kinds))]
        for _ in range(rng.randint(*length)):
            op = rng.choices(names, wts)[0]
            s = rng.randint(1, 2); m = c.size[s - 1]
            if custom and op in custom:
                a = custom[op](c, s, m)
                if a is None: continue
            else:
                a = []
                for t in ops[op][1]:
                    a.append(s if t == "s" else rng.randint(1, 2) if t == "d" else c.v() if t == "v" else c.idx(m) if t == "i"
                             else c.idx(m, 1) if t == "j" else rng.randint(1, m + 2) if t == "n" else c.l() if t == "l" else 1 / 0)
            sc.append([op] + a)
            r = delta(op, a, m, c)
            if r is not None: c.size[s - 1] = max(0, r)
        out.append(sc)
    return out


def overlapping(rng, alpha="ab"):
    """A text and a pattern with many borders, the text made of overlapping beginnings of the pattern."""
    r = lambda k: "".join(rng.choice(alpha) for _ in range(k))
    u, v = r(rng.randint(1, 3)), r(rng.randint(0, 2))
    pat = (u + v + u + r(1) + u + v + u + r(2))[:rng.randint(3, 14)]
    t = r(2)
    for _ in range(rng.randint(0, 3)):
        t += pat[:rng.randint(1, len(pat))]
        k = rng.randint(0, len(pat) - 1)
        while k and not t.endswith(pat[:k]): k -= 1
        t += pat[k:rng.randint(k, len(pat))]
    k = rng.randint(0, len(pat) - 1)
    while k and not t.endswith(pat[:k]): k -= 1
    t += pat[k:]
    if rng.random() < .3: t, pat = t[::-1], pat[::-1]
    return [ord(c) for c in t], [ord(c) for c in pat]
