"""Forests and edit histories for the tree checks."""


def shapes(n):
    """all forests with n nodes, as nested lists"""
    if n == 0:
        return [[]]
    return [[c] + r for k in range(n) for c in shapes(k) for r in shapes(n - 1 - k)]


def text(f, nxt):
    out = []
    for c in f:
        v = nxt[0]
        nxt[0] += 1
        out.append(str(v) + (f"({text(c, nxt)})" if c else ""))
    return ",".join(out)


def ftext(f):
    return "[" + text(f, [1]) + "]"


def paths(f, pre=()):
    for i, c in enumerate(f):
        yield pre + (i,)
        yield from paths(c, pre + (i,))


def rnd(rng, n, deep):
    """random forest with n nodes"""
    root = []
    nodes = [root]
    for _ in range(n):
        p = nodes[-1] if rng.random() < deep else rng.choice(nodes)
        c = []
        p.insert(rng.randrange(len(p) + 1), c)
        nodes.append(c)
    return root


def p2s(p):
    return ".".join(map(str, p)) if p else "-"


def bad_paths(f):
    """paths just outside of the forest"""
    out = [(len(f),), (len(f) + 3,), (len(f), 0), (2**40,), (2**63,), (2**64 - 1,)]
    for p in paths(f):
        q = f
        for i in p:
            q = q[i]
        out += [p + (len(q),), p + (len(q) + 1, 0), p + (2**64 - 1,)]
    return out


def queries(rng, f, kind):
    """everything there is to ask about one forest"""
    ps = list(paths(f))
    n = len(ps)
    c = [f"forest {kind} {ftext(f)}", "walk"]
    for i in range(6):
        c += [f"begin {i}"] + [f"inc {i}"] * n + [f"dec {i}"] * n + [f"end {i}"]
    for p in ps:
        c += [f"valid {p2s(p)}", f"acc {p2s(p)}"] + [f"mk {i} {p2s(p)}" for i in range(4)] + ["inc 0", "dec 1", "inc 2", "dec 3"]
    for p in bad_paths(f):
        c += [f"valid {p2s(p)}"] + [f"mk {i} {p2s(p)}" for i in range(4)]
    c += ["valid -"] + [f"mk {i} -" for i in range(4)]
    for s in (0, 2):
        c.append(f"begin {s}")
        for a in range(n + 1):
            c.append(f"begin {s + 1}")
            for b in range(n + 1):
                c += [f"cmp {s} {s + 1}"] + ([f"inc {s + 1}"] if b < n else [])
            c += [f"inc {s}"] if a < n else []
        c += [f"cp {s + 1} {s}", f"dec {s + 1}", f"cmp {s} {s + 1}"]
    return c
