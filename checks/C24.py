"""The meaning of pipelines is model-checked for its laws (grouping partitions, ordering permutes and sorts, filtering keeps order, all
pipelines of two steps defined) on all collections of up to 3 records; all pipelines of up to 3 steps on small collections and random
ones of up to 6 steps on collections of up to 40 records, and single steps on collections of up to 65,546, run in the real code on vectors, lists and deques, borrowed (constant or not) and
owned, and on collections of numbers, truth values, characters and of final classes and classes that cannot be copied, arrays, sets, maps and spans; TLC validates result and source of each. Records show when they were moved from."""

from vf.core import LADDER

REC = [("select", f) for f in ("inc", "half", "swap", "index", "position", "key")] + [("where", p) for p in ("even", "small", "all", "nothing")] \
    + [("group", f) for f in ("k", "kref", "v", "mod")] + [("order", f) for f in ("k", "v")]
GRP = [("select", f) for f in ("sum", "count", "first")] + [("where", p) for p in ("several", "odd_key", "all", "nothing")]


def pipelines(n, grouped=False):
    yield []
    if n:
        for s in GRP if grouped else REC:
            g = True if s[0] == "group" else False if s[0] == "select" else grouped
            for r in pipelines(n - 1, g):
                yield [s] + r


def src(rng, n, m):
    return "src " + " ".join(f"{rng.randrange(m)} {rng.randrange(m)}" for _ in range(n))


def gen(ctx):
    rng = ctx.rng
    cases = []
    # how: c constant reference, b reference, m temporary, o moved
    for p in pipelines(ctx.pick(3, 4)):
        n = rng.choice([0, 1, 2, 3, 4, 5])
        cases.append([src(rng, n, 4)] + [" ".join(s) for s in p] + [f"run {k} cbmo" for k in (rng.choice("vldvldijfsumbtanNpPbtanNpP") if len(p) > 2 else "vldijfsumbtanNpP")])
    for _ in range(ctx.pick(400, 15000)):
        n = rng.choice([0, 1, 2, 3, 5, 6])
        g, p = False, []
        orders = 0
        for _ in range(rng.randrange(1, 7)):
            s = rng.choice(GRP if g else REC)
            if s[0] == "order":
                orders += 1
                if orders > 1 and n > 4:
                    continue
            if s[1] == "nothing" and rng.random() < .7:
                continue
            g = True if s[0] == "group" else False if s[0] == "select" else g
            p.append(s)
        cases.append([src(rng, n, rng.choice([2, 4, 9]))] + [" ".join(s) for s in p] + [f"run {rng.choice('vldvldijfsumbtanNpPbtanNpP')} cbmo"])
    for _ in range(ctx.pick(100, 3000)):
        n = rng.choice([10, 17, 40])
        p = [rng.choice([s for s in REC if s[0] != "group" and s[0] != "order" and s[1] != "nothing"]) for _ in range(rng.randrange(3))]
        p += [rng.choice([s for s in REC if s[0] in ("order", "group")])]
        cases.append([src(rng, n, rng.choice([2, 10, 100]))] + [" ".join(s) for s in p] + [f"run {k} cbmo" for k in "vldijfunNpP"])
    # many records: more than numbers of 8 and of 16 bits can count
    for n in (255, 256, 257, 300, ctx.pick(400, 1000)):
        for p in pipelines(1):
            cases.append([f"fill {n} {rng.choice([2, 10, 1000])}"] + [" ".join(s) for s in p] + [f"run {rng.choice('vldijfsumbtanNpP')} {rng.choice(['cm', 'bo'])}"])
        for _ in range(3):
            g = [rng.choice([s for s in REC if s[0] == "group"]), rng.choice(GRP[:3])]
            cases.append([f"fill {n} {rng.choice([4, 1000])}"] + [" ".join(s) for s in g] + [f"run {rng.choice('vldijfsumbtanNpP')} bm"])
    for n in LADDER:
        if 4 < n < 255:
            for p in pipelines(1):
                if p:
                    q = [] if rng.random() < .5 else [rng.choice([s for s in REC if s[0] in ("select", "where") and s[1] != "nothing"])]
                    cases.append([f"fill {n} {rng.choice([2, 10, 1000])}"] + [" ".join(s) for s in q + p] + [f"run {rng.choice('vldijfsumbtanNpP')} {rng.choice(['cm', 'bo'])}"])
    for n in [65536 + 10] * ctx.pick(1, 2):
        for p in (("select", "position"), ("select", "index"), ("where", "even"), ("group", "mod")):
            for k in (rng.choice("vf"), rng.choice("ld"), rng.choice("ij")):
                cases.append([f"fill {n} 100000", " ".join(p), f"run {k} {rng.choice('cbmo')}"])
    return cases


def run(ctx):
    m = ctx.mc_async("LinqMC")
    exes = ctx.build("linq")
    ctx.conform(exes, gen(ctx), "LinqTrace")
    m.result()
