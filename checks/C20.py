"""Edits through an iterator are model-checked on every forest of up to 3 nodes with two edits at every position (only the addressed
block changes, the returned position is the right one, also by the algorithm's own reasoning); all transitions of that graph and random
histories of up to 30 edits on vector, list and deque trees are replayed; forest and returned iterator after every edit are validated
by TLC, then iteration continues from there."""
from checks.treegen import *


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(300, 10000)):
        f = rnd(rng, rng.choice([0, 1, 2, 4, 8, 15]), rng.choice([0, .3, .8, 1]))
        c = [f"forest {rng.choice('vvld')} {ftext(f)}"]
        v = 100
        for _ in range(rng.randrange(5, 30)):
            i = rng.randrange(2)
            # place the iterator
            c.append(rng.choice([f"begin {i}", f"end {i}", f"mk {i} {p2s([rng.randrange(3) for _ in range(rng.randrange(1, 4))])}"]))
            c += [rng.choice([f"inc {i}", f"dec {i}"])] * rng.randrange(5)
            r = rng.random()
            sub = [rnd(rng, rng.choice([0, 0, 1, 3]), .5)]
            t = text(sub, [v])
            v += 10
            if r < .35:
                c.append(f"{rng.choice(['ins', 'insc', 'insa', 'insac'])} {i} {t}")
            elif r < .45:
                j = 1 - i
                c += [f"{rng.choice(['begin', 'end'])} {j}"] + [rng.choice([f"inc {j}", f"dec {j}"])] * rng.randrange(6)
                c.append(f"{rng.choice(['insn', 'insan'])} {i} {rng.choice([j, j, i])}")
            elif r < .55:
                c.append(f"set {i} {v}")
            else:
                c += [f"era {i}"] * rng.choice([1, 1, 2, 4])
            c += [rng.choice([f"inc {i}", f"dec {i}"]) for _ in range(rng.randrange(4))]
            if rng.random() < .2:
                c.append("walk")
        cases.append(c + ["walk"])
    # wide and deep ones, and such sub-trees put in
    wide, deep = [[] for _ in range(300)], []  # (trees in a trace are at most about 120 levels deep)
    for _ in range(80):
        deep = [deep]
    for _ in range(ctx.pick(40, 600)):
        size = rng.choice([15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300])
        f = rng.choice([lambda: wide[:size], lambda: deep if rng.random() < .5 else [deep, [], deep], lambda: [[], wide[:size], []], lambda: rnd(rng, size, 0), lambda: rnd(rng, min(size, 80), 1)])()
        ps = list(paths(f))
        c = [f"forest {rng.choice('vvld')} {ftext(f)}"]
        low = deep
        for _ in range(45):
            low = low[0]
        for k in range(rng.randrange(2, 7)):
            i = rng.randrange(2)
            p = rng.choice([ps[0], ps[-1], max(ps, key=len), (len(f) - 1,), (len(f) // 2,), rng.choice(ps)])
            c += [rng.choice([f"mk {i} {p2s(p)}", f"mk {i} {p2s(p)}", f"begin {i}", f"end {i}"])]
            c += [rng.choice([f"inc {i}", f"dec {i}"]) for _ in range(rng.randrange(3))]
            r = rng.random()
            if r < .5:
                t = text([rng.choice([[], [], wide[:rng.choice([20, 130, 300])], [low]])], [10000 + 1000 * k])
                low = []
                c.append(f"{rng.choice(['ins', 'insc', 'insa', 'insac'])} {i} {t}")
            else:
                c += [f"era {i}"] * rng.choice([1, 1, 3])
            c += [rng.choice([f"inc {i}", f"dec {i}"]) for _ in range(rng.randrange(4))]
        cases.append(c + ["walk"])
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "TreeMC", "TreeEditMC")
    m = ctx.mc_async("TreeMC")
    exes = ctx.build("tree")
    rng = ctx.rng
    w = g.result()
    ctx.extra["model_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 2500:
        w = rng.sample(w, 2500)
    for x in w:
        x[0] = x[0].replace("forest v", "forest " + rng.choice("vvld"))
    ctx.conform(exes, w + gen(ctx), "TreeTrace")
    m.result()
