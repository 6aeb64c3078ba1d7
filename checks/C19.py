"""The stack algorithm of the traversal is model-checked against the definition of pre-order on every forest of up to 5 nodes. Every
question there is (all iterator steps, positions, comparisons, valid and invalid indices) is asked about every forest of up to 5 (7)
nodes and random ones up to 150 nodes, for vectors, lists and deques, mutable and constant, forward and reverse; TLC compares every
answer with the specification."""
from checks.treegen import *


def gen(ctx):
    rng = ctx.rng
    cases = []
    top = ctx.pick(4, 6)
    for n in range(top + 1):
        for f in shapes(n):
            for kind in ("vVldL" if n < top else rng.choice(["v", "V", "l", "d", "L"])):
                cases.append(queries(rng, f, kind))
    for f in rng.sample(shapes(top + 1), min(len(shapes(top + 1)), ctx.pick(30, 300))):
        cases.append(queries(rng, f, rng.choice("vVldL")))
    for _ in range(ctx.pick(60, 2500)):
        n, d = rng.choice([(10, 1), (60, 1), (60, .95), (20, .3), (50, .8), (150, .3), (150, 0), (150, .7), (300, 0), (300, .1), (100, 1)])
        f = rnd(rng, n, d)
        ps = list(paths(f))
        bad = bad_paths(f)
        c = [f"forest {rng.choice('vVldL')} {ftext(f)}", "walk"]
        for i in range(6):
            c.append(f"{rng.choice(['begin', 'end'])} {i}")
        for _ in range(100):
            i = rng.randrange(6)
            r = rng.random()
            if r < .5:
                c += [f"{rng.choice(['inc', 'dec'])} {i}"] * rng.choice([1, 1, 2, 7])
            elif r < .6:
                c.append(f"mk {i} {p2s(rng.choice(ps) if rng.random() < .8 else rng.choice(bad))}")
            elif r < .7:
                c.append(f"valid {p2s(rng.choice(ps) if rng.random() < .5 else rng.choice(bad))}")
            elif r < .75:
                c.append(f"acc {p2s(rng.choice(ps))}")
            elif r < .8:
                c.append(f"cp {i} {i ^ 1}")
            elif r < .95:
                c.append(f"cmp {i} {rng.randrange(6)}")
            else:
                c.append(f"{rng.choice(['begin', 'end'])} {i}")
        cases.append(c)
    rng.shuffle(cases)
    return cases


def run(ctx):
    m = ctx.mc_async("TreeMC")
    exes = ctx.build("tree")
    ctx.conform(exes, gen(ctx), "TreeTrace")
    m.result()
