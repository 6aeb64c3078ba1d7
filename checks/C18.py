"""Ownership is a model in which an object has one owner and moves between holders; it is model-checked for four objects (exclusive,
destroyed exactly once, when dropped or overwritten). Its transitions and random histories over references of five types (const,
derived, second base) and unique pointers are replayed; owners and destructions after every step are validated by TLC. Objects that own
one another (a second model, with slots inside of objects) are built and taken apart by random and model-generated histories."""
from checks import chainsgen

U = ["u.base", "u.cbase", "u.d1", "u.other", "u.multi"]
P = ["p.base", "p.cbase", "p.other"]


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(1500, 30000)):
        c = ["begin"]
        k = rng.choice([1, 2, 3])
        s = lambda x: f"{rng.choice(x)} {rng.randrange(k)}"
        for _ in range(rng.randrange(6, 50)):
            r = rng.random()
            if r < .3:
                c.append(f"make {s(U)}")
            elif r < .75:
                c.append(f"{rng.choice(['move', 'move2'])} {s(U + P)} {s(U + P)}")
            elif r < .87:
                h = rng.choice(U)
                c.append(f"compare {h} {rng.randrange(k)} {h} {rng.randrange(k)}")
            else:
                c.append(f"drop {s(U + P)}")
        cases.append(c)
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "UniqueRefMC")
    exes = ctx.build("unique")
    w = g.result()
    ctx.extra["model_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 2500:
        w = ctx.rng.sample(w, 2500)
    ctx.conform(exes, w + gen(ctx), "UniqueRefTrace")
    chainsgen.conform(ctx, "u", "ChainsUniqueMC")
