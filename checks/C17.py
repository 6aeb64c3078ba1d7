"""Owners of objects are model-checked against incrementally kept counts (destroyed exactly once, when the last owner goes); the
model's transitions and random histories over ten classes of references (const, derived, multiple and virtual inheritance, objects
that give out references to themselves), shared and weak pointers are replayed; after every step the holder table, use counts and
destructions are validated by TLC. Objects that own one another (a second model: slots inside of objects, reference counts against
reachability) are built and taken apart by random and model-generated histories. Sanitizers watch for use after free."""
from checks import chainsgen

R = ["r.base", "r.cbase", "r.d1", "r.other", "r.multi", "r.sha", "r.shb", "r.shab", "r.es", "r.ces"]
P = ["p.base", "p.cbase", "p.shab", "p.sha", "p.es", "p.ces"]
W = ["w.base", "w.cbase", "w.shab", "w.shb", "w.es", "w.ces"]
FAM = [["r.base", "r.cbase", "r.d1", "r.multi", "r.other", "p.base", "p.cbase", "w.base", "w.cbase"],
       ["r.sha", "r.shb", "r.shab", "p.shab", "p.sha", "w.shab", "w.shb", "r.base"],
       ["r.es", "r.ces", "p.es", "p.ces", "w.es", "w.ces", "r.sha"]]


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(1200, 25000)):
        fam = rng.choice(FAM)
        refs = [h for h in fam if h[0] == "r"]
        c = ["begin"]
        k = rng.choice([1, 2, 3])
        s = lambda x: f"{rng.choice(x)} {rng.randrange(k)}"
        for _ in range(rng.randrange(6, 50)):
            r = rng.random()
            if r < .25:
                c.append(f"make {s(refs)}")
            elif r < .6:
                c.append(f"{rng.choice(['assign', 'assign2', 'fromobj'])} {s(fam)} {s(fam)}")
            elif r < .7:
                h = rng.choice(refs)
                c.append(f"{rng.choice(['move', 'move2'])} {h} {rng.randrange(k)} {h} {rng.randrange(k)}")
            elif r < .82:
                c.append(f"cast {s(refs)} {s(refs)}")
            elif r < .88:
                h = rng.choice(refs)
                c.append(f"compare {h} {rng.randrange(k)} {h} {rng.randrange(k)}")
            else:
                c.append(f"drop {s(fam)}")
        cases.append(c)
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "SharedRefMC")
    exes = ctx.build("shared")
    w = g.result()
    ctx.extra["model_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 2500:
        w = ctx.rng.sample(w, 2500)
    ctx.conform(exes, w + gen(ctx), "SharedRefTrace")
    chainsgen.conform(ctx, "s", "ChainsSharedMC")
