"""Nested guards, releases, calls of released actions and normal or exceptional exits of several scopes are model-checked for three
guards (once, never after release, nothing forgotten, reverse order); all transitions and random programs with up to 12 nested guards,
throwing actions, actions releasing other guards and exceptions in flight run on real guards; TLC validates the order of every event."""
from vf.core import LADDER


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(1500, 40000)):
        c = ["begin"]
        n = rng.choice([3, 5, 12])
        for _ in range(rng.randrange(4, 40)):
            r = rng.random()
            i = rng.randrange(1, n + 1)
            if r < .5:
                c.append(f"guard {i} {rng.choice(['log', 'log', 'throw', 'empty', 'rel', 'catch'])}")
            elif r < .65:
                c.append(f"{rng.choice(['release', 'release', 'reset'])} {i}")
            elif r < .75:
                c.append(f"call {i}")
            else:
                c.append(f"{rng.choice(['leave', 'throw'])} {rng.choice([1, 1, 2, 3, n])}")
        cases.append(c)
    # many guards
    for n in [x for x in LADDER if 20 < x <= ctx.pick(300, 1100)]:
        c = ["begin"] + [f"guard {i} {rng.choice(['log', 'log', 'log', 'throw', 'empty'])}" for i in range(1, n + 1)]
        c += [f"release {rng.randrange(1, n + 1)}" for _ in range(n // 10)] + [f"call {rng.randrange(1, n + 1)}" for _ in range(5)]
        cases.append(c + [f"{rng.choice(['leave', 'throw'])} {rng.choice([n // 2, n])}", f"leave {n}"])
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "ScopeExitMC")
    exes = ctx.build("scope")
    w = g.result()
    ctx.extra["model_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 4000:
        w = ctx.rng.sample(w, 4000)
    ctx.conform(exes, w + gen(ctx), "ScopeExitTrace")
