"""Laws of the answers are model-checked for all types of up to five layers, all short lists of types and all sizes. The real answers are
recorded for several thousand types generated at compile time in both language standards (all variants of up to three out of seven
types and long ones, types layered from const, volatile, pointers and references, specializations of eleven templates, enumerations,
visitors for all subsets tried, in both orders of the generic function) and compared by TLC with the specification; histories of owning
and destroying objects through their base, covering all transitions of the model, are replayed."""


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "TypesMC")
    configs = ["dbg17", "rel20"] if ctx.quick else ctx.configs()
    exes = ctx.build("types", configs)
    walks = [w for w in g.result() if w and any(c.startswith("own") for c in w)]
    for _ in range(ctx.pick(50, 1000)):
        c = []
        for _ in range(40):
            i = ctx.rng.randrange(1, 12)
            c.append(ctx.rng.choice([f"own {i} {ctx.rng.choice(['plain', 'second', 'virtual'])}"] * 3 + [f"destroy {i}"] * 2 + ["clear"]))
        walks.append(c)
    ctx.conform(exes, [["facts"]] + walks, "TypesTrace")
