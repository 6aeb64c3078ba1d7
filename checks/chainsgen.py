"""Histories of objects that own one another (spec Chains), for C17 (mode s) and C18 (mode u)."""
BOTH = ["make"] * 5 + ["linkmove"] * 5 + ["popmove"] * 4 + ["splicemove"] * 3 + ["take"] * 2 + ["move"] * 2 + ["swap", "cut", "drop"]
SHARED = ["link"] * 5 + ["pop"] * 4 + ["splice"] * 3 + ["assign"] * 4


def gen(ctx, mode):
    rng = ctx.rng
    cases = []
    ops = BOTH + (SHARED if mode == "s" else [])
    for _ in range(ctx.pick(600, 15000)):
        c = ["begin"]
        for _ in range(rng.randrange(6, 60)):
            op = rng.choice(ops)
            x, y = rng.randrange(4), rng.randrange(4)
            c.append(f"{op} {mode} {x} {y}" if op in ("linkmove", "take", "move", "swap", "link", "assign") else f"{op} {mode} {x}")
        cases.append(c)
    # a long chain, taken apart from its head and from its second element
    for n in (50, ctx.pick(150, 400)):
        c = ["begin", f"make {mode} 0"]
        for i in range(n):
            c += [f"make {mode} 1", f"linkmove {mode} 1 0", f"move {mode} 0 1"]
        for i in range(n):
            c.append(f"{rng.choice(['popmove', 'splicemove'] + (['pop', 'splice'] if mode == 's' else []))} {mode} 0")
        cases.append(c)
        cases.append(c[:3 * n + 2] + [f"cut {mode} 0"])
    for i in range(ctx.pick(30, 300)):
        cases.append(["begin", f"args {mode} {rng.randrange(-1000, 1000)} {rng.choice([0, 1, 5, 15, 16, 17, 100, 1000])}"])
    return cases


def conform(ctx, mode, cfg):
    g = ctx.pool.submit(ctx.graph, "ChainsMC", cfg)
    exes = ctx.build("chains")
    w = g.result()
    ctx.extra["chain_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 1500:
        w = ctx.rng.sample(w, 1500)
    ctx.conform(exes, w + gen(ctx, mode), "ChainsTrace")
