"""Emission is a model with a stack of nested emissions; callbacks that disconnect others, connect, emit or throw are explored
exhaustively for three callbacks and two nested emissions (order, completeness, never after disconnect). Its transitions and random
histories with up to 300 callbacks run on signals with value, reference and no arguments, callbacks taking, destroying or copying what
they get; TLC validates every call event. Whether a callback connected during an emission is called by it, and disconnecting the
running callback, are left unspecified (undocumented)."""


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(400, 20000)):
        n = rng.choice([3, 4, 6, 10, 40])
        c = [f"sig {rng.choice('vvrn')} {n}"]
        nxt = 1
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < .45:
                b = rng.choice(["plain", "plain", "conn", "emit", "throw", "many", f"d{rng.randrange(1, n + 1)}", f"d{rng.randrange(1, n + 1)}"])
                c.append(f"connect {rng.randrange(1, n + 1)} {b}")
            elif r < .65:
                c.append(f"disconnect {rng.randrange(1, n + 1)}")
            else:
                c.append(f"emit {rng.randrange(1, 60)}")
        cases.append(c)
    # many callbacks
    for n in (70, 130, 300, ctx.pick(300, 1000)):
        for k in range(3):
            c = [f"sig {rng.choice('vrn')} {n}"]
            ids = list(range(1, n + 1))
            rng.shuffle(ids)
            c += [f"connect {i} {'plain' if rng.random() < .9 else 'd' + str(rng.randrange(1, n + 1))}" for i in ids] + ["emit 1"]
            for _ in range(5):
                c += [f"disconnect {i}" for i in rng.sample(ids, rng.choice([1, n // 2, 5]))]
                c += ["emit 2"] + [f"connect {i} {rng.choice(['plain', 'throw'])}" for i in rng.sample(ids, 5)] + ["emit 3"]
            cases.append(c)
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "SignalMC")
    exes = ctx.build("signal")
    cases = g.result()
    k = len(cases)
    if ctx.quick:
        cases = ctx.rng.sample(cases, min(k, 2500))
    cases = cases + [[c[0].replace("sig v", "sig " + ctx.rng.choice("rn"))] + c[1:] for c in cases[::3]]
    ctx.extra["model_behaviours_total"] = k
    ctx.conform(exes, cases + gen(ctx), "SignalTrace")
