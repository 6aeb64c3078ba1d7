"""A clock running through many wraps of a small tick count is model-checked: the count is the number of milliseconds modulo its range and
the difference of two counts is the elapsed time. The real function is called in a process whose clocks are set by the script: around
every border of milliseconds, seconds, halves and the 32 bit range (through 2,000 wraps), random times up to the year 2260, and random
walks of the clock, in which elapsed times are taken across wraps; TLC recomputes every count from the decimal digits of the time."""

W = 1 << 32  # milliseconds in one round


def gen(ctx):
    rng = ctx.rng
    out = []
    TOP = 9_000_000_000

    def at(ms, n=None):
        ms = max(0, min(ms, TOP * 1000))
        return f"clock {ms // 1000} {ms % 1000 * 1000000 + (rng.choice([0, 1, 499999, 500000, 999999]) if n is None else n)}"
    pts = [b + d for b in (0, 1000, 65536, 1 << 31, W) for d in range(-3, 4)]
    pts += [k * W + d for k in [2, 3, 10, 401, 2000] + [rng.randrange(2095) for _ in range(ctx.pick(60, 1000))] for d in (-1, 0, 1)]
    pts += [k << 16 for k in range(ctx.pick(50, 2000))]
    pts += [rng.randrange(TOP * 1000) for _ in range(ctx.pick(600, 30000))]
    pts += [(1_790_000_000 + rng.randrange(10**8)) * 1000 + rng.randrange(1000) for _ in range(ctx.pick(300, 5000))]
    L = []
    for p in pts:
        L += [at(p), "ticks"]
    out += [L[i:i + 100] for i in range(0, len(L), 100)]
    for ms in range(0, 1000, ctx.pick(5, 1)):
        out.append([c for n in (0, 999999) for c in (at(77_000_000_000 + ms, n), "ticks")])
    for _ in range(ctx.pick(80, 2000)):
        t = rng.choice([0, rng.randrange(10**13), rng.randrange(2000) * W - rng.randrange(1, 5000)])
        t = max(t, 0)
        c = [at(t), "ticks"]
        for _ in range(20):
            t += rng.choice([0, 1, 16, 1000, rng.randrange(5000), rng.randrange(W), W - 1, W // 2])
            c += [at(t), rng.choice(["elapsed", "elapsed", "ticks"])]
        out.append(c)
    return out


def run(ctx):
    m = ctx.mc_async("TicksMC")
    exes = ctx.build("ticks")
    ctx.conform(exes, gen(ctx), "TicksTrace")
    m.result()
