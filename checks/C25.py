"""Windows are model-checked on all blocks of up to 3 elements out of 2 with two windows (never outside, windows of windows compose,
pointer containment exact, comparison a total order); all transitions are replayed on blocks of eight element types (also compared with equal elements of another type) in exactly sized
memory under sanitizers, with random chains of sub-spans, writes, positions up to the largest value, pointers around the window, windows of up to 2^33 elements (reserved memory), and all
conversions from and to containers and texts; TLC validates everything read through the span."""
from vf.core import LADDER, hx


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(300, 12000)):
        n = rng.choice([0, 1, 2, 3, 3, 4, 7, 20])
        m = rng.choice([1, 2, 9])
        kind = rng.choice("iibcqwhfd")
        low = -m if kind in "ihfd" and rng.random() < .5 else 0
        c = [f"mem {kind} " + " ".join("n" if x == 0 and kind in "fd" and rng.random() < .5 else str(x) for x in (rng.randrange(low, m + 1) for _ in range(n))), "conv"]
        S = lambda: rng.randrange(3)
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < .12:
                c.append(f"whole {S()}")
            elif r < .15:
                c.append(f"none {S()}")
            elif r < .2:
                c.append(f"cp {S()} {S()}")
            elif r < .4:
                o = rng.randrange(n + 1)
                c.append(rng.choice([f"rest {S()} {S()} {rng.choice([0, o, n])}", f"sub {S()} {S()} {rng.choice([0, 1, o])} {rng.randrange(n + 1)}"]))
            elif r < .55:
                c.append(f"q {S()}")
            elif r < .7:
                c.append(f"at {S()} {rng.choice([0, 1, n - 1 if n else 0, n, n + 1, rng.randrange(n + 2), 2**31, 2**32, 2**63, 2**64 - 1])}")
            elif r < .8:
                c.append(f"wr {S()} {rng.randrange(n + 1)} {rng.randrange(m + 1)} {rng.randrange(6)}")
            elif r < .9:
                c.append(f"ov {S()} {rng.choice([-1, 0, n - 1, n, n + 1, rng.randrange(-2, n + 3)])}")
            else:
                c.append(f"cmp {S()} {S()}")
        cases.append(c)
    # comparisons of all pairs of short sequences: one block holds both
    import itertools
    seqs = [s for k in range(4) for s in itertools.product((1, 2), repeat=k)]
    for kind in "ibcqhfd":
        if kind in "hfd":
            seqs = [s for k in range(3) for s in itertools.product((-1, 0, "n", 1) if kind in "fd" else (-1, 0, 1), repeat=k)]
        for a in seqs:
            c = []
            for b in seqs:
                c += [f"mem {kind} " + " ".join(map(str, a + b)), "whole 0", f"sub 1 0 {len(a)} {len(b)}", f"sub 0 0 0 {len(a)}", "cmp 0 1",
                      "cp 2 0", "cmp 2 1", "cmp 1 2"]
            cases.append(c)
    # longer ones which differ in one place, or in length
    for n in LADDER:
        if not 4 < n <= ctx.pick(1000, 5000):
            continue
        for kind in rng.sample("ibcqhfd", 2) if n > 70 else "ibcqhfd":
            a = [rng.randrange(100) for _ in range(n)]
            b = list(a)
            k = rng.choice([n - 1, n - 1, n - 2, n // 2, 0])
            b[k] += rng.choice([1, 20])
            d = rng.choice([-1, 0, 0, 1])
            if d > 0:
                b = a + [1]
            elif d < 0:
                b = a[:-1]
            cases.append([f"mem {kind} " + " ".join(map(str, a + b)), "whole 0", f"sub 1 0 {n} {len(b)}", f"sub 0 0 0 {n}", "cmp 0 1", "cmp 1 0", "q 0", f"at 0 {n - 1}",
                          f"at 0 {n}", f"wr 0 {n - 1} 3 {rng.randrange(6)}", f"ov 0 {n}", f"ov 0 {n - 1}", f"rest 2 0 {n - 1}", "q 2", f"sub 2 0 1 {n - 2}", "conv"])
    for n in LADDER:
        cases.append([f"text 41{'*' + str(n) if n > 1 else ''}" if n else "text -", f"text {hx(bytes(rng.randrange(1, 256) for _ in range(min(n, 300))))}"])
    # big values: comparison of elements as their type has it
    cases.append(["mem b 200 100", "whole 0", "sub 1 0 0 1", "sub 0 0 1 1", "cmp 0 1", "cmp 1 0", "q 0", "q 1"])
    # more than fits into memory, around the borders of the integer types
    for _ in range(ctx.pick(40, 400)):
        kind = rng.choice("bciw")
        n = rng.choice([2**15, 2**16, 2**31, 2**31, 2**32, 2**32, 2**33]) + rng.choice([-1, 0, 1, rng.randrange(1000)])
        o = rng.choice([0, n, n - 1, n // 2, min(n, 2**31 - 1), min(n, 2**32 - 1), min(n, 2**32), rng.randrange(n)])
        c = rng.choice([0, n - o, (n - o) // 2, rng.randrange(n - o + 1)])
        cases.append([f"huge {kind} {n} {o} {c}"])
    for _ in range(ctx.pick(60, 2000)):
        n = rng.choice([0, 1, 2, 5, 15, 16, 40])
        t = bytes(rng.choice([0, 1, 65, 127, 128, 255]) if rng.random() < .3 else rng.randrange(1, 256) for _ in range(n))
        cases.append([f"text {hx(t)}"])
    cases.append(["text -", "text 00", "text 4100", "text 0041"])
    return cases


def run(ctx):
    exes = ctx.pool.submit(ctx.build, "span")
    m = ctx.mc_async("SpanMC")
    w = ctx.graph("SpanMC", ctx.pick("SpanReplayMC", "SpanMC"))
    ctx.extra["model_behaviours_total"] = len(w)
    if len(w) > ctx.pick(6000, 100000):
        w = ctx.rng.sample(w, ctx.pick(6000, 100000))
    for x in w:
        x[0] = x[0].replace("mem i", "mem " + ctx.rng.choice("iibcqw"))
    ctx.conform(exes.result(), w + gen(ctx), "SpanTrace")
    m.result()
