"""TLC checks the piecewise stepping of iterators (all counts up to 9, largest differences 1 to 4: every piece keeps position plus rest,
the end is reached) and the entry by entry flipping of every map of up to 4 keys. The real helpers run on iterators whose difference
type has 8, 16, 32 and 64 bits with counts up to 2^64-1, on every start and end in the standard containers, spans, pointers and reverse
iterators, on sequences, sets, arrays, texts and (unordered) maps with duplicate values and custom orders and hashes; every returned
position, truth value and map is validated by TLC."""
from vf.core import LADDER


def gen(ctx):
    rng = ctx.rng
    steps = []
    tops = {"r8": 127, "b8": 127, "f8": 127, "r16": 32767, "b16": 32767, "r32": 2 ** 31 - 1, "r64": 2 ** 63 - 1, "b64": 2 ** 63 - 1,
            "f64": 2 ** 63 - 1}
    limit = {"r8": 10 ** 6, "b8": 20000, "f8": 20000, "r16": 2 ** 34, "b16": 10 ** 6, "r32": 2 ** 52, "r64": 2 ** 64 - 1, "b64": 20000,
             "f64": 20000}
    for k, top in tops.items():
        ns = set()
        for m in (0, 1, 2, 3, 4, 5, 10, 100):
            ns |= {max(0, m * top + d) for d in (-2, -1, 0, 1, 2)}
        ns |= {2 ** i + d for i in range(0, 64) for d in (-1, 0, 1)}
        ns |= {rng.randrange(limit[k] + 1) for _ in range(ctx.pick(20, 300))} | {rng.randrange(1000) for _ in range(ctx.pick(20, 300))}
        ns |= {limit[k]}
        for n in sorted(ns):
            if n <= limit[k]:
                for d in "np" if k[0] != "f" else "n":
                    steps.append(f"step {k} {d} {rng.choice([0, 1, 77, 2 ** 32, rng.randrange(2 ** 62)])} {n}")
    for size in list(range(ctx.pick(8, 14))) + [129, 300]:
        for a in range(size + 1) if size < 20 else (0, 1, 128, size):
            for b in range(a, size + 1) if size < 20 else (a, size):
                if a > size or b > size:
                    continue
                steps.append(f"walk n {size} {a} {b}")
                steps.append(f"walk p {size} {b} {a}")
    for n in (0, 1, 2, 3, 10, 1000):
        steps.append(f"end {n}")
    steps.append("offsets")
    for _ in range(ctx.pick(400, 6000)):
        n = rng.choice([0, 0, 1, 1, 2, 3, 3, 8, 8, 20])
        top = rng.choice([2, 5, 30, 100])
        s = [rng.randrange(top) for _ in range(n)]
        x = rng.randrange(top) if not s or rng.random() < .4 else rng.choice([s[0], s[-1], rng.choice(s)])
        steps.append(" ".join(map(str, ["contains", x] + s)))
        neg = rng.random() < .3
        f = lambda v: v - top // 2 if neg else v
        m = {}
        for _ in range(n):
            m[f(rng.randrange(top))] = f(rng.randrange(rng.choice([1, 3, top])) )
        x = f(rng.randrange(top)) if not m or rng.random() < .4 else rng.choice(list(m))
        steps.append(" ".join(["map", str(x)] + [f"{a}:{b}" for a, b in m.items()]))
    for n in [x for x in LADDER if 10 < x <= ctx.pick(520, 2100)]:
        s = [rng.randrange(99) for _ in range(n)]
        for k in (0, n // 2, n - 1, n):
            steps.append(" ".join(map(str, ["contains", 99] + s[:k] + [99] * (k < n) + s[k + 1:])))
        m = dict(zip(rng.sample(range(3 * n), n), rng.sample(range(3 * n), n)))
        steps.append(" ".join(["map", str(rng.choice(list(m)))] + [f"{a}:{b}" for a, b in m.items()]))
    rng.shuffle(steps)
    return [steps[i:i + 40] for i in range(0, len(steps), 40)]


def run(ctx):
    m = ctx.mc_async("ContainersMC")
    exes = ctx.build("containers")
    ctx.conform(exes, gen(ctx), "ContainersTrace")
    m.result()
