"""Encoder and decoder automaton are model-checked against each other over all strings of up to three boundary code points, and
all those behaviours are replayed. In addition every single code point 1..2^31-1 is encoded and decoded by an optimized build
and compared with the byte layout of the specification (the layout used is itself validated by TLC), and seeded random strings
are round-tripped through every overload in all builds, each event validated by TLC. Trusts the driver's comparison loop."""
CLS = [(1, 1, 0x7f, [(0, 0, 127)]), (2, 0x80, 0x7ff, None), (3, 0x800, 0xffff, None), (4, 0x10000, 0x1fffff, None),
       (5, 0x200000, 0x3ffffff, None), (6, 0x4000000, 0x7fffffff, None)]
LEAD = {1: (0, 127), 2: (192, 31), 3: (224, 15), 4: (240, 7), 5: (248, 3), 6: (252, 1)}
from vf.core import LADDER


def layout(n):
    return " ".join(f"{LEAD[n][0] if i == 0 else 128} {6*(n-1-i)} {LEAD[n][1] if i == 0 else 63}" for i in range(n))


def scans(step_of, parts):
    out = []
    for n, lo, hi, _ in CLS:
        k = parts if hi > 0x200000 else 1
        w = (hi - lo + 1) // k
        for i in range(k):
            a = lo + i * w
            b = hi if i == k - 1 else lo + (i + 1) * w - 1
            out.append([f"scan {a} {b} {step_of(n)} {n} {layout(n)}"])
    return out


def point(rng):
    n, lo, hi, _ = rng.choice(CLS)
    r = rng.random()
    if r < .15:
        return lo
    if r < .3:
        return hi
    if r < .45:
        return min(hi, max(lo, (1 << rng.randrange(1, 31)) + rng.choice([-1, 0, 1])))
    return rng.randint(lo, hi)


def gen(ctx):
    rng = ctx.rng
    cases = []
    for n, lo, hi, _ in CLS:
        for c in {lo, lo + 1, hi, hi - 1, *[1 << b for b in range(31) if lo <= 1 << b <= hi], *[(1 << b) - 1 for b in range(1, 32) if lo <= (1 << b) - 1 <= hi]}:
            cases.append([f"app {c}"])
    for _ in range(ctx.pick(3000, 60000)):
        k = rng.choice([1, 1, 2, 3, 5, 8])
        cases.append([f"app {' '.join(str(point(rng)) for _ in range(rng.randrange(1, 5)))}" for _ in range(k)])
    for ln in (50, 300, 1000):
        cases.append([f"app {' '.join(str(point(rng)) for _ in range(ln))}"])
    for ln in LADDER:
        if ln <= ctx.pick(1100, 5000):
            cases.append([f"app {' '.join(str(point(rng)) for _ in range(max(1, ln - 1)))}", f"app {point(rng)}", "app 65"])
            for c in (0x41, 0xe9, 0x20ac, 0x1f600):
                cases.append([f"rapp {max(1, ln)} {c}", f"app {point(rng)}"])
    # more than 16 bits can count
    cases += [["rapp 65537 97", "app 1114111"], ["rapp 22000 8364", "app 65"], ["rapp 4200 65 233 8364 128512 2097152 2147483647"]]
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "Utf8MC")
    exes = ctx.build("unicode")
    ctx.conform(exes, g.result() + gen(ctx), "Utf8Trace", what="strings")
    if ctx.violations:
        return
    fast = {c: e for c, e in exes.items() if c.startswith("rel")} if not ctx.quick else {"rel20": exes["rel20"]}
    ctx.conform(fast, scans(lambda n: 1, 64), "Utf8Trace", timeout=800, what="every code point")
    slow = {c: e for c, e in exes.items() if c not in fast}
    ctx.conform(slow, scans(lambda n: {1: 1, 2: 1, 3: 1, 4: 7, 5: 401, 6: 4001}[n], 8), "Utf8Trace", timeout=800, what="sampled code points")
    ctx.extra["code_points_enumerated"] = 2**31 - 1
