"""The specification's arithmetic of numbers of any size is model-checked against TLC's own for all pairs of small numbers. Signs and
second to sixth powers of border and random values of all eight integer types (every value whose power fits for the 8 and 16 bit types) and
of float, double and long double (exactly representable ones compared exactly, others up to rounding), angles of all magnitudes
converted there and back, constants, and the same in constant evaluation are recorded and compared by TLC with exact results (pi and
ln 2 to 35 and 30 digits)."""
import itertools

INT = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
       "u8": (0, 255), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1)}
MANT = {"f": 24, "d": 53, "l": 64}
EXP = {"f": 120, "d": 1000, "l": 16000}


def root(m, k):
    lo, hi = 0, 1 << 33
    while lo < hi:
        c = (lo + hi + 1) // 2
        if c ** k <= m:
            lo = c
        else:
            hi = c - 1
    return lo


def gen(ctx):
    rng = ctx.rng
    L = []
    for t, (lo, hi) in INT.items():
        vals = {lo, lo + 1, -1, 0, 1, 2, hi - 1, hi} | {rng.randrange(lo, hi + 1) for _ in range(ctx.pick(40, 400))} \
            | {rng.randrange(-300, 300) for _ in range(40)}
        L += [f"sign {t} {v}" for v in sorted(vals) if lo <= v <= hi]
        for k in range(2, 7):
            m = root(hi, k)  # greatest value whose power fits
            n = -m if lo < 0 else 0
            if m <= 300:
                vals = range(n, m + 1)
            else:
                vals = sorted({n, n + 1, m, m - 1, 0, 1, min(2, m)} | {rng.randrange(n, m + 1) for _ in range(ctx.pick(60, 1500))}
                              | {rng.randrange(max(n, -40), 40) for _ in range(30)})
            L += [f"pow {t} {v} {k}" for v in vals]
    for t, p in MANT.items():
        for _ in range(ctx.pick(400, 8000)):
            s = rng.choice("+-")
            k = rng.randrange(2, 7)
            e = rng.choice([0, -1, 1, rng.randrange(-20, 20), rng.randrange(-EXP[t] // 7 + 12, EXP[t] // 7 - 12)])
            m = rng.randrange(root(2 ** p - 1, k) + 1) if rng.random() < .6 else rng.randrange(2 ** min(p // k, 8))
            if abs(e + m.bit_length()) * k < EXP[t] and abs(e) * k < EXP[t]:  # neither too large nor too small for the type
                L.append(f"exact {t} {s} {m} {e} {k}")
            m = rng.randrange(1, 2 ** p) if rng.random() < .8 else rng.randrange(1, 2000)
            e = rng.randrange(-EXP[t] // 7, EXP[t] // 7) - m.bit_length()
            if abs((e + m.bit_length()) * k) < EXP[t]:
                L.append(f"pow {t} {s} {m} {e} {k}")
            L.append(f"sign {t} {s} {m} {rng.choice([0, e])}")
            for what in ("deg", "rad"):
                if rng.random() < .5:
                    m, e = rng.choice([1, 15, 30, 45, 60, 90, 180, 270, 360, 720, 359, rng.randrange(100000)]), rng.choice([0, 0, -1, -3])
                else:
                    m, e = rng.randrange(2 ** p), rng.randrange(-p - 20, 20)
                L.append(f"{what} {t} {s} {m} {e}")
        for what in ("deg", "rad", "sign"):
            L += [f"{what} {t} {s} 0 0" for s in "+-"]
        # the smallest and the greatest numbers
        for m, e in ((1, -EXP[t] - 20), (2 ** p - 1, EXP[t] - p), (2 ** p - 1, -EXP[t]), (1, EXP[t])):
            L += [f"sign {t} {s} {m} {e}" for s in "+-"]
    rng.shuffle(L)
    return [["constants"]] + [L[i:i + 100] for i in range(0, len(L), 100)]


def run(ctx):
    m = ctx.mc_async("ArithMC")
    exes = ctx.build("arith")
    ctx.conform(exes, gen(ctx), "ArithTrace")
    m.result()
