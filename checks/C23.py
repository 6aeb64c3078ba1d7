"""The library's three-way quick sort, as a recursive algorithm, is model-checked against the specification for all sequences of up to 5
keys out of 4 and five orderings, its recursion being logarithmically deep. All short sequences and random, sorted, reversed, equal, saw-toothed and organ-pipe ranges of up to
70000 elements are sorted by the real code in both language standards, in vectors, deques, strings and vectors of truth values, forwards and through reverse iterators, in
whole and in part, also on a small stack, and about 60 arrays in constant evaluation; TLC validates every result as an ordered permutation."""
import itertools

from vf.core import LADDER


SIZES = [n for n in LADDER if 6 < n < 300]


def gen(ctx):
    rng = ctx.rng
    cases = [["constants"]]
    C = lambda: rng.choice("vvhhddbs")
    H = lambda: rng.choice("fpr")
    # all sequences over three keys
    for n in range(ctx.pick(6, 8)):
        batch = [f"sort {C()} {H()} {rng.randrange(5)} 0 {n} " + " ".join(map(str, s)) for s in itertools.product((1, 2, 13), repeat=n)]
        cases += [batch[i:i + 50] for i in range(0, len(batch), 50)]
    # all permutations
    for n in (5, 6) if ctx.quick else (5, 6, 7):
        batch = [f"sort {C()} {H()} {rng.randrange(4)} 0 {n} " + " ".join(map(str, s)) for s in itertools.permutations(range(n))]
        cases += [batch[i:i + 50] for i in range(0, len(batch), 50)]
    for _ in range(ctx.pick(300, 8000)):
        c = []
        for _ in range(5):
            n = rng.choice([rng.randrange(7, 70), rng.choice(SIZES)])
            if rng.random() < .03:
                n = rng.choice([300, 500, 511, 512, 513, 1000, 1023, 1024, 1025])
            k = rng.randrange(8)
            m = rng.choice([2, 3, 10, 50, 100000])
            if k < 3:
                s = [rng.randrange(m) for _ in range(n)]
            elif k == 3:
                s = sorted(rng.randrange(m) for _ in range(n))
            elif k == 4:
                s = sorted((rng.randrange(m) for _ in range(n)), reverse=True)
            elif k == 5:
                s = [i % max(1, m // 2) for i in range(n)]
            elif k == 6:
                s = [min(i, n - i) for i in range(n)]
            else:
                s = sorted(rng.randrange(m) for _ in range(n))
                i, j = rng.randrange(n), rng.randrange(n)
                s[i], s[j] = s[j], s[i]
            a, b = (0, n) if rng.random() < .6 else sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
            c.append(f"sort {C()} {H()} {rng.randrange(5)} {a} {b} " + " ".join(map(str, s)))
        cases.append(c)
    for n in list(range(7, 71)) + [n for n in LADDER if 70 < n]:
        s = [rng.randrange(rng.choice([3, n, 100000])) for _ in range(n)]
        cases.append([f"sort {C()} {H()} {rng.choice([0, 1, 3])} 0 {n} " + " ".join(map(str, s)),
                      f"sort {C()} {H()} {rng.choice([0, 1, 3])} 1 {n - 1} " + " ".join(map(str, s))])
    # long ones
    for n in (300, 1000, 4096, 40000, 70000) + ctx.pick((), (200000, 500000)):
        for k in range(3):
            m = (3, 1000, 10 ** 6)[k]
            s = [rng.randrange(m) for _ in range(n)]
            if k == 0:  # few repeated keys only: time grows with the number of different keys below
                s = [x * 100000 + rng.randrange(100) for x in s]
            if k == 1:
                s = sorted(s)
                s = [s[(i * 7919) % n] for i in range(n)]
            a, b = (0, n) if k else (n // 9, n - n // 7)
            cases.append([f"sort {C()} {H()} {rng.choice([0, 1, 3])} {a} {b} " + " ".join(map(str, s))])
    # orders in which every choice of a pivot is a bad one, and others, on a small stack
    for n in (1000, 6001) + ctx.pick((), (15000,)):
        for s in ([min(i, n - i) for i in range(n)], [max(i, n - i) for i in range(n)], list(range(n)), [n - i for i in range(n)], [5] * n):
            cases.append(["small", f"sort {C()} {H()} {rng.choice([0, 1, 3])} 0 {n} " + " ".join(map(str, s))])
    return cases


def run(ctx):
    m = ctx.mc_async("SortMC")
    exes = ctx.build("sort")
    ctx.conform(exes, gen(ctx), "SortTrace")
    m.result()
