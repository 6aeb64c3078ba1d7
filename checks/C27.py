"""Descriptions are model-checked for all chains of up to 6 levels of 3 kinds (one entry per level, outermost first, every level named).
All chains of up to 3 levels over 12 innermost and 9 nesting kinds (standard, user-defined, non-standard, both ways of nesting and types
that are themselves nested exceptions, also with nothing nested) and random ones of up to 12 and of 66 to 151 levels,
some of types with names of thousands of characters, with messages and indentations of any bytes, are thrown and
described by the real code; TLC validates every description against the recursive specification."""
import itertools
from vf.core import LADDER, hx

INNER = "rleisogcbnhp"
OUTER = "reogbnRLE"


def gen(ctx):
    rng = ctx.rng
    cases = [["none"]]

    def msg():
        n = rng.choice([0, 1, 3, 8, 30])
        if rng.random() < .7:
            return "".join(rng.choice("abc XYZ:-") for _ in range(n))
        return bytes(rng.choice([10, 9, 1, 58, 128, 255, rng.randrange(1, 256)]) for _ in range(n))

    def ind():
        return rng.choice([b"", b"", b"", b"- ", b"  ", b"\t", b"> > ", b"\n", bytes([rng.randrange(1, 256) for _ in range(3)]), b"\0"])

    def chain(kinds):
        return f"chain {hx(ind())} " + " ".join(f"{k}:{hx(msg())}" for k in kinds)
    batch = []
    for d in range(ctx.pick(3, 4)):
        for i in INNER:
            for o in itertools.product(OUTER, repeat=d):
                batch.append(chain((i,) + o))
    for _ in range(ctx.pick(300, 10000)):
        d = rng.choice([1, 2, 3, 4, 6, 11])
        # stacked exceptions below standard ones repeat their description, keep that from growing out of bounds
        batch.append(chain([rng.choice(INNER)] + [rng.choice(OUTER if rng.random() < .7 else "RLE") for _ in range(d)]))
    # deep ones
    for d in list(range(12, 40)) + [63, 64, 65, 99, 100, 127, 128, 129, ctx.pick(150, 600)]:
        for outer in ("r", "reogb", "o", "RLE") if d > 63 else ("r", "eogbRLE"):
            batch.append(chain([rng.choice(INNER)] + [rng.choice(outer) for _ in range(d)]))
    # very long names and messages
    for d in range(ctx.pick(2, 3)):
        for i in "mwx":
            for o in itertools.product("mwxMW", repeat=d):
                batch.append(chain((i,) + o))
    for n in LADDER[4:] + ctx.pick([], [70000]):
        for k in rng.sample(["r", "rR", "eE", "rr"], 2):
            batch.append(f"chain {hx(ind())} " + " ".join(f"{x}:{hx('m' * (n - 1) + 'e')}" for x in k))
    for n in LADDER:
        if n < 1100:
            batch.append(f"chain {hx('i' * n)} r:{hx('one')} {rng.choice('rRo')}:{hx('two')}")
    rng.shuffle(batch)
    cases += [batch[i:i + 10] for i in range(0, len(batch), 10)]
    return cases


def run(ctx):
    m = ctx.mc_async("ExceptionsMC")
    exes = ctx.build("exceptions")
    ctx.conform(exes, gen(ctx), "ExceptionsTrace")
    m.result()
