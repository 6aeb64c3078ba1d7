"""The scanning algorithm is specified as a state machine and model-checked: for every text up to length 6 over {space, newline,
letter} and widths 1..4 its result satisfies the declarative relation Allowed (the property). The real function is then run on all
texts up to length 7 over that alphabet with widths 0..5 and on seeded random longer texts; TLC decides Allowed for every result."""
import itertools
from vf.core import LADDER, hx


def gen(ctx):
    rng = ctx.rng
    cmds = []
    for k in range(0, ctx.pick(8, 10)):
        for x in itertools.product(b" \na", repeat=k):
            ws = [0, 1, 2, 3, 4, 5] if k <= 6 else [1, 2, 3, 4]
            for w in ws:
                cmds.append(f"wrap {hx(bytes(x))} {w}")
    for _ in range(ctx.pick(3000, 60000)):
        n = rng.choice([10, 20, 40, 70])
        p = rng.choice([b"aaa ", b"aaaaa  \n", b"a ", b"aaaaaaaaa \n", b"ab\t\xff\r ", b"a      "])
        t = bytes(rng.choice(p) for _ in range(rng.randrange(n)))
        cmds.append(f"wrap {hx(t)} {rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 15, 20, 1000, len(t), len(t) + 1, max(0, len(t) - 1), 4294967295])}")
    for _ in range(ctx.pick(5, 40)):
        t = bytes(rng.choice(b"aaaaa  \n") for _ in range(300))
        cmds.append(f"wrap {hx(t)} {rng.choice([5, 20, 40, 80])}")
    for w in [x for x in LADDER if x > 3]:
        for t in (f"61*{w - 1}+20+62*5", f"61*{w}+20+62*5", f"61*{w + 1}+20+62*5", f"61*{w}+0a+62*5", f"61*{w - 2}+20+62+20+63", f"61*{w - 2}+20+6263", f"20*{w}+61", f"61+20*{w}+61",
                  f"61*{2 * w + 1}", f"6120*{w}", f"0a*{w}+61", f"61*{w - 1}+20*2+61*{w}", f"61*{w}+20*3"):
            if rng.random() < ctx.pick(.5, 1):
                cmds.append(f"wrap {t} {w}")
    # beyond what 8 and 16 bits can count
    cmds += ["wrap 61*65536+20+62*5 65535", "wrap 61*65536+20+62*5 65536", "wrap 61*65537+20+62*5 65541", "wrap 61*65530+20+61*20 65540", "wrap 61*66000+0a+61*66000 66000",
             "wrap 20*66000+61 65536", "wrap 6120*40000 65537", "wrap 61*300+20+61*300 256", "wrap 61*255+20+61 256", "wrap 61*66000 2147483648", "wrap 61*3+20+61*66000+20+62 65536"]
    return [cmds[i:i + 20] for i in range(0, len(cmds), 20)]


def run(ctx):
    m = ctx.mc_async("WordWrapMC")
    exes = ctx.build("strings")
    ctx.conform(exes, gen(ctx), "WordWrapTrace", locale=True)
    m.result()
