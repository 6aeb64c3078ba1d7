"""Trim and prefix/suffix laws are model-checked on all texts up to length 5 with all second texts up to length 2; all pairs over
{a, b} up to length 6/4, texts with every character code at the ends, and seeded random texts are run in C++17 and C++20 builds
through every overload and each result (position inside the original, booleans) is validated by TLC."""
import itertools
from vf.core import LADDER, hx


def gen(ctx):
    rng = ctx.rng
    cmds = []
    words = [bytes(x) for k in range(0, 7) for x in itertools.product(b"ab", repeat=k)]
    sub = [w for w in words if len(w) <= 4]
    for t in words:
        for o in sub:
            cmds.append(f"fix {hx(t)} {hx(o)}")
    for k in range(0, ctx.pick(6, 8)):
        for x in itertools.product([32, 10, 97, 9], repeat=k):
            cmds.append(f"trim {hx(bytes(x))}")
    for c in range(256):
        for t in (bytes([c]), bytes([c, c]), bytes([c, 97, c]), bytes([32, c, 32]), bytes([c, 32, 97, 32, c]), bytes([97, c, 98])):
            cmds.append(f"trim {hx(t)}")
        cmds.append(f"fix {hx(bytes([c, 97, c]))} {hx(bytes([c]))}")
    for _ in range(ctx.pick(4000, 100000)):
        a = rng.choice([b"ab", b"a", bytes(range(256)), b"abc\0"])
        t = bytes(rng.choice(a) for _ in range(rng.randrange(30)))
        q = rng.randrange(5)
        if q == 0:
            o = t[:rng.randrange(len(t) + 1)]
        elif q == 1:
            o = t[rng.randrange(len(t) + 1):]
        elif q == 2:
            o = (t[rng.randrange(len(t) + 1):] + b"x")[-rng.randrange(1, 6):]
        elif q == 3:
            o = t + t[-2:]
        else:
            o = bytes(rng.choice(a) for _ in range(rng.randrange(6)))
        cmds.append(f"fix {hx(t)} {hx(o)}")
        ws = b" \t\n\r\v\f"
        core = bytes(rng.choice(b"ab \n\t\xa0\x85\0") for _ in range(rng.randrange(8)))
        cmds.append(f"trim {hx(bytes(rng.choice(ws) for _ in range(rng.randrange(5))) + core + bytes(rng.choice(ws) for _ in range(rng.randrange(5))))}")
    for _ in range(ctx.pick(300, 5000)):
        a = rng.choice([[32, 97], [32, 9, 10, 11, 12, 13, 97, 0], [32, 0x120, 0x4e20, 0x10020, 0x10a, 0x109], [32, 0x4e2d]])
        cmds.append("wtrim " + " ".join(str(rng.choice(a)) for _ in range(rng.randrange(9))))
    for n in [x for x in LADDER if x]:
        cmds += [f"trim 20*{n}+61+0a*{n}", f"trim 61*{n}", f"trim 09*{n}", f"trim 20+61*{n}+20", f"fix 61*{n} 61*{n}", f"fix 61*{n} 61*{n + 1}", f"fix 61*{n}+62 61*{n}", f"fix 62+61*{n} 61*{n}",
                 f"fix 61*{n}+62 61*{n}+63", f"fix 62+61*{n} 63+61*{n}", f"fix 6162*{n} 6162", f"fix 6162*{n}+61 62+61"]
    cmds += ["trim 20*65537+61+09*65536", "trim 61*70000", "trim 0a*70000", "fix 61*65537 61*65536", "fix 61*65536 61*65537", "fix 62+61*65536 61*65536", "fix 61*65536+62 61*65536",
             "fix 61*70000+62 61+62", "fix 61*65536+62+61*65536 61*65536+62", "fix 62+61*65536+62 61*65536+62"]
    return [cmds[i:i + 20] for i in range(0, len(cmds), 20)]


def run(ctx):
    m = ctx.mc_async("StringsMC")
    exes = ctx.build("strings")
    ctx.conform(exes, gen(ctx), "StringsTrace", locale=True)
    m.result()
