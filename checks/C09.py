"""Digit arithmetic on 16 bit limbs is model-checked to be an inverse pair (all values of 4 and 8 bit types, limits of the others, all
bases, several followers). Real conversions are run for all values of the 8 bit types (16 bit in the thorough tier), limits +-2 and
powers of all types in all bases, and for texts with prefixes, signs, whitespace, junk and out-of-range digit strings; every event
is validated by TLC. Texts like 08 (no valid octal number) are left unspecified."""
from vf.core import LADDER, hx

T = {"i8": (True, 8), "u8": (False, 8), "i16": (True, 16), "u16": (False, 16), "i32": (True, 32), "u32": (False, 32),
     "i64": (True, 64), "u64": (False, 64), "ll": (True, 64), "ull": (False, 64), "c": (True, 8)}


def lim(ty):
    s, b = T[ty]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


def text(v, base, signed):
    d = {2: "b", 8: "o", 10: "d", 16: "x"}[base]
    p = "" if signed or base == 10 else {2: "0b", 8: "0", 16: "0x"}[base]
    return p + format(v, d) if v >= 0 else "-" + format(-v, d)


def gen(ctx):
    rng = ctx.rng
    cmds = []
    follow = ["", " ", ",", "x", "-", "g", "z1", ".", "\n7", "\x00", "\xff", "+", "e5", ":", "/", "@", "G", "`", "B", "X"]
    for ty, (sg, bits) in T.items():
        lo, hi = lim(ty)
        vs = set(range(lo, hi + 1)) if bits == 8 else set()
        if bits == 16 and not ctx.quick:
            vs = set(range(lo, hi + 1))
        for x in (lo, hi, 0, hi // 2, hi // 10):
            vs |= {x + d for d in range(-3, 4)}
        for b in range(bits):
            vs |= {(1 << b) + d for d in (-1, 0, 1)} | {-(1 << b) + d for d in (-1, 0, 1)}
        for k in range(20):
            vs |= {10**k, 10**k - 1, -10**k, 8**k, 8**k - 1}
        for _ in range(ctx.pick(40, 1500)):
            v = rng.getrandbits(rng.randrange(1, bits + 1))
            vs |= {v, -v}
        vs = sorted(v for v in vs if lo <= v <= hi)
        for v in vs:
            for base in (2, 8, 10, 16):
                if bits == 8 or rng.random() < ctx.pick(.6, 1):
                    cmds.append(f"tostr {ty} {base} {v}")
                if base == 10 or not sg:
                    t = text(v, base, sg)
                    if rng.random() < .3:
                        t = t.upper().replace("0X", "0x").replace("0B", "0b") if base == 16 else t
                    pre = rng.choice(["", "", " ", "\t\n ", "\v\f\r"])
                    cmds.append(f"readnum {ty} {hx(pre + t + rng.choice(follow))}")
        # out of range, leading zeros, prefixes followed by junk
        big = [hi + 1, hi + 2, lo - 1, hi * 10, hi * 10 + 9, hi * 16, 1 << bits, (1 << bits) + 1, 1 << 64, (1 << 64) + 5, 10**30, -10**30, lo * 10, (1 << 128) + 3]
        for v in big:
            for base in (2, 8, 10, 16):
                if base == 10 or (not sg and v >= 0):
                    for f in ("", " ", "z", ",5"):
                        cmds.append(f"readnum {ty} {hx(text(v, base, sg) + f)}")
        for t in ["", " ", "-", "--1", "- 1", "+1", "a", "x10", ".5", "0", "00", "000", "0 ", "0x", "0xg", "0x ", "0b", "0b2", "0b ", "0xG", "0X1F", "0B1",
                  "0b12", "0b102", "0778", "0777", "07a", "01", "0019", "1a", "1x", "12,3", "0,", "0-", "0.5", "\t\t-7", "-0", "-00", "-01", "-007 ", "00x1", "0x0x1",
                  "0b0b1", "0xabcDEF", "0xfffffffffffffffff", "017", "0b1111", "0x7f", "-0x1", "\xa05", "\x005", "5\x00", "0\x80", "0\xff", "0a", "0f", "0xx", "0bb", "0bx1", "0xb1", "0/1", "0:1", "0x:1", "0x/1", "0x@1", "0x`1"]:
            cmds.append(f"readnum {ty} {hx(t)}")
        for _ in range(ctx.pick(150, 5000)):
            t = "".join(rng.choice("0123456789abcdefxX-+ ,b.\n") for _ in range(rng.randrange(1, 12)))
            cmds.append(f"readnum {ty} {hx(t)}")
        # long ones
        for n in LADDER:
            if n > 3 and (n < 300 or rng.random() < .3):
                z = "0" * n
                for t in (" " * n + "12 ", z, z + "x", "-" + z + "7,", "1" * n + ",", "9" * n + "z", "-" + "9" * n, z + "17", "0x" + z + "1f", "0b" + z + "101", "0x" + "f" * n, "0b" + "1" * n + "2", "\t" * n):
                    if rng.random() < ctx.pick(.3, 1):
                        cmds.append(f"readnum {ty} {hx(t)}")
    cmds = list(dict.fromkeys(cmds))
    ctx.extra["conversions"] = len(cmds)
    return [cmds[i:i + 25] for i in range(0, len(cmds), 25)]


def run(ctx):
    m = ctx.mc_async("NumbersMC")
    exes = ctx.build("parser")
    ctx.conform(exes, gen(ctx), "NumbersTrace", locale=True)
    m.result()
