"""Nearest-value rounding is specified with arbitrary-size integers and model-checked in a toy format (exactly one nearest value, equal
to plain arithmetic). Real parses of all three types, through the parser and from_chars in every format, are validated by TLC:
powers of ten, hexadecimal text, halfway points between neighbours (exact, and nudged by a far digit), subnormals, limits, up to 800 digits, all
kinds of followers and non-numbers. Infinity, NaN, leading plus and out-of-range magnitudes are left unspecified."""
import struct
from fractions import Fraction
from decimal import Decimal, getcontext
from vf.core import LADDER, hx

getcontext().prec = 1200


def dec(fr):
    """exact decimal text of a dyadic rational"""
    d = Decimal(fr.numerator) / Decimal(fr.denominator)
    return d


def gen(ctx):
    rng = ctx.rng
    cmds = []
    follow = ["", "", " ", ",", "m", "e", "e+", "e-x", ".", "..", "E ", "\x00", "\xff", "x1", "f", "-1", "+"]

    def both(t, ty=None):
        for y in (ty,) if ty else "fdl":
            cmds.append(f"readfloat {y} {hx(t)}")

    def forms(d):
        """several spellings of a Decimal"""
        s, digits, e = d.as_tuple()
        ds = "".join(map(str, digits))
        sg = "-" if rng.random() < .3 else ""
        k = rng.randrange(len(ds) + 1)
        out = [sg + ds + "e" + str(e), sg + ds[:k] + "." + ds[k:] + rng.choice("eE") + ("+" if e + len(ds) - k >= 0 and rng.random() < .5 else "") + str(e + len(ds) - k)]
        if abs(e) < 400 and len(ds) < 820:
            out.append(sg + format(d, "f"))
        return [rng.choice(out)]
    for k in range(-324, 309):
        if not ctx.quick or k % 7 == 0 or -24 < k < 24:
            both(f"1e{k}", "d")
    for k in range(-46, 39):
        both(f"1e{k}", "f")
    for t in ["0", "-0", "0.0", ".0", "0.", "-0.", "0e5", "0e99999", "-0e-999999999999", "000000", "0000.00001", "00001.50", "1", "-1", "1.", "-.5", ".5", "5e-324",
              "4.9e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.7976931348623157e308", "1.7976931348623158e308", "1e400", "-1e400", "1e-400",
              "3.4028234e38", "3.4028235e38", "3.4028236e38", "1.4e-45", "1e-45", "9007199254740993", "9007199254740992", "9007199254740994", "16777217", "16777219", "0.1", "0.3", "123456789012345678901234567890"]:
        for f in ["", " ", "e", "x", "e+"]:
            both(t + f)
    for t in ["", " ", "-", "--1", "-e5", ".", "-.", "e5", ".e5", "abc", "x1", "- 1", "$", "\x001", "\xff1", ",1", "-,", "-.e1", "E", "  -", "\t.5", "\n -7.25e1 ", "..5", "1..5", "1.e5", "1.e+05z", "1e+", "1e-", "1e5.5", "1ee5", "1e5e5", "0x10", "-0x1p3", "1,5", "1'000"]:
        both(t)

    def halfway(ty):
        p, emin, emax = (24, -149, 104) if ty == "f" else (53, -1074, 971)
        lim = 40 if ctx.quick else 10**6
        e = rng.choice([rng.randrange(-60 - p, 40), rng.randrange(emin, emax + 1)]) if rng.random() < .8 else rng.choice([emin, emin + 1, emax, -p, -1, 0])
        e = max(emin, min(emax, e))
        m = rng.choice([rng.randrange(1 << p - 1, 1 << p), 1 << p - 1, (1 << p) - 1, (1 << p - 1) + 1, (1 << p) - 2])
        if e == emin:
            m = rng.choice([m, 1, 2, 3, rng.randrange(1, 1 << p)])
        v = Fraction(m) * Fraction(2) ** e
        h = Fraction(2 * m + 1) * Fraction(2) ** (e - 1)
        if m == (1 << p) - 1 and e == emax:
            h = v
        if m == 1 << p - 1 and e > emin and rng.random() < .5:
            h = Fraction(4 * m - 1) * Fraction(2) ** (e - 2)
        return v, h
    for ty in "fdl":
        for _ in range(ctx.pick(60, 4000)):
            v, h = halfway("f" if ty == "f" else "d")
            for x in (v, h):
                d = dec(x)
                if len(d.as_tuple().digits) > 790:
                    continue
                both(forms(d)[0] + rng.choice(follow), ty)
                n = rng.choice([1, 5, 30])
                s, digits, e = d.as_tuple()
                for up in (True, False):
                    if up:
                        dd = Decimal((0, digits + (0,) * n + (1,), e - n - 1))
                    else:
                        dd = d - Decimal((0, (1,), e - n - 1))
                    if dd > 0:
                        both(forms(dd)[0] + rng.choice(follow), ty)
        for _ in range(ctx.pick(120, 6000)):
            n = rng.choice([1, 2, 5, 9, 15, 16, 17, 18, 19, 20, 21, 25, 40, 100, 300, 770] if rng.random() < .2 or not ctx.quick else [1, 2, 5, 9, 15, 16, 17, 18, 19, 20, 21, 25])
            ds = tuple([rng.randrange(1, 10)] + [rng.randrange(10) for _ in range(n - 1)])
            mag = rng.choice([rng.randrange(-36, 37), rng.randrange(-15, 16), rng.randrange(-305, 306) if ty != "f" else rng.randrange(-40, 38)])
            both(forms(Decimal((0, ds, mag - n)))[0] + rng.choice(follow), ty)
        for _ in range(ctx.pick(300, 10000)):
            both("".join(rng.choice("0123456789012345678..-+eE  xn") for _ in range(rng.randrange(1, 14))), ty)
    # hexadecimal
    def hexforms(v):
        """a spelling of a dyadic rational"""
        m, e = v.numerator, -(v.denominator.bit_length() - 1)
        while m % 2 == 0 and m and rng.random() < .9:
            m //= 2
            e += 1
        m <<= (k := rng.randrange(5))
        e -= k
        ds = format(m, "x")
        ds = ds.upper() if rng.random() < .3 else ds
        k = rng.randrange(len(ds) + 1)
        x = e + 4 * (len(ds) - k)
        z = "0" * rng.choice([0, 0, 0, 1, 5, 17, 70])
        sg = "-" if rng.random() < .3 else ""
        if rng.random() < .5 or abs(e) > 3000:
            return sg + (z if k else "0") + ds[:k] + ("." if k < len(ds) or rng.random() < .3 else "") + ds[k:] + (z if rng.random() < .5 and k < len(ds) else "") + rng.choice("pP") + ("+" if x >= 0 and rng.random() < .5 else "") + str(x)
        return sg + z + ds + rng.choice("pP") + str(e)
    for ty in "fdl":
        for _ in range(ctx.pick(120, 4000)):
            v, h = halfway("f" if ty == "f" else "d")
            for x in (v, h, h + h / (1 << 90), h - h / (1 << 90)):
                both(hexforms(x) + rng.choice(follow + ["p", "p+", "p-x", "P5", "g"]), ty)
        for _ in range(ctx.pick(200, 5000)):
            both("".join(rng.choice("0123456789abcdefABCDEF..-+pP  xg") for _ in range(rng.randrange(1, 14))), ty)
    for t in ["1a", "1.8", "1.8p3", "ff", "FF.8", "0x1p3", "e", ".e", "e5", "1e2", "p5", ".p5", "1p", "1p+", "1p-z", "1p99999999999", "0p99999999999", "-0.0p5", "1p-99999999999", "1.p1", "a.", "-.8p1", "1p0.5", "deadbeef.cafe"]:
        both(t)
    # long ones
    for n in [x for x in LADDER if 10 <= x <= ctx.pick(600, 2000)]:
        z = "0" * n
        for t in (z + "1.5", "1.5" + z, "1." + z + "5", "1" + z[:300] + f"e-{min(n, 300)}", "0." + z[:300] + f"1e{min(n, 300)}", " " * n + "2.25", z, "1e" + z + "1", "1." + "3" * min(n, 760)):
            if rng.random() < ctx.pick(.3, 1):
                both(t + rng.choice(follow), rng.choice("fdl"))
    cmds = list(dict.fromkeys(cmds))
    rng.shuffle(cmds)
    ctx.extra["literals"] = len(cmds)
    return [cmds[i:i + 5] for i in range(0, len(cmds), 5)]


def run(ctx):
    m = ctx.mc_async("FloatsMC")
    exes = ctx.build("parser")
    ctx.conform(exes, gen(ctx), "FloatsTrace", locale=True)
    m.result()
