"""The two-attempt formatting algorithm is model-checked for all result lengths around the buffer size (completeness, termination). The
formatting language itself (all flags, widths, precisions, length modifiers and conversions d i u x X o c s f F e E g G, doubles by their
exact decimal expansion) is specified, and model-checked for its laws. Random formats of it with up to four arguments, and ten fixed ones,
run through make_string and through an argument list, for every result length around 1 KiB, 2 KiB and 4 KiB and others up to 70000, each
result compared with the specification by TLC. What the C library can not format (a wide character without
a representation) must be reported by std::logic_error. Only %a, %p, %n and long double are not specified."""
from vf.core import LADDER, hx


def directive(rng):
    """a defined conversion and its arguments"""
    c = rng.choice("ddiuxXocssffFeEgG%")
    if c == "%":
        return "%%", []
    args = []
    flags = "-" if rng.random() < .3 else ""
    if c not in "cs" and rng.random() < .4:
        flags += "0"
    if c in "difFeEgG":
        flags += rng.choice(["", "", "+", " ", "+ "])
    if c in "xXofFeEgG" and rng.random() < .4:
        flags += "#"
    flags = "".join(rng.sample(flags, len(flags)))
    w = rng.choice(["", "", "", "*", "1", "2", "7", "20", "100"])
    if w == "*":
        args.append("i" + str(rng.choice([0, 1, 5, 12, -1, -9, 40, 1100])))
    p = "" if c == "c" or rng.random() < .5 else rng.choice([".", ".0", ".1", ".3", ".10", ".*", ".25"])
    if p == ".*":
        args.append("i" + str(rng.choice([0, 1, 2, 5, 15, -1, -7])))
    mod = ""
    if c in "diuxXo":
        mod = rng.choice(["", "", "", "hh", "h", "l", "ll", "z", "j", "t"])
        n = rng.choice([0, 0, 1, -1, 7, 8, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, -128, -32768, 2**31 - 1, -2**31, rng.randrange(-10**6, 10**6)])
        if mod in ("l", "ll", "z", "j", "t"):
            n = rng.choice([n, 2**63 - 1, -2**63, 2**32, 2**53, rng.randrange(-2**63, 2**63)])
            args.append(f"l{n}")
        else:
            args.append(f"i{n}")
    elif c == "c":
        args.append("i" + str(rng.choice([0, 32, 65, 37, 200, 255, rng.randrange(1, 256)])))
    elif c == "s":
        args.append("s" + hx(bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 2, 5, 20])))))
    else:
        sign = rng.choice(["", "", "-"])
        r = rng.random()
        if r < .1:
            args.append("d" + sign + rng.choice(["inf", "nan"]))
        elif r < .2:
            args.append(f"d{sign}0:0")
        elif r < .7:  # ties and short ones
            args.append(f"d{sign}{rng.choice([1, 3, 5, 7, 25, 99, 999, 9999, 125, 99999, rng.randrange(10**6)])}:{rng.randrange(-6, 8)}")
        else:
            args.append(f"d{sign}{rng.randrange(2**52, 2**53)}:{rng.choice([-52, -55, -60, -45, -40, -30, -20, rng.randrange(-120, 60)])}")
    return f"%{flags}{w}{p}{mod}{c}", args


def any_format(ctx):
    rng = ctx.rng
    cmds = []
    text = lambda: "".join(rng.choice("ab 5.-+#0*dsx") for _ in range(rng.choice([0, 0, 0, 1, 3, 12])))
    for _ in range(ctx.pick(3000, 60000)):
        f, args = text(), []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            d, a = directive(rng)
            if len(args) + len(a) <= 4:
                f += d + text()
                args += a
        cmds.append(f"printf {hx(f)} " + " ".join(args))
    # wide texts, some of which the C library can not convert
    for n in [0, 1, 2, 3, 10, 500, 1020, 1021, 1022, 1023, 1024, 1025, 1500, 2047, 2048, 3000]:
        for bad in (0, 0, 0xd800, 0x80, 0x20ac, 0x10ffff, 0x7fffffff):
            w = [rng.randrange(1, 128) for _ in range(n)]
            if bad:
                w.insert(rng.choice([0, n, rng.randrange(n + 1)]), bad)
            pre = "x" * rng.choice([0, 1, 30, 1000, 1030])
            cmds.append(f"wprintf {hx(pre + rng.choice(['%d%ls|', '%*ls', '<%d %-5ls>', '%-*ls %%']))} {rng.choice([0, 1, 7, -7, 100, 1030, -1030])} " + " ".join(map(str, w)))
    # the longest and the shortest numbers
    for f in ("%f", "%.0f", "%e", "%g", "%#.0e", "%.17g", "%.40f", "%G"):
        for x in ("9007199254740991:971", "1:-1074", "4503599627370497:-1074", "1:1023", "9007199254740991:-53", "1:0"):
            cmds.append(f"printf {hx(f)} d{x}")
    # any length, by width and by precision
    for n in LADDER + [1022, 2046, 10000, ctx.pick(20000, 70000)]:
        cmds += [f"printf {hx('%*d')} i{n} i-5", f"printf {hx('%0*d')} i{n} i-5", f"printf {hx('%-*s|')} i{n} s6162", f"printf {hx('%.*d')} i{n} i12"]
        if n:
            cmds += [f"printf {hx(f'%{n}c')} i65", f"printf {hx(f'%.{n}x%%')} i255", f"printf {hx('x' * min(n, 3000) + '%d')} i7", f"printf {hx('%%' * min(n, 1500))}"]
        if n < 1200:
            cmds.append(f"printf {hx('%.*f')} i{n} d5:-3")
    return cmds


def gen(ctx):
    rng = ctx.rng
    cmds = ["fmt 5", "fmt 10"]
    lens = list(range(0, 40)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513] + list(range(1015, 1035)) + list(range(2040, 2056)) + \
        list(range(4090, 4102)) + [8191, 8192, 8193, 10000, 32767, 32768, 65535, 65536, 65537, 70000]
    if not ctx.quick:
        lens = sorted(set(lens) | set(range(0, 2100)) | {16383, 16384, 16385, 131071, 131072, 1000000})
    for n in lens:
        cmds.append(f"fmt 1 *{rng.choice([97, 37, 200])}*{n}")
        if n > 8:
            cmds.append(f"fmt 2 *98*{n//2} #{rng.randrange(100)} *99*{n - n//2 - 4}")
            cmds.append(f"fmt 6 #{n - 2} *120*{n + 5}")
            cmds.append(f"fmt 6 #{n - 2} *120*{n - 2}")
        if n > 20:
            p = n // 6
            cmds.append("fmt 7 " + " ".join(f"*{97 + i}*{p if i < 5 else n - 5 * p - 6}" if n - 5 * p - 6 > 0 else f"*{97+i}*{p}" for i in range(6)) + " " + " ".join(f"#{i}" for i in range(6)))
            cmds.append(f"fmt 4 #{n - 4} #{rng.randrange(1000)} #2 #-5 #3 #42")
            cmds.append(f"fmt 4 #1 #-7 #{-(n // 2)} #5 #{n // 2} #-8")
            cmds.append(f"fmt 8 #{rng.randrange(-99, 99)} #{rng.randrange(-99, 99)} #{rng.randrange(-99, 99)} *65*{n - 15 if n > 15 else n} #{rng.randrange(-99, 99)}")
            cmds.append(f"fmt 9 #{rng.randrange(-99, 99)} #{rng.choice([0, 10, 65, 200])} *66*{n - 5} #{rng.randrange(256)}")
    for _ in range(ctx.pick(800, 20000)):
        def s():
            return hx(bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 20))))

        def i():
            return "#" + str(rng.choice([0, 1, -1, 10, 2**31 - 1, -2**31 + 1, rng.randrange(-10**6, 10**6)]))

        def u():
            return "#" + str(rng.choice([0, 1, 10, 255, 2**31 - 1, rng.randrange(10**6)]))
        w = lambda: "#" + str(rng.randrange(-15, 16))
        cmds += [f"fmt 1 {s()}", f"fmt 2 {s()} {i()} {s()}", f"fmt 3 {i()} {u()} {u()} #{rng.randrange(256)}",
                 f"fmt 4 {w()} {i()} {w()} {i()} {w()} {i()}", f"fmt 6 #{rng.randrange(-2, 25)} {s()}",
                 "fmt 7 " + " ".join(s() for _ in range(6)) + " " + " ".join(i() for _ in range(6)),
                 f"fmt 8 {i()} {i()} {i()} {s()} {i()}", f"fmt 9 {i()} #{rng.randrange(256)} {s()} #{rng.randrange(256)}"]
    cmds += any_format(ctx)
    for d in [0, 1, 2, 3, 5, 7, 8, 16, 100, 255, 256, 1000, 65535, 65536, 100000]:
        cmds.append(f"indent {d} 0")
        cmds.append(f"indent {d} 0 default")
        for sz in [1, 2, 3, 4, 8, 17, 255, 1000]:
            if d * sz < 10**8:
                cmds.append(f"indent {d} {sz}")
    cmds += ["indent 2147483648 2147483648", "indent 4294967295 4294967295", "indent 3221225472 4294967292"]
    return [cmds[i:i + 20] for i in range(0, len(cmds), 20)]


def run(ctx):
    m = ctx.mc_async("FormatMC")
    p = ctx.mc_async("PrintfMC")
    exes = ctx.build("strings")
    ctx.conform(exes, gen(ctx), "FormatTrace")
    m.result()
    p.result()
