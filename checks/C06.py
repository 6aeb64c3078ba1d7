"""Split/join/word laws are model-checked on all texts up to length 5 over {space, newline, letter, comma}; the same texts, all
texts over other small alphabets (including zero and non-ASCII characters) and seeded random texts and lists are run through
every overload (views, strings, pointers, wide strings, several containers) and every result is validated by TLC."""
import itertools
from vf.core import hx


def gen(ctx):
    rng = ctx.rng
    cmds = []
    for k in range(0, ctx.pick(6, 8)):
        for x in itertools.product([32, 10, 97, 44], repeat=k):
            s = bytes(x)
            cmds.append(f"split {hx(s)} {rng.choice(['2c', '20', '61', '0a'])}")
            if k < 5:
                for d in ("2c", "20"):
                    cmds.append(f"split {hx(s)} {d}")
            cmds.append(f"words {hx(s)}")
    for c in range(256):
        cmds.append(f"words {hx(bytes([97, c, 98]))}")
        cmds.append(f"words {hx(bytes([c, 98, c, c]))}")
        cmds.append(f"split {hx(bytes([c, 97, c, c, 98, c]))} {hx(bytes([c]))}")
        cmds.append(f"split {hx(bytes([c, 97, c ^ 0x80, c, 98, c]))} {hx(bytes([c]))}")
    pool = [b"", b"a", b"ab", b",", b" ", b",,", b"hello world", bytes([0]), bytes([255, 128]), b"x" * 40]
    for k in range(0, 4):
        for x in itertools.product(pool[:7], repeat=k):
            cmds.append(f"join {rng.choice(['2c', '20', '00', 'ff'])} " + " ".join(hx(s) for s in x))

    def text(n):
        a = rng.choice([b" \t\n\r\v\fab,;", bytes(range(256)), b"a,", b", ", b"ab \n"])
        return bytes(rng.choice(a) for _ in range(rng.randrange(n)))

    for _ in range(ctx.pick(3000, 80000)):
        s = text(rng.choice([4, 10, 30, 80]))
        d = rng.choice(s) if s and rng.random() < .8 else rng.randrange(256)
        cmds.append(f"split {hx(s)} {d:02x}")
        cmds.append(f"words {hx(s)}")
        if rng.random() < .5:
            cmds.append(f"join {rng.randrange(256):02x} " + " ".join(hx(text(8)) for _ in range(rng.randrange(7))))
        if rng.random() < .5:
            def val():
                q = rng.randrange(6)
                if q < 2:
                    return f"i:{rng.choice([0, 1, -1, 9, 10, 2**31-1, -2**31+1, rng.randrange(-10**6, 10**6)])}"
                if q == 2:
                    return f"l:{rng.choice([0, 7, -100, rng.randrange(-10**9, 10**9)])}"
                if q == 3:
                    return f"c:{rng.randrange(1, 256):02x}"
                t = text(8)
                if q == 4:
                    return f"s:{hx(t)}"
                return f"{rng.choice('vz')}:{hx(t.replace(bytes(1), b''))}"
            cmds.append("cat " + " ".join(val() for _ in range(rng.randrange(5))))
    # values which change the formatting of those after them, and nothing else
    def piece():
        q = rng.randrange(12)
        if q < 4:
            return f"int:{rng.choice([0, 1, 7, 8, 255, 4095, 2**31 - 1, rng.randrange(10**6)])}"
        if q == 4:
            return f"bool:{rng.randrange(2)}"
        if q == 5:
            return f"text:{hx(text(6).replace(bytes(1), b''))}"
        return [f"char:{rng.randrange(1, 256):02x}", f"base:{rng.choice([8, 10, 16])}", f"{rng.choice(['set', 'set', 'unset'])}:{rng.randrange(4)}", f"adjust:{rng.randrange(3)}",
                f"width:{rng.choice([0, 1, 5, 9, 40])}", rng.choice([f"fill:{rng.choice([32, 42, 48])}", "bad:0"])][q - 6]
    for _ in range(ctx.pick(1500, 40000)):
        cmds.append("styled " + " ".join(piece() for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 9]))))
        if rng.random() < .3:
            cmds.append(f"styled int:{rng.choice([0, -1, 1, 255, -2**31, -2**31 + 1, rng.randrange(-10**6, 10**6)])}")
    # wide characters, among them some which agree with the delimiter in the lower bytes
    for _ in range(ctx.pick(300, 6000)):
        d = rng.choice([44, 1, 0x12c, 0x3001, 0x13001, 0xffff, 0x10ffff, rng.randrange(1, 0x110000)])
        a = [d, 97, d & 0xff, d & 0xffff, d | 0x10000, d ^ 0x100, d ^ 0x8000, rng.randrange(0x110000), 0x2c, 0x12c]
        cmds.append(f"wsplit {d} " + " ".join(str(rng.choice(a[:rng.randrange(2, 11)])) for _ in range(rng.choice([0, 1, 3, 10, 40]))))
    for n in (1000, 5000):
        s = bytes(rng.choice(b"ab, \n") for _ in range(n))
        cmds += [f"split {hx(s)} 2c", f"words {hx(s)}"]
    # any number of pieces, with and without empty ones at the ends
    ns = [*range(10, 70), 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]
    for n in ns if not ctx.quick else [x for x in ns if x > 70 or x % 16 in (0, 1, 15)]:
        for t in (f"2c*{n}", f"2c*{n}+61", f"61+2c*{n}", f"612c*{n}", f"2c61*{n}", f"612c*{n}+61", f"61*{n}+2c+62*{n}", f"61*{n}+2c"):
            cmds.append(f"split {t} 2c")
        for t in (f"6120*{n}", f"2061*{n}", f"6120*{n}+61", f"61*{n}+20*{n}+62*{n}", f"20*{n}+61", f"61+0a*{n}"):
            cmds.append(f"words {t}")
        if n < 2000:
            cmds.append("join 2c " + " ".join(rng.choice(["61", "-", "6262"]) for _ in range(n)))
            cmds.append(f"join 20 61*{n} - 62*{n}")
    # beyond what 16 bits can count
    cmds += ["split 61*65537+2c+62*3 2c", "split 6c*300+2c+2c*66000+61 2c", "words 61*65536+20+62+0a*66000+63", "words 6120*33000", "join 2c 61*65536 - 62*70000"]
    return [cmds[i:i + 10] for i in range(0, len(cmds), 10)]


def run(ctx):
    m = ctx.mc_async("StringsMC")
    exes = ctx.build("strings")
    cases = gen(ctx)
    ctx.conform(exes, cases, "StringsTrace")
    # the texts of numbers depend on the locale, pieces and words do not
    cases = [[x for x in c if not x.startswith(("cat", "styled"))] for c in cases[::4]]
    ctx.conform({"rel20": exes["rel20"]}, [c for c in cases if c], "StringsTrace", env={"VF_LOCALE": "1"}, what="in another locale")
    m.result()
