"""The parser cursor is model-checked over all texts up to length 3 over {space, newline, comma, letter} with every operation; every
transition is replayed, plus seeded random texts over all character codes and random operation histories; positions and lengths of
returned and remaining views are recorded from exact-size buffers and each event is validated by TLC."""
from vf.core import LADDER, hx

WS = b" \n\t\r\v\f"


def gen(ctx):
    rng = ctx.rng
    cases = [[f"isspace {c:02x}" for c in range(256)]]
    for c in range(256):
        for t in (bytes([c]), bytes([32, c, 97]), bytes([44, c, 44, 97]), bytes([97, c, 98])):
            for op in ("ws", "wsc", "word", "wordu 2c", "charsu 2c", f"charsu {c:02x}", f"until {c:02x}", f"oneof {c:02x}61", f"oneof {c^0x80:02x}00", "ch", "peek"):
                if rng.random() < ctx.pick(.3, 1):
                    cases.append([f"text {hx(t)}", op, "peek"])
    for _ in range(ctx.pick(4000, 100000)):
        a = rng.choice([WS + b"ab,", b" ,", b"ab, \n", bytes(range(256)), b"a,\0\xff "])
        t = bytes(rng.choice(a) for _ in range(rng.choice([0, 1, 3, 8, 20, 40])))
        c = [f"text {hx(t)}"]
        for _ in range(rng.randrange(1, 14)):
            x = rng.choice(t) if t and rng.random() < .7 else rng.randrange(256)
            q = rng.randrange(13)
            if q < 5:
                c.append(["ws", "wsc", "word", "ch", "peek"][q])
            elif q < 8:
                c.append(f"{['until', 'wordu', 'charsu'][q - 5]} {x:02x}")
            elif q == 8:
                c.append("oneof " + hx(bytes(rng.choice(t) if t and rng.random() < .5 else rng.randrange(256) for _ in range(rng.randrange(4)))))
            elif q < 11:
                n = rng.choice([0, 1, 2, 3, len(t) // 2, len(t), len(t) + 1, 2**32, 2**64 - 1])
                c.append(f"{'chars' if q == 9 else 'peekn'} {n}")
            else:
                c.append("ch")
        cases.append(c)
    for n in [x for x in LADDER if x]:
        for t, ops in ((f"20*{n}+61", ["ws", "peek"]), (f"0a09*{n}+2c+20*{n}+2c61", ["wsc", "peek", "wsc"]), (f"61*{n}+20+62", ["word", "ws", "word"]), (f"61*{n}", ["word", "peek"]),
                       (f"61*{n}+2c62", ["wordu 2c", "ch", "peek"]), (f"6120*{n}+2c", ["charsu 2c", "peek"]), (f"61*{n}+2c62", ["until 2c", "peek"]), (f"61*{n}+2c62", ["oneof 622c", "peek"]),
                       (f"61*{n}+62", [f"chars {n}", "peek", f"chars {n}"]), (f"61*{n}+62", [f"peekn {n}", f"peekn {n + 1}", f"chars {n + 1}", "peek"]), (f"61*{n}+62", [f"chars {n + 1}", "ch"]),
                       (f"6162*{n}", ["ch"] * min(n, 300) + ["peek"])):
            if rng.random() < ctx.pick(.6, 1):
                cases.append([f"text {t}"] + ops)
        # many stop characters, the last of them being the one
        for k in (n - 1, n, n + 1):
            if k and rng.random() < ctx.pick(.5, 1):
                stops = bytes(rng.choice(b"bcdefg") for _ in range(k)).hex()
                cases.append([f"text 61*{rng.choice([1, 5, 20])}+78+61*3+78", f"oneof {stops}78", "peek", f"oneof 78{stops}", "peek"])
    for big in ("61*65537+20*65536+2c+20*65535+62", "61*70000", "20*70000+2c*3+61"):
        for ops in (["word", "wsc", "ch", "ws", "peek"], ["charsu 2c", "ch", "peekn 65535", "peekn 65536", "chars 65535", "peek"], ["wordu 2c", "ws", "until 62", "peek"],
                    ["chars 65536", "peekn 0", "chars 65537", "oneof 622c", "peek"], ["peekn 65536", "peekn 69999", "peekn 70000", "peekn 196609", "until 2c", "ch"]):
            cases.append([f"text {big}"] + ops)
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "ParserMC")
    exes = ctx.build("parser")
    ctx.conform(exes, g.result() + gen(ctx), "ParserTrace", locale=True)
