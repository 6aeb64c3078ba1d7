"""The decoder automaton is model-checked on all byte strings up to length 4 over a representative alphabet; all those strings,
all 1 and 2 byte strings, truncations of well-formed text and seeded random bytes are decoded by the real code from exact-size
heap buffers (AddressSanitizer) through every overload and each result is validated by TLC. What is yielded after the first
malformed sequence is deliberately unspecified apart from the bound on its length."""
import itertools

ALPHA = [0, 65, 127, 128, 191, 193, 194, 224, 160, 240, 248, 252, 253, 254, 255]
from vf.core import LADDER


def enc(c):
    if c < 0x80:
        return bytes([c])
    n = 2 if c < 0x800 else 3 if c < 0x10000 else 4 if c < 0x200000 else 5 if c < 0x4000000 else 6
    lead = {2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[n]
    return bytes([lead | (c >> 6 * (n - 1))] + [0x80 | (c >> 6 * (n - 1 - i)) & 0x3f for i in range(1, n)])


def gen(ctx):
    rng = ctx.rng
    strs = [b""]
    strs += [bytes(x) for x in itertools.product(range(256), repeat=1)]
    if ctx.quick:
        strs += [bytes(x) for x in itertools.product(range(0, 256), [0, 65, 128, 191, 192, 224, 240, 255])]
    else:
        strs += [bytes(x) for x in itertools.product(range(256), repeat=2)]
    for k in (3, 4):
        strs += [bytes(x) for x in itertools.product(ALPHA, repeat=k)]
    tops = [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff]
    for c in tops:
        e = enc(c)
        for k in range(len(e) + 1):
            for pre in (b"", b"A", enc(0x20ac), enc(0x7fffffff)):
                for post in (b"", b"\0", b"Z", b"\0Z", b"\xff", b"\xfe\x80", enc(0x7fffffff)[:3]):
                    strs.append(pre + e[:k] + post)
    for lead in range(0xc0, 0x100):
        for k in range(0, 9):
            for fill in (0x80, 0xbf, 0x41):
                strs.append(bytes([lead]) + bytes([fill]) * k)
    for _ in range(ctx.pick(6000, 150000)):
        r = rng.random()
        if r < .3:
            s = rng.randbytes(rng.randrange(1, 24))
        elif r < .6:
            s = b"".join(enc(rng.choice(tops + [rng.randrange(1, 1 << rng.randrange(1, 32))])) for _ in range(rng.randrange(1, 8)))
            s = s[:rng.randrange(0, len(s) + 1)]
        else:
            s = bytearray(b"".join(enc(rng.choice(tops + [rng.randrange(1, 1 << rng.randrange(1, 32))])) for _ in range(rng.randrange(1, 8))))
            for _ in range(rng.randrange(1, 3)):
                i = rng.randrange(len(s))
                q = rng.randrange(4)
                if q == 0:
                    s[i] = rng.randrange(256)
                elif q == 1 and len(s) > 1:
                    del s[i]
                elif q == 2:
                    s.insert(i, rng.choice([0, 0x80, 0xbf, 0xfe, 0xff, 0x41]))
                else:
                    s[i] ^= 1 << rng.randrange(8)
        strs.append(bytes(s))
    strs = list(dict.fromkeys(strs))
    ctx.extra["byte_strings"] = len(strs)
    long = [["dec 61*65535+e282ac+62"], ["dec e282ac*21846+e282"], ["dec 61*66000+00+62"], ["dec 61*65536+c3"], ["dec fd+bf*5+61*66000+fe"]]
    for n in LADDER:
        if n:
            for t in (b"", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\0a", b"\xff", b"\xfd\xbf\xbf\xbf\xbf", enc(0x20ac), enc(0x7fffffff) + b"z"):
                if rng.random() < ctx.pick(.4, 1):
                    long.append([f"dec 61*{n}{'+' * bool(t)}{t.hex()}"])
            if n < 2500:
                long.append([f"dec e282ac*{n}+{rng.choice(['e2', 'e282', '61', 'c3a9', '00'])}"])
    return long + [[f"dec {s.hex() or '-'}" for s in strs[i:i + 10]] for i in range(0, len(strs), 10)]


def run(ctx):
    m = ctx.mc_async("Utf8BytesMC")
    exes = ctx.build("unicode")
    ctx.conform(exes, gen(ctx), "Utf8Trace")
    m.result()
