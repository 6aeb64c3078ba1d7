"""The encoding function and its inverse are model-checked on all byte sequences up to length 4 over six values; the texts are
replayed, together with the encodings of every 1 and 2 byte sequence, random longer data (repetitive data up to 100000 units), every character code in every position of
a quad, all short texts over a small alphabet of valid, padding, control and non-ASCII characters, and mutated encodings.
Results for texts that are no encoding are only required to be safe (as the property says)."""
import base64, itertools
from vf.core import LADDER


def gen(ctx):
    rng = ctx.rng
    t = [b""]
    for n in range(256):
        e = base64.b64encode(bytes([n]))
        t += [e, e.rstrip(b"=")]
    step = 1 if not ctx.quick else 5
    for n in range(0, 65536, step):
        e = base64.b64encode(n.to_bytes(2, "big"))
        t += [e, e[:3]]
    for n in list(range(0, 1 << 24, 65537 if ctx.quick else 4099)):
        t.append(base64.b64encode(n.to_bytes(3, "big")))
    for n in [*range(140), *LADDER]:
        e = base64.b64encode(rng.randbytes(n))
        t += [e, e.rstrip(b"="), e[:-1], e + b"A", e + b"="]
    for pos in range(4):
        for c in range(256):
            for base in (b"AAAA", b"////", b"SGVs"):
                q = bytearray(base)
                q[pos] = c
                t += [bytes(q), b"SGVs" + bytes(q), bytes(q) + b"SGVs", bytes(q) + b"SA==", bytes(q) + b"SGU"]
                if pos < 2:
                    t += [bytes(q[:2]), bytes(q[:2]) + b"=="]
                if pos < 3:
                    t += [bytes(q[:3]), bytes(q[:3]) + b"="]
    small = [ord("A"), ord("/"), ord("="), 0x80, 0xff, 0]
    for k in range(1, 6):
        t += [bytes(x) for x in itertools.product(small, repeat=k)]
    for _ in range(ctx.pick(4000, 100000)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30, 31, 32, 60, 100, 200])
        e = base64.b64encode(rng.randbytes(n))
        r = rng.random()
        if r < .5:
            t += [e, e.rstrip(b"=")]
        else:
            e = bytearray(e)
            for _ in range(rng.randrange(1, 3)):
                q = rng.randrange(4)
                if e and q == 0:
                    e[rng.randrange(len(e))] = rng.choice([rng.randrange(256), 0x3d, 0xff])
                elif e and q == 1:
                    del e[rng.randrange(len(e))]
                elif q == 2:
                    e.insert(rng.randrange(len(e) + 1), rng.choice([0x3d, 0x41, 0x0a, 0x80]))
                else:
                    e = e[:rng.randrange(len(e) + 1)]
            t.append(bytes(e))
    t = list(dict.fromkeys(t))
    ctx.extra["texts"] = len(t)
    long = []
    for n in [63, 64, 255, 256, 1000, 16383, 16384, 16385, 65535, 65536, 65537, 100000] + ([] if ctx.quick else [262144, 1000003, 4000000]):
        unit = base64.b64encode(rng.randbytes(rng.choice([3, 3, 6, 9] if n < 200000 else [3])))
        for tail in (b"", b"QQ==", b"/w", b"QUI=", b"A", b"QQ="):
            long.append([f"rep {unit.hex()} {n} {tail.hex() or '-'}"])
    return long + [[f"hex {s.hex() or '-'}" for s in t[i:i + 10]] for i in range(0, len(t), 10)]


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "Base64MC")
    exes = ctx.build("base64")
    ctx.conform(exes, g.result() + gen(ctx), "Base64Trace")
