"""The memory model (write exactly the image of the value, return the position after it, read back) is model-checked on a
bounded memory and every write/read behaviour of it is replayed; in addition boundary, single-bit and random values of every
width are serialized at every alignment and every recorded event is validated by TLC. Exhaustive for 8 and 16 bit values in
the thorough tier; 32 and 64 bit values are sampled. Trusts TLC, the compilers and the driver's bookkeeping."""
W = {"t8": 1, "t16": 2, "t32": 4, "t64": 8, "l64": 8, "n16": 2, "n32": 4, "n64": 8, "f32": 4}


def values(rng, w, n):
    top = (1 << (8 * w)) - 1
    vs = {0, 1, top, top >> 1, (top >> 1) + 1, 0x0102030405060708 & top, 0xfffefdfcfbfaf9f8 & top, 0x8040201008040201 & top}
    for b in range(8 * w):
        vs |= {1 << b, top ^ (1 << b), (1 << b) - 1, (2 << b) & top}
    for i in range(w):
        for x in (0x7f, 0x80, 0xff, 0x55, 0xaa):
            vs.add(x << (8 * i))
    vs = sorted(vs)
    for _ in range(n):
        vs.append(rng.getrandbits(8 * w))
    return vs


FLOATS = [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00000, 0xffc12345, 0x7f800001, 1, 0x80000001, 0x007fffff,
          0x00800000, 0x3f800000, 0xbf800000, 0x7f7fffff, 0x41c80000]


def gen(ctx):
    rng = ctx.rng
    cases = []
    for k, w in W.items():
        for be in ("le", "be"):
            vs = values(rng, w, ctx.pick(120, 6000))
            if k == "f32":
                vs += FLOATS
            if ctx.tier == "thorough" and w == 2:
                vs = list(range(65536))
            if w == 1:
                vs = list(range(256))
            for i in range(0, len(vs), 24):
                mem = rng.choice([bytes(20), b"\xff" * 20, rng.randbytes(20)])
                c = [f"mem {mem.hex()} {rng.randrange(8)}"]
                for v in vs[i:i + 24]:
                    pos = rng.randrange(0, 20 - w + 1)
                    c.append(f"ser {k} {be} {pos} {v.to_bytes(w, 'little').hex()}")
                    k2 = rng.choice([k, k, rng.choice([x for x in W])])
                    c.append(f"des {k2} {be if rng.random() < .7 else rng.choice(['le', 'be'])} {pos}")
                cases.append(c)
        # at the very end of the block: a write or read of one byte too many is caught by the sanitizer
        for be in ("le", "be"):
            for v in (0, (1 << 8 * w) - 1):
                cases.append([f"mem {bytes(w).hex()} {s}" for s in (1,)] + [f"ser {k} {be} 0 {v.to_bytes(w, 'little').hex()}", f"des {k} {be} 0"])
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "SerializationMC")
    exes = ctx.build("serial")
    ctx.conform(exes, g.result() + gen(ctx), "SerializationTrace")
