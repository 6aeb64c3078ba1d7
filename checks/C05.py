"""The cursor model is model-checked over all buffers up to 12 bytes and all operations; every transition of that graph is
replayed, plus seeded random buffers and histories with failing reads and huge lengths; each recorded event is validated by
TLC. Shows conformance on the replayed histories; trusts TLC, the sanitizers for out-of-bounds reads, and the driver."""
from vf.core import LADDER, hx

OPS = ["u8", "u16le", "u32le", "u64le", "f32le", "u16be", "u32be", "u64be", "f32be"]


def gen(rng, n):
    cases = []
    for k in range(n):
        ln = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 40, 64, 100, 255, 256, 257])
        style = rng.randrange(4)
        if style == 0:
            b = bytes(rng.choice([0, 0x7f, 0x80, 0xff, 1]) for _ in range(ln))
        elif style == 1:
            b = bytes([rng.choice([0xff, 0x80, 0x7f])]) * ln
        else:
            b = rng.randbytes(ln)
        c = [f"buf {hx(b)} {rng.randrange(8)}"]
        left = ln
        for _ in range(rng.randrange(3, 30)):
            r = rng.random()
            if r < 0.6:
                c.append(rng.choice(OPS))
            elif r < 0.65:
                c.append("copy")
            else:
                m = rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(ln + 2), ln, ln + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1,
                                2**63 - 1, 2**63, 2**64 - 1, 2**64 - 8])
                c.append(f"{rng.choice(['str', 'span', 'skip'])} {m}")
        cases.append(c)
    for ln in [*range(20, 70), *LADDER]:
        c = [f"buf {hx(rng.randbytes(ln))} {rng.randrange(8)}"]
        for k in (ln + 1, ln, ln // 2, ln - ln // 2 - 1, 2, 1):
            c.append(f"{rng.choice(['str', 'span', 'skip'])} {max(0, k) if k != ln or rng.random() < .3 else ln + 1}")
            c.append(rng.choice(OPS))
        cases.append(c)
        # many small steps
        if ln < 1100:
            cases.append([f"buf {hx(rng.randbytes(ln))} 0"] + [rng.choice(["u8", "str 1", "span 1", "skip 1"]) for _ in range(ln + 2)])
    for ln in (32767, 32768, 65535, 65536, 65541, 70000, 140000):
        c = [f"buf {hx(rng.randbytes(16))}*{ln // 16}+{hx(rng.randbytes(ln % 16 + 1))} {rng.randrange(8)}"]
        for _ in range(12):
            if rng.random() < .5:
                c.append(rng.choice(OPS))
            else:
                c.append(f"{rng.choice(['str', 'span', 'skip'])} {rng.choice([1, 255, 256, 30000, 32768, ln // 2, ln, ln + 1, 65535, 65536, 65537])}")
        cases.append(c + ["u32be"])
    return cases


def run(ctx):
    g = ctx.pool.submit(ctx.graph, "DeserializerMC")
    exes = ctx.build("deser")
    cases = g.result() + gen(ctx.rng, ctx.pick(1500, 40000))
    ctx.conform(exes, cases, "DeserializerTrace")
