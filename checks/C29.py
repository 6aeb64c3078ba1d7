"""TLC proves on the specification that the order is total and transitive, agrees with the packed number and that packing and printing are
injective, for all triples of versions with components at byte borders. The real operators, packing and printing are recorded for all
pairs of versions with border components, neighbouring and random pairs, all versions with one component running through all 65536
values (thorough; a third of them in quick), running maxima and sorted lists, and validated by TLC."""
import itertools


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def gen(ctx):
    rng = ctx.rng
    B = [0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 32767, 32768, 65279, 65280, 65534, 65535]
    if ctx.quick:
        B = [0, 1, 10, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]
    L = [f"pair {a} {b} {c} {d}" for a, b, c, d in itertools.product(B, repeat=4)]
    if ctx.quick:
        L = rng.sample(L, 8000)
    def r():
        k = rng.random()
        return rng.choice(B) if k < .3 else rng.randrange(256) if k < .5 else rng.randrange(65536)
    for _ in range(ctx.pick(4000, 40000)):
        a, b = r(), r()
        k = rng.randrange(6)
        if k == 0:
            c, d = a, b
        elif k == 1:
            c, d = a, r()
        elif k == 2:
            c, d = r(), b
        elif k == 3:
            c, d = b, a
        elif k == 4:
            c, d = max(0, min(65535, a + rng.choice([-1, 0, 1]))), max(0, min(65535, b + rng.choice([-1, 0, 1])))
        else:
            c, d = r(), r()
        L.append(f"pair {a} {b} {c} {d}")
    for v in range(0, 65536) if not ctx.quick else sorted(set(rng.sample(range(65536), 6000)) | set(B) | set(range(1000))):
        L.append(f"text {v} {r()}" if rng.random() < .5 else f"text {r()} {v}")
    L += [f"text {a} {b}" for a, b in itertools.product([*range(12), 15, 16, 99, 100, 101, *B], repeat=2)]
    rng.shuffle(L)
    cases = chunks(L, 400)
    for _ in range(ctx.pick(60, 600)):
        n = rng.choice([2, 5, 20, 60])
        lo = rng.choice([2, 300, 65536])
        vs = [(rng.randrange(lo) if rng.random() < .7 else r(), r() if rng.random() < .5 else rng.randrange(lo)) for _ in range(n)]
        cases.append([f"see {a} {b}" for a, b in vs] + ["sort " + " ".join(f"{a} {b}" for a, b in vs)])
    return cases


def run(ctx):
    m = ctx.mc_async("VersionMC")
    exes = ctx.build("version")
    ctx.conform(exes, gen(ctx), "VersionTrace")
    m.result()
