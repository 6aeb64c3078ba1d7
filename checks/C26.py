"""Zipping as parallel iteration is model-checked against its definition (in bounds, ends, exactly the least number of tuples) for all
triples of sizes up to 4. All combinations of sizes up to 3, and random larger ones, of one to seven of vectors, lists and deques, constant and not, are
viewed and written through by the real code, also by views which are kept while the collections change; 18 enumerations of 1 to 900 items and several underlying types are iterated (both ways) and index
arrays; TLC validates everything seen and the collections afterwards."""
import itertools


def gen(ctx):
    rng = ctx.rng
    cases = []
    for sizes in itertools.product(range(4), repeat=3):
        c = []
        for i, n in enumerate(sizes):
            c.append(f"fill {i} " + " ".join(str(10 * (i + 1) + k) for k in range(n)))
        for k in range(6):
            c += [f"skip {k} {n}" for n in range(4)] + [f"rev {k}", f"zip1 {k}"]
        zs = list(itertools.product(range(6), range(6), range(-1, 6)))
        if ctx.quick:
            zs = rng.sample(zs, 40)
        c += [f"zip {a} {b} {d}" for a, b, d in zs]
        c += [f"zipn {n} {k}" for n in (4, 5, 7) for k in range(3)]
        for k in range(3):
            for i in range(3):
                c += [f"skipw {k} {rng.randrange(3)} {i} {rng.randrange(100)}", f"revw {k} {i} {rng.randrange(100)}"]
        for _ in range(10):
            p = rng.sample(range(3), 3)
            c.append(f"zipw {p[0] + 3 * rng.randrange(2)} {p[1]} {rng.choice([-1, p[2]])} {rng.randrange(3)} {rng.randrange(3)} {rng.randrange(100)}")
        cases.append(c)
    for _ in range(ctx.pick(100, 4000)):
        c = []
        for _ in range(rng.randrange(5, 30)):
            r = rng.random()
            k = rng.randrange(6)
            if r < .25:
                c.append(f"fill {rng.randrange(3)} " + " ".join(str(rng.randrange(100)) for _ in range(rng.choice([0, 1, 2, 5, 9, 40]))))
            elif r < .4:
                c.append(f"skip {k} {rng.choice([0, 1, 2, 3, 7])}")
            elif r < .5:
                c.append(f"rev {k}")
            elif r < .7:
                c.append(f"zip {k} {rng.randrange(6)} {rng.randrange(-1, 6)}")
            elif r < .73:
                c.append(f"zipn {rng.choice([4, 5, 7])} {rng.randrange(3)}")
            elif r < .8:
                c.append(f"skipw {k} {rng.randrange(4)} {rng.randrange(8)} {rng.randrange(100)}")
            elif r < .9:
                c.append(f"revw {k} {rng.randrange(8)} {rng.randrange(100)}")
            else:
                p = rng.sample(range(3), 3)
                c.append(f"zipw {p[0]} {p[1]} {rng.choice([-1, p[2]])} {rng.randrange(8)} {rng.randrange(3)} {rng.randrange(100)}")
        cases.append(c)
    # views which are kept while the collections change
    for _ in range(ctx.pick(60, 2000)):
        c = []
        for k in range(rng.randrange(3, 12)):
            for i in rng.sample(range(3), rng.choice([1, 2, 3])):
                c.append(f"fill {i} " + " ".join(str(rng.randrange(100)) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 40]))))
            if k == 0 or rng.random() < .1:
                c.append("keep")
            c += [f"look {j}" for j in rng.sample(range(9), rng.choice([3, 9]))]
        cases.append(c)
    # larger ones
    for a, b, d in ((300, 299, 301), (257, 256, 255), (300, 1000, 500)):
        c = [f"fill {i} " + " ".join(str(rng.randrange(1000)) for _ in range(n)) for i, n in enumerate((a, b, d))]
        cases.append(c + [f"skip {k} {n}" for k in range(6) for n in (7, 300)] + [f"rev {k}" for k in range(6)] + ["zip 0 1 -1", "zip 2 1 0", "zip 5 3 4", "zipn 4 0", "zipn 5 1"])
    for n in (1, 2, 3, 4, 5, 6, 17, 33, 65, 126, 127, 128, 200, 255, 256, 257, 300, 900):
        for _ in range(ctx.pick(3, 50)):
            c = [f"enum {n}", "items", "rd"]
            for _ in range(10):
                i = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
                c += [rng.choice([f"wr {i} {rng.randrange(1000)} {rng.randrange(3)}", f"fl {rng.randrange(1000)}", "rd"])]
            cases.append(c + ["rd"])
    return cases


def run(ctx):
    m = ctx.mc_async("ViewsMC")
    exes = ctx.build("views")
    ctx.conform(exes, gen(ctx), "ViewsTrace")
    m.result()
