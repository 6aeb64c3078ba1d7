"""Every operation from every state of two flag sets over enumerations of up to 3 items is model-checked (bit strings compute the set
operations) and replayed; random histories over enumerations of 1 to 700 items (around word sizes, several underlying types, every
constructor and operator) are replayed; every flag of every set is read after every operation and validated by TLC."""

SIZES = [1, 2, 3, 4, 7, 8, 12, 16, 24, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 512, 700]


def gen(ctx):
    rng = ctx.rng
    cases = []
    for k in range(ctx.pick(240, 12000)):
        n = SIZES[k % len(SIZES)]
        c = [f"kind {n}"]
        S = lambda: rng.randrange(3)
        F = lambda: rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), min(n - 1, rng.choice([7, 8, 31, 32, 63, 64, 127, 128, 255, 256]))])
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            if r < .15:
                c.append(rng.choice([f"bool {S()} {rng.randrange(2)}", f"def {S()}", f"one {S()} {F()}", f"two {S()} {F()} {F()}",
                                     f"list {S()} " + " ".join(str(F()) for _ in range(rng.randrange(4))),
                                     f"mk {S()} " + " ".join(str(F()) for _ in range(rng.randrange(4)))]))
            elif r < .45:
                c.append(rng.choice([f"set {S()} {F()} {rng.randrange(2)}", f"idx {S()} {F()} {rng.randrange(2)}", f"clr {S()} {F()}",
                                     f"flip {S()} {F()}"]))
            elif r < .55:
                c.append(rng.choice([f"setall {S()} {rng.randrange(2)}", f"clrall {S()}", f"inv {S()}", f"not {S()} {S()}",
                                     f"cp {S()} {S()}"]))
            elif r < .75:
                c.append(f"{rng.choice(['and', 'or', 'xor'])} {S()} {S()} {S()}")
            elif r < .85:
                c.append(f"{rng.choice(['and1', 'or1', 'xor1'])} {S()} {S()} {F()}{rng.choice(['', ' x'])}")
            elif r < .95:
                c.append(f"q {S()}")
            else:
                c.append(f"cmp {S()} {S()}")
        cases.append(c + ["q 0", "q 1", "q 2"])
    # almost everything and almost nothing
    for n in SIZES:
        c = [f"kind {n}"]
        for f in sorted({0, 1, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, n - 2, n - 1}):
            if 0 <= f < n:
                c += ["setall 0 1", f"clr 0 {f}", "q 0", f"one 1 {f}", "q 1", "not 2 0", "cmp 1 2", "cmp 0 1", "or 2 0 1", "q 2",
                      "and 2 0 1", "q 2", "xor 2 0 1", "q 2", f"or1 2 0 {f}", f"xor1 2 2 {f} x", "cmp 2 0"]
        cases.append(c)
    return cases


def run(ctx):
    exes = ctx.pool.submit(ctx.build, "flags")
    w = ctx.graph("FlagsMC")
    ctx.conform(exes.result(), w + gen(ctx), "FlagsTrace")
