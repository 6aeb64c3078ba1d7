"""Trees as linked heap nodes, copied deeply, are model-checked against trees as values (the heap represents the values, no node is
shared) for all histories of up to 5 operations on two trees; all transitions and random histories over four vector, list or deque
trees, every constructor included, are replayed, all trees being shown after every operation and validated by TLC."""


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(400, 15000)):
        c = [f"kind {rng.choice('vvld')}"]
        path = lambda: rng.choice(["-", "-", "0", "1", "0.0", "0.1", "1.0", "0.0.0", "2", "1.1.0"])
        sl = lambda: rng.randrange(4)
        lst = lambda: ",".join(str(sl()) for _ in range(rng.randrange(4))) or "-"
        for _ in range(rng.randrange(5, 40)):
            r = rng.random()
            v = rng.randrange(4)
            if r < .08:
                c.append(f"{rng.choice(['val', 'asv'])} {sl()} {v}")
            elif r < .3:
                c.append(f"{rng.choice(['vc', 'vi', 'c', 'i'])} {sl()} {v} {lst()}")
            elif r < .5:
                c.append(f"{rng.choice(['cc', 'ca', 'ca', 'mc', 'ma', 'sw'])} {sl()} {sl()}")
                if rng.random() < .5:
                    s = c[-1].split()
                    c.append(f"eq {s[1]} - {s[2]} -")
            elif r < .6:
                c.append(f"set {sl()} {path()} {v}")
            elif r < .7:
                c.append(f"{rng.choice(['add', 'graft'])} {sl()} {path()} {sl()}")
            elif r < .74:
                c.append(f"{rng.choice(['asg', 'asg', 'asm'])} {sl()} {path()} {path()}")
            elif r < .78:
                c.append(f"del {sl()} {path()}")
            elif r < .92:
                c.append(f"eq {sl()} {path()} {sl()} {path()}")
            elif r < .96:
                c.append(f"eqv {sl()} {v}")
            else:
                c.append(f"find {sl()} {v}")
        cases.append(c)
    # trees that differ in one place only
    from checks.treegen import shapes, paths, p2s

    def build(f, s, tmp):
        out = [f"val {s} 1"]

        def rec(f, p):
            for i, k in enumerate(f):
                out.append(f"add {s} {p2s(p)} {tmp}")
                rec(k, p + (i,))
        rec(f, ())
        return out
    for n in range(ctx.pick(5, 7)):
        for f in shapes(n):
            for kind in "vld":
                c = [f"kind {kind}", "val 3 1"] + build(f, 0, 3)
                for p in [()] + list(paths(f)):
                    c += ["cc 1 0", "eq 0 - 1 -", f"set 1 {p2s(p)} 2", "eq 0 - 1 -", "eq 1 - 0 -", "ca 2 0", f"add 2 {p2s(p)} 3",
                          "eq 0 - 2 -", "eq 2 - 0 -", "eq 1 - 2 -", "eqv 1 1", "eqv 1 2", "find 1 2", "find 1 1"]
                    for q in [()] + list(paths(f)):
                        c += ["ca 1 0", f"set 1 {p2s(p)} 2", f"asg 1 {p2s(p)} {p2s(q)}", f"eq 1 {p2s(p)} 0 {p2s(q)}"]
                        if p[:len(q)] != q:
                            c += ["cc 1 0", f"asm 1 {p2s(p)} {p2s(q)}", f"eq 1 {p2s(p)} 0 {p2s(q)}"]
                    if p:
                        c += ["ca 2 0", f"del 2 {p2s(p)}", "eq 0 - 2 -", "eq 2 - 0 -"]
                cases.append(c)
    # wide and deep ones
    for n, op in [(n, "fan") for n in (16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 300)] + [(n, "chain") for n in (9, 17, 33, 63, 65, 90)]:
        for kind in "vld":
            last = str(n - 1) if op == "fan" else p2s((0,) * n)
            for at in ("-", "0"):
                q = "-" if at == "-" else "0"
                lp = last if at == "-" else "0." + last
                mid = str(n // 2) if op == "fan" else p2s((0,) * (n // 2))
                mid = mid if at == "-" else "0." + mid
                c = [f"kind {kind}", "limit 2000", "val 0 1", "val 3 7", f"add 0 - 3" if at == "0" else "val 2 2", f"{op} 0 {at} {n} {rng.choice([1, 1, 2, n])}",
                     rng.choice(["cc 1 0", "ca 1 0"]), "eq 0 - 1 -", f"set 1 {lp} 5000", "eq 0 - 1 -", "eq 1 - 0 -", f"eq 0 {lp} 1 {lp}", "cc 1 0", f"set 1 {mid} 6000", "eq 0 - 1 -", "eq 1 - 0 -",
                     "ca 2 0", "eq 2 - 0 -", f"del 2 {lp}", "eq 0 - 2 -", "eq 2 - 0 -", rng.choice(["ma 2 1", "mc 2 1", "sw 1 2"]),
                     "cc 3 0", "find 0 5000", f"find 0 {n - 1}", f"add 3 {lp} 0" if op == "fan" else "add 3 - 0", "eq 3 - 0 -",
                     f"asg 3 {lp} {'0'}" if op == "fan" else f"asg 3 - {p2s((0,) * (n // 2))}", rng.choice(["vc 1 4 0,0", "vi 1 4 0,0", "c 1 4 0,0", "i 1 4 0"])]
                cases.append(c)
    return cases


def run(ctx):
    exes = ctx.pool.submit(ctx.build, "treevalue")
    w = ctx.graph("TreeValueMC")
    ctx.extra["model_behaviours_total"] = len(w)
    if ctx.quick and len(w) > 3000:
        w = ctx.rng.sample(w, 3000)
    w = [[f"kind {ctx.rng.choice('vvld')}"] + x for x in w]
    ctx.conform(exes.result(), w + gen(ctx), "TreeValueTrace")
