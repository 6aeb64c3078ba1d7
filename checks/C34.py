"""TLC explores all ways to connect the three streams to eight kinds of things, one change at a time, and walks through the state graph for three kinds covering
every transition, and random histories with all kinds, are replayed: each in a process of its own whose standard streams are re-connected (pseudo terminals, pipes,
files, sockets, devices, directories, closed) while it runs and which asks for all three streams after every change; TLC validates all
answers."""


def run(ctx):
    walks = ctx.graph("TerminalsMC", "TerminalsGraphMC")
    cases = []
    for w in walks:
        c = []
        for s in w:
            if s != "ask":
                c.append(s)
            if not c or c[-1] != "ask":
                c.append("ask")
        cases.append(c)
    m = ctx.mc_async("TerminalsMC")
    things = ["terminal", "terminal", "pipe", "file", "null", "zero", "socket", "directory", "closed"]
    for _ in range(ctx.pick(100, 2000)):
        c = []
        for _ in range(ctx.rng.randrange(1, 25)):
            c += [f"connect {ctx.rng.choice(['cin', 'cout', 'cerr'])} {ctx.rng.choice(things)}"] * 1
            if ctx.rng.random() < .7:
                c.append("ask")
        cases.append(c + ["ask"])
    exes = ctx.build("terminals")
    ctx.conform(exes, cases, "TerminalsTrace")
    m.result()
