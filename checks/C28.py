"""A process executing assertions and log statements one by one is model-checked against the specification of whole programs (up to 3
statements, debug and other builds). Every form of assertion (macro, function, always, default location; boolean, pointers, callables,
condition functions; with and without message) holding and failing, alone and in random programs with log statements, runs in forked
processes of debug and other builds in both language standards, with standard output and error being files or terminals; end, standard output after every statement (unflushed output is lost),
standard error and evaluations are recorded and validated by TLC."""
import re

from vf.core import LADDER, hx

FORMS = [a + b for a in ("macro_", "", "default_") for b in ("bool", "ptr", "shared", "unique", "callable", "fun")] \
    + ["always", "always_here", "always_default", "always_nofile"]
LOGS = ["log", "logcat", "LOG", "log_debug", "logcat_debug", "run_debug"]


def gen(ctx):
    rng = ctx.rng

    def text():
        r = rng.random()
        if r < .1:
            return "~"
        return hx(bytes(rng.choice(b"abc xyz\n%") if rng.random() < .9 else rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 30, 300]))))
    progs = []
    for f in FORMS:
        for h in (0, 1):
            for t in ("~", hx("the message"), hx("")):
                progs.append(f"program logcat:1:{hx('before')} {f}:{h}:{t} log:1:{hx('after')}")
    for f in LOGS:
        for t in ("~", hx("text"), hx("line\n"), "-", hx("x" * 5000), hx(bytes(range(256)))):
            progs.append(f"program {f}:1:{t} {f}:1:{t}")
    for n in LADDER + [8191, 8192, 10000, 16384, 65535, 65536, 70000]:
        if n < 2 or (ctx.quick and n > 10000):
            continue
        for f in rng.sample(LOGS, 2) + [rng.choice(FORMS)]:
            h = 0 if f not in LOGS and rng.random() < .8 else 1
            progs.append(f"program logcat:1:{hx('before')} {f}:{h}:61*{n - 1}+62 log:1:{hx('after')}")
    for _ in range(ctx.pick(500, 10000)):
        p = []
        for _ in range(rng.randrange(1, 9)):
            if rng.random() < .5:
                p.append(f"{rng.choice(LOGS)}:1:{text()}")
            else:
                p.append(f"{rng.choice(FORMS)}:{1 if rng.random() < .85 else 0}:{text()}")
        progs.append("program " + " ".join(p))
    # standard streams as terminals
    size = lambda p: len(p) + sum(int(x) for x in re.findall(r"\*(\d+)", p))
    progs += [rng.choice("ttob") + p for p in progs if size(p) < 3000 and rng.random() < .5]
    rng.shuffle(progs)
    return [progs[i:i + 10] for i in range(0, len(progs), 10)]


def run(ctx):
    m = ctx.mc_async("AssertionsMC")
    # debug and other builds in both standards
    exes = ctx.build("assertions", None if not ctx.quick else ["dbg17", "rel17", "dbg20", "rel20"])
    ctx.conform(exes, gen(ctx), "AssertionsTrace")
    m.result()
