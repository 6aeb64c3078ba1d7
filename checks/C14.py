"""Histories of construction attempts (succeeding, refused, failing before the singleton base, in a member or in the body) and
destructions are model-checked for three classes; every transition and random histories over six classes (plain, intrusive, singleton
base not first, foreign owner with derived class, plain and intrusive ones used, made and destroyed both in the program and in a shared library) are replayed and what each class reports afterwards is validated by TLC.
Programs which end while an object exists (automatic, static, dynamic, global; returning, exit, quick exit) are run, and how they ended is validated as well;
two ways of it are known findings."""
import json, os, subprocess

ENDS = ["heap", "static", "return", "exit", "quit", "global"]


def gen(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(1500, 30000)):
        c = ["begin"]
        for _ in range(rng.randrange(4, 40)):
            k = rng.choice(["plain", "intrusive", "multi", "service", "library", "inside"])
            where = rng.choice(["", " there"]) if k in ("library", "inside") else ""
            if rng.random() < .45:
                c.append(f"destroy {k}{where}")
            else:
                f = rng.choice(["no", "no", "no", "member", "body"] + (["early"] if k == "multi" else []))
                c.append(f"construct {k} {f}{where}")
        cases.append(c)
    return cases


def ends(ctx, config):
    """Programs ending with an object in existence: one trace per program, so that each is judged on its own."""
    exes = {g: ctx.driver("singleton_end", config, extra=("-DVF_GLOBAL",) if g else ()) for g in (False, True)}
    for cls in ("plain", "intrusive"):
        for how in ENDS:
            env = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0"}
            try:
                p = subprocess.run([exes[how == "global"], cls, how], capture_output=True, timeout=60, cwd=ctx.tmp, env=env)
                rc, out = p.returncode, p.stdout.decode("latin-1").split()
            except subprocess.TimeoutExpired:
                rc, out = "hang", []
            event = {"op": "finish", "cls": cls, "how": how, "reports": [x for x in out if x != "destroyed"],
                     "destroyed": out.count("destroyed"), "normal": rc == 0}
            ctx.runs += 1
            ctx.events += 1
            lines = [json.dumps({"op": "reset", "case": 0}), json.dumps(event)]
            if ctx.validate("SingletonTrace", lines) is None:
                ctx.distinct += 1
            elif event["reports"] != ["created"] or not ctx.listed(f"{cls} object, {how}"):
                ctx.violation({"module": "SingletonTrace", "config": config, "program": ["singleton_end", cls, how], "rejected_event": lines[1]})


def replay(ctx, d):
    ends(ctx, d["config"])
    return not ctx.violations


def run(ctx):
    e = [ctx.pool.submit(ends, ctx, c) for c in (["dbg17"] if ctx.quick else ["dbg17", "clangdbg17"])]
    g = ctx.pool.submit(ctx.graph, "SingletonMC")
    exes = {c: ctx.driver("singleton", c, link=(ctx.shared("singleton_lib", c),)) for c in ctx.configs()}
    ctx.conform(exes, g.result() + gen(ctx), "SingletonTrace")
    for f in e:
        f.result()
