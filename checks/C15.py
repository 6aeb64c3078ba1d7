"""The test-and-set algorithm, one flag access per step, with release/acquire publication of the data, is model-checked for three
threads (exclusion, no stale view, no lost update, waiting while held, progress under fairness). Its histories are replayed with real
threads, including long holds against many waiters, and stress runs with plain counters are recorded, natively and under
ThreadSanitizer (which detects a missing acquire or release independently of the processor). Schedules of the real code are sampled."""


def run(ctx):
    rng = ctx.rng
    g = ctx.pool.submit(ctx.graph, "SpinLockMC")
    exes = ctx.build("spin", ["tsan17", "rel20", "rel17"] if ctx.quick else ["tsan17", "tsan20", "rel20", "rel17", "dbg17", "clang17", "clang20", "o0-17"])
    for k in [k for k in exes if k.startswith("tsan")]:
        lines, err = ctx.run_script(exes[k], [(0, [])])
        if len(lines) != 1:
            ctx.extra["tsan_unavailable"] = err[-200:]
            del exes[k]
    walks = g.result()
    ctx.extra["model_behaviours_total"] = len(walks)
    cases = [w + ["release"] * 3 for w in rng.sample(walks, min(len(walks), ctx.pick(60, 1500)))]
    for n in (2, 3, 4):
        cases.append([f"request {i}" for i in range(1, n + 1)] + ["hold 40"] + ["release", "hold 5"] * n)
    for _ in range(ctx.pick(20, 400)):
        c = []
        for _ in range(rng.randrange(6, 20)):
            c.append(rng.choice([f"request {rng.randrange(1, 5)}", f"request {rng.randrange(1, 5)}", "release"]))
        cases.append(c)
    ctx.conform(exes, cases, "SpinLockTrace", timeout=600, confirm=False, shards=3, what="controlled")
    ms = ctx.pick(1200, 20000)
    cases = [[f"stress_ms {ms}", f"stress {t} 1000000 {w} 0"] for t, w in ((2, 0), (3, 3), (4, 1), (2, 20))]
    cases += [[f"stress {t} {n} {w} 1"] for t, n, w in ((2, 800, 0), (3, 500, 2), (4, 300, 10))]
    ctx.conform(exes, cases, "SpinLockTrace", timeout=800, confirm=False, shards=1, what="stress")
    # somebody holds the lock for long
    long = {k: v for k, v in exes.items() if not k.startswith("tsan")}
    holds = [[f"request {i}" for i in range(1, n + 1)] + [f"hold {ms}"] + ["release"] * n for n, ms in ((2, ctx.pick(4000, 60000)), (3, ctx.pick(3000, 30000)))]
    ctx.conform(long, holds, "SpinLockTrace", timeout=600, confirm=False, shards=2, what="long holds")
