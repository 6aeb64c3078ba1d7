"""For all interleavings of three threads TLC checks on a model that calls working in memory of their own return what they would
return alone, that a description made once under a lock stays valid for everybody holding it, and that an object with an atomic count
lives exactly as long as somebody refers to it; the four wrong variants (common scratch memory, unlocked or repeated making, torn
counting) are refuted by TLC in every run. On the real code, samples of the scripts of 23 other checks are dealt to several threads at once, natively and
under ThreadSanitizer; the recording of every thread has to be accepted by the sequential specification. One constant object of each kind is read
by several threads, and references to one object are copied and dropped by all of them. Schedules of the real code are sampled."""
import concurrent.futures as cf
import importlib, re
from vf.core import ApiBroken, Machinery

# check, driver, specification
PARTS = [("C01", "unicode", "Utf8Trace"), ("C02", "unicode", "Utf8Trace"), ("C03", "base64", "Base64Trace"), ("C04", "serial", "SerializationTrace"),
         ("C05", "deser", "DeserializerTrace"), ("C06", "strings", "StringsTrace"), ("C07", "strings", "WordWrapTrace"), ("C08", "parser", "ParserTrace"),
         ("C09", "parser", "NumbersTrace"), ("C10", "parser", "FloatsTrace"), ("C11", "strings", "StringsTrace"), ("C12", "strings", "FormatTrace"),
         ("C13", "signal", "SignalTrace"), ("C16", "scope", "ScopeExitTrace"), ("C17", "shared", "SharedRefTrace"), ("C18", "unique", "UniqueRefTrace"),
         ("C19", "tree", "TreeTrace"), ("C20", "tree", "TreeTrace"), ("C21", "treevalue", "TreeValueTrace"), ("C22", "flags", "FlagsTrace"),
         ("C23", "sort", "SortTrace"), ("C24", "linq", "LinqTrace"), ("C25", "span", "SpanTrace"), ("C26", "views", "ViewsTrace"),
         ("C27", "exceptions", "ExceptionsTrace"), ("C29", "version", "VersionTrace"), ("C30", "containers", "ContainersTrace"), ("C31", "arith", "ArithTrace")]
LARGE = re.compile(r"\*\d{4,}|\bhuge\b|scan")


def small(c):
    return sum(map(len, c)) < 3000 and not any(LARGE.search(l) for l in c)


def run(ctx):
    rng = ctx.rng
    m = ctx.mc_async("IndependentMC")
    wrong = [ctx.mc_async("IndependentMC", f"Independent{k}MC", workers="1", expect=False) for k in ("Static", "Unlocked", "Always", "Torn")]
    configs = ["tsan17", "rel20"] if ctx.quick else ["tsan17", "tsan20", "rel20", "rel17", "clang17", "clang20", "dbg17"]
    env = {"TSAN_OPTIONS": "halt_on_error=1"}

    def driver(job):
        try:
            return ctx.driver(*job)
        except ApiBroken:
            return None
    drivers = sorted({d for _, d, _ in PARTS} | {"threads"}, key=lambda d: d not in ("shared", "views", "linq", "tree", "span"))
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [(d, c) for d in drivers for c in configs]
        for c in configs:
            ctx._lib(c)
        exe = dict(zip(jobs, ex.map(driver, jobs)))
    # a driver which does not compile is reported by the check it belongs to
    parts = [p for p in PARTS if all(exe[p[1], c] for c in configs)]
    if len(parts) < len(PARTS):
        ctx.extra["not_compiled"] = sorted({p[1] for p in PARTS if p not in parts})
    if len(parts) < len(PARTS) / 2:
        raise Machinery("most drivers do not compile")
    ctx.log(f"{len(jobs)} drivers built")
    for k in [k for k in configs if k.startswith("tsan")]:
        lines, err = ctx.run_script(exe[parts[0][1], k], [(0, [])])  # nothing of the library
        if len(lines) != 1:
            ctx.extra["tsan_unavailable"] = err[-200:]
            configs = [c for c in configs if c != k]
    built = lambda d: {c: exe[d, c] for c in configs}

    def part(p):
        pid, d, module = p
        mod = importlib.import_module("checks." + pid)
        cases = [c for c in (mod.gen(rng_ctx(pid)) if pid != "C05" else mod.gen(ctx.rng, 300)) if small(c)]
        sub = rng_of(pid).sample(cases, min(len(cases), ctx.pick(120, 1500)))
        if ctx.violations:
            return
        n = rng_of(pid).choice([4, 6, 8])
        ctx.conform(built(d), sub, module, confirm=False, shards=ctx.pick(1, 4), env={**env, "VF_THREADS": str(n)}, alone=env, what=f"{pid} in {n} threads")

    def rng_of(pid):
        import random
        return random.Random(f"C35:{pid}:{ctx.seed}")

    def rng_ctx(pid):
        # the generators of the other checks take their choices from the context
        class Sub:
            quick = True
            tier = "quick"
            rng = rng_of(pid)
            extra = {}

            @staticmethod
            def pick(q, t):
                return q
        return Sub

    reads = []
    for t in (2, 4, 8):
        for kind, sizes in (("exception", (1, 2, 3, 6)), ("tree", (1, 3)), ("flags", (0, 3)), ("array", (5, 40)), ("text", (3, 60)), ("bytes", (8, 100)),
                            ("collection", (5, 60)), ("version", (7,))):
            for n in sizes:
                reads.append([f"read {t} {kind} {n} {ctx.pick(40, 400)}"])
        reads.append([f"share {t} {ctx.pick(2000, 50000)}"])
    rng.shuffle(reads)
    with cf.ThreadPoolExecutor(4) as ex:
        futs = []
        if all(exe["threads", c] for c in configs):
            futs.append(ex.submit(ctx.conform, built("threads"), reads, "IndependentTrace", confirm=False, shards=2, env=env, what="common objects"))
        futs += [ex.submit(part, p) for p in parts]
        for f in futs:
            f.result()
    m.result()
    for w in wrong:
        w.result()
