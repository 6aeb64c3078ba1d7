"""Framework shared by all checks: builds drivers from /repo's working tree, runs TLC on models and on traces
recorded from the real code, confirms rejections, writes evidence.

A check is a module checks/Cxx.py with run(ctx).  Outcomes:
  exit 0  every trace was accepted by the specification
  exit 1  a trace recorded from the real code is not a behaviour of the specification (confirmed by a second run)
  exit 2  the machinery itself failed (model not checkable, driver does not build, java missing, ...)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,vptr",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
CONFIGS = {
    "dbg17": ["g++", "-std=c++17", "-O1", "-DDEBUG"] + SAN,
    "dbg20": ["g++", "-std=c++20", "-O1", "-DDEBUG"] + SAN,
    "rel17": ["g++", "-std=c++17", "-O3"],
    "rel20": ["g++", "-std=c++20", "-O3"],
    "o0-17": ["g++", "-std=c++17", "-O0", "-DDEBUG"],
    "clang17": ["clang++", "-std=c++17", "-O2"],
    "clang20": ["clang++", "-std=c++20", "-O2"],
    "clangdbg17": ["clang++", "-std=c++17", "-O1", "-DDEBUG", "-fsanitize=address,undefined",
                   "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,function,vptr",
                   "-fno-sanitize-recover=all"],
    "tsan17": ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=thread"],
    "tsan20": ["g++", "-std=c++20", "-O2", "-g1", "-fsanitize=thread"],
}
QUICK = ["dbg17", "rel20", "rel17"]
THOROUGH = ["dbg17", "dbg20", "rel20", "rel17", "o0-17", "clang17", "clang20", "clangdbg17"]


class Machinery(Exception):
    pass


class ApiBroken(Exception):
    """The driver, which uses nothing but the documented API, does not compile although the library itself does."""
    def __init__(self, info):
        super().__init__("driver does not compile")
        self.info = info


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}:{seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.states = self.transitions = 0
        self.models = []
        self.traces = self.events = self.runs = self.distinct = 0
        self.behaviours = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.liblocks = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.tlcsem = threading.Semaphore(NCPU)
        self._hash = None

    quick = property(lambda s: s.tier == "quick")

    def pick(self, q, t):
        return q if self.tier == "quick" else t

    def configs(self):
        return QUICK if self.quick else THOROUGH

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ build
    def src_hash(self):
        with self.lock:
            if self._hash is None:
                h = hashlib.sha256()
                for base in ("src", "src_deps"):
                    for root, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
                        dirs.sort()
                        for f in sorted(files):
                            p = os.path.join(root, f)
                            if os.path.isfile(p):
                                h.update(os.path.relpath(p, REPO).encode() + b"\0" + read(p) + b"\0")
                self._hash = h.hexdigest()
            return self._hash

    def _compile(self, cmd, src, obj):
        tmp = f"{obj}.{os.getpid()}-{threading.get_ident()}.tmp"  # several threads or processes may make the same file
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            errors = "\n".join([x for x in r.stderr.splitlines() if "error: " in x][:5])
            raise Machinery(f"cannot compile {src}: {' '.join(cmd)}\n{errors[:2000]}\n{r.stderr[-3000:]}")
        os.replace(tmp, obj)
        return obj

    def incs(self):
        return ["-I" + os.path.join(REPO, "src"), "-isystem", os.path.join(REPO, "src_deps"), "-I" + DRIVERS]

    def _lib(self, config, extra=()):
        with self.lock:
            one = self.liblocks.setdefault((config, tuple(extra)), threading.Lock())
        with one:
            return self._lib_locked(config, extra)

    def _lib_locked(self, config, extra):
        cmd = CONFIGS[config] + self.incs() + list(extra) + ["-w"]
        d = os.path.join(BUILD, "lib", config + "-" + sha(self.src_hash(), *cmd))
        os.makedirs(d, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(REPO, "src/utki/*.cpp")))
        futs = []
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s in srcs:
                o = os.path.join(d, os.path.basename(s) + ".o")
                objs.append(o)
                if not os.path.exists(o):
                    futs.append(ex.submit(self._compile, cmd, s, o))
            for f in futs:
                f.result()
        return objs

    def api_broken(self, name, config, e):
        """A driver does not compile although the library does; raises."""
        m = re.search(r"(/[^ ]*): ?(fatal )?error: [^\n]*", str(e)) or re.search(r"error: [^\n]*", str(e))
        if not m or "internal compiler error" in str(e) or "No space left" in str(e) or "cannot execute" in str(e):
            raise e
        raise ApiBroken({"driver": name, "config": config, "compile_error": m[0][:500], "stderr": str(e)[-2000:]})

    def driver(self, name, config, extra=(), link=()):
        """Build drivers/<name>.cpp against /repo in the given configuration, return the path of the executable."""
        cmd = CONFIGS[config] + self.incs() + list(extra) + ["-w"]
        src = os.path.join(DRIVERS, name + ".cpp")
        hdrs = b"".join(read(h) for h in sorted(glob.glob(os.path.join(DRIVERS, "*.hpp"))))
        d = os.path.join(BUILD, "drv")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, f"{name}-{config}-" + sha(self.src_hash(), read(src), hdrs, *cmd, *link))
        if os.path.exists(exe):
            return exe
        with cf.ThreadPoolExecutor(2) as ex:
            fl = ex.submit(self._lib, config)
            mine = f"{exe}.{os.getpid()}-{threading.get_ident()}"
            fo = ex.submit(self._compile, cmd, src, mine + ".o")
            objs = fl.result()
            try:
                obj = fo.result()
            except Machinery as e:
                self.api_broken(name, config, e)
        r = subprocess.run(CONFIGS[config] + [obj] + objs + ["-o", mine + ".tmp", "-lpthread"] + list(link),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise Machinery(f"cannot link {name} {config}\n{r.stderr[-3000:]}")
        os.replace(mine + ".tmp", exe)
        os.unlink(obj)
        return exe

    def shared(self, name, config):
        """Build drivers/<name>.cpp as a shared library to be linked with a driver."""
        cmd = CONFIGS[config] + self.incs() + ["-w", "-fPIC"]
        src = os.path.join(DRIVERS, name + ".cpp")
        hdrs = b"".join(read(h) for h in sorted(glob.glob(os.path.join(DRIVERS, "*.hpp"))))
        d = os.path.join(BUILD, "drv")
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, f"lib{name}-{config}-" + sha(self.src_hash(), read(src), hdrs, *cmd) + ".so")
        if not os.path.exists(so):
            self._lib(config)
            try:
                mine = f"{so}.{os.getpid()}-{threading.get_ident()}"
                o = self._compile(cmd, src, mine + ".o")
            except Machinery as e:
                self.api_broken(name, config, e)
            r = subprocess.run(CONFIGS[config] + ["-shared", o, "-o", mine + ".tmp"], capture_output=True, text=True)
            if r.returncode != 0:
                raise Machinery(f"cannot link {name} {config}\n{r.stderr[-3000:]}")
            os.replace(mine + ".tmp", so)
            os.unlink(o)
        return so

    def build(self, name, configs=None, extra=()):
        configs = configs or self.configs()
        with cf.ThreadPoolExecutor(len(configs)) as ex:
            return dict(zip(configs, ex.map(lambda c: self.driver(name, c, extra), configs)))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, args=(), heap="2g", timeout=800, workers="1"):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC", "-Xss64m", f"-Djava.io.tmpdir={self.tmp}", f"-Xmx{heap}", "-cp", JARS,
               "tlc2.TLC", "-config", (cfg or module) + ".cfg", "-metadir", meta, "-workers", workers,
               "-noGenerateSpecTE", *args, module + ".tla"]
        with self.tlcsem:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery(f"TLC timed out on {module}")
            finally:
                shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def mc(self, module, cfg=None, workers="4", heap="4g", expect=True, args=()):
        """Model-check spec/<module>.tla with its cfg; the model has to satisfy its properties."""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, heap=heap, args=args)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if expect is False:
            # a deliberately wrong model: shows that its properties can tell
            if rc != 12 or not re.search(r"Invariant \w+ is violated", out):
                raise Machinery(f"wrong model {cfg or module} was not refuted:\n{out[-4000:]}")
            with self.lock:
                self.extra.setdefault("wrong_models_refuted", []).append(cfg or module)
            return out
        if rc != 0 or not m:
            raise Machinery(f"model {cfg or module} fails its own properties or cannot be checked:\n{out[-4000:]}")
        gen, dist = int(m[1]), int(m[2])
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"model": cfg or module, "distinct_states": dist, "states_generated": gen})
        self.log(f"model {cfg or module}: {dist} states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def mc_async(self, *a, **k):
        return self.pool.submit(self.mc, *a, **k)

    def graph(self, module, cfg=None, maxlen=60, heap="4g", limit=None):
        """Behaviours of a model: walks through TLC's state graph that cover every transition.
        The model keeps the text of the command that led to a state in a string variable `last`."""
        dump = os.path.join(self.tmp, module + (cfg or "") + ".dot")
        rc, out = self.tlc(module, cfg, workers="1", heap=heap, args=("-dump", "dot", dump))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise Machinery(f"model {cfg or module} cannot be explored:\n{out[-4000:]}")
        with self.lock:
            self.states += int(m[2])
            self.transitions += int(m[1])
            self.models.append({"model": cfg or module, "distinct_states": int(m[2]), "states_generated": int(m[1])})
        last, succ, init = {}, {}, []
        rn = re.compile(r'^(-?\d+) \[label="(.*?)"(,style = filled)?\]')
        re_ = re.compile(r'^(-?\d+) -> (-?\d+)')
        rl = re.compile(r'last = \\"((?:[^"\\]|\\\\.)*)\\"')
        for line in open(dump):
            e = re_.match(line)
            if e:
                succ.setdefault(e[1], []).append(e[2])
                continue
            if " [label=" in line and "->" not in line.split("[")[0]:
                nid = line.split(" ", 1)[0]
                l = rl.search(line)
                if l is None:
                    continue
                last[nid] = l[1]
                if "style = filled" in line:
                    init.append(nid)
        os.unlink(dump)
        edges = sum(len(set(v)) for v in succ.values())
        rng = random.Random(1)
        # BFS tree
        par, order = {}, list(init)
        for i in init:
            par[i] = None
        for u in order:
            for v in succ.get(u, ()):
                if v not in par:
                    par[v] = u
                    order.append(v)
        todo = {u: sorted(set(vs) - {u} | ({u} & set(vs))) for u, vs in succ.items()}
        walks = []

        def path(u):
            p = []
            while par[u] is not None:
                p.append(u)
                u = par[u]
            return u, p[::-1]

        for u in reversed(order):
            while todo.get(u):
                root, p = path(u)
                prev = root
                for x in p:
                    if x in todo.get(prev, ()):
                        todo[prev].remove(x)
                    prev = x
                w = [root] + p
                cur = u
                while todo.get(cur) and len(w) < maxlen + len(p):
                    v = todo[cur].pop(rng.randrange(len(todo[cur])))
                    w.append(v)
                    cur = v
                walks.append([last[x] for x in w if last[x]])
                if limit and len(walks) >= limit:
                    break
            if limit and len(walks) >= limit:
                break
        self.behaviours += len(walks)
        self.log(f"state graph {cfg or module}: {len(par)} states, {edges} edges, {len(walks)} behaviours")
        return walks

    # ------------------------------------------------------------------ running drivers
    def run_script(self, exe, cases, timeout=120, args=(), env=None):
        """Run the driver on a list of cases (lists of command lines).  Returns the list of trace lines."""
        text = "".join(f"case {n}\n" + "".join(c + "\n" for c in cmds) for n, cmds in cases)
        e = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
             "UBSAN_OPTIONS": "print_stacktrace=0", "LC_ALL": "C", **(env or {})}
        if "-rel17-" in os.path.basename(exe):
            e.setdefault("MALLOC_PERTURB_", "165")  # fresh and freed memory is filled: nobody may rely on what is in it
        san = "dbg" in os.path.basename(exe) or "tsan" in os.path.basename(exe)
        e["ASAN_OPTIONS"] += ":hard_rss_limit_mb=2500"
        lim = None if san else (lambda: resource.setrlimit(resource.RLIMIT_AS, (2500 << 20, resource.getrlimit(resource.RLIMIT_AS)[1])))
        p = subprocess.Popen([exe, *args], preexec_fn=lim, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, start_new_session=True, cwd=self.tmp)
        err = b""
        try:
            out, err = p.communicate(text.encode("latin-1"), timeout=timeout)
            end = None
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            end = '{"op":"HANG"}'
        if end is None and p.returncode != 0:
            if p.returncode == 99:
                raise Machinery("driver rejected its script: " + err.decode(errors="replace")[-500:])
            end = '{"op":"CRASH"}'
        lines = out.decode("latin-1").split("\n")
        part = lines.pop()  # incomplete last line
        if end is None and (part or not lines or lines[-1] != '{"op":"end"}'):
            end = '{"op":"CRASH"}'
        if end:
            lines.append(end)
        else:
            lines.pop()
        return lines, err.decode(errors="replace")[-4000:]

    def validate(self, module, lines, heap="2g"):
        """Ask TLC whether the trace is a behaviour.  Returns None or the index of the first event it rejects."""
        if not lines:
            raise Machinery("empty trace")
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".ndjson", delete=False, encoding="latin-1")
        f.write("\n".join(lines) + "\n")
        f.close()
        rc, out = self.tlc(module, env={"TRACE": f.name}, heap=heap)
        os.unlink(f.name)
        m = re.search(r'<<"DIAM", (\d+)>>', out)
        if m and rc == 0:
            n = int(m[1]) - 1
            return None if n >= len(lines) else n
        # an evaluation error while processing an event: the code returned something outside the specified domain
        if "Error: Evaluating" in out or "Attempted to" in out or "error occurred when TLC" in out or "TLC threw an unexpected exception" in out:
            if "Nesting limit" in out or "StackOverflow" in out or "OutOfMemory" in out:
                raise Machinery(f"TLC resource failure on {module}:\n{out[-2000:]}")
            ls = re.findall(r"\bl = (\d+)", out)
            if ls:
                return int(ls[-1]) - 1
        raise Machinery(f"TLC failed on trace of {module}:\n{out[-3000:]}")

    def conform(self, exes, cases, module, shard=None, timeout=300, args=(), heap="2g", what="", confirm=True, shards=None, env=None, alone=None, locale=False):
        """Replay cases into every build, let TLC validate every recorded trace.
        locale: also in a process whose global locale has other ideas of white space and numbers.
        confirm=False: a rejected recording is reported as it is (thread schedules cannot be repeated at will)."""
        if not cases:
            raise Machinery("no cases")
        cases = list(enumerate(cases))
        width = shards or NCPU
        nsh = max(1, min(width, len(cases)))
        if shard:
            nsh = max(nsh, -(-len(cases) // shard))
        shards = [cases[i::nsh] for i in range(nsh)]
        seen = {}
        rlock = threading.Lock()

        def drive(job):
            cfg, exe, i, env = job
            lines, err = self.run_script(exe, shards[i], timeout=timeout, args=args, env=env)
            return cfg, exe, env, i, lines, err

        jobs = [(c, e, i, env) for c, e in exes.items() for i in range(nsh)]
        if locale:
            jobs += [(c, e, i, {**(env or {}), "VF_LOCALE": "1"}) for c, e in exes.items() if c in ("rel17", "rel20") for i in range(nsh)]
        traces = {}
        with cf.ThreadPoolExecutor(width) as ex:
            for cfg, exe, jenv, i, lines, err in ex.map(drive, jobs):
                key = hashlib.sha256("\n".join(lines).encode("latin-1")).hexdigest()
                traces.setdefault((i, key), (cfg, exe, jenv, lines, err))
                with self.lock:
                    self.runs += 1
                    self.traces += sum(1 for l in lines if l.startswith('{"op":"reset"'))
                    self.events += len(lines)
        self.log(f"{what or module}: {len(cases)} cases, {len(jobs)} runs, {len(traces)} distinct traces")

        def check(item):
            (i, key), (cfg, exe, jenv, lines, err) = item
            if self.violations:
                return None
            bad = self.validate(module, lines, heap)
            if bad is None:
                return sum(1 for l in lines if l.startswith('{"op":"reset"'))
            with rlock:
                if not self.violations:
                    self.reject(module, cfg, exe, shards[i], lines, bad, err, timeout, args, heap, confirm, jenv, alone)
            return None

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(check, list(traces.items())):
                if r:
                    with self.lock:
                        self.distinct += r
        if not self.violations:
            self.log(f"{what or module}: all traces accepted")
        for n, c in cases[:: max(1, len(cases) // 3)][:3]:
            self.samples.append({"module": module, "case": c[:12]})

    def reject(self, module, cfg, exe, shard, lines, bad, err, timeout, args, heap, confirm=True, env=None, alone=None):
        """A trace was rejected: isolate the case, run it again, and report it only if it is rejected again."""
        start = max([k for k in range(min(bad, len(lines) - 1) + 1) if lines[k].startswith('{"op":"reset"')], default=0)
        n = json.loads(lines[start]).get("case") if lines[start].startswith('{"op":"reset"') else None
        self.log(f"rejected by {module} in {cfg}: event {bad}: {lines[bad][:300]}")
        if alone is not None:
            # the same without the circumstances which are in question: rejected as well, then they are not the reason
            l2, err2 = self.run_script(exe, shard, timeout=timeout, args=args, env=alone)
            if self.validate(module, l2, heap) is not None:
                self.log("rejected also when run alone, which other checks report")
                self.extra.setdefault("wrong_also_alone", []).append(module)
                return
        if not confirm:
            self.violation({"module": module, "config": cfg, "driver": os.path.basename(exe).rsplit("-", 2)[0], "args": list(args),
                            "reproduced": "recorded", "env": env or {}, "case": [c for k, c in shard if k == n][:1],
                            "cases": None if n is not None else shard, "rejected_event": lines[bad][:2000],
                            "events_before": [x[:400] for x in lines[max(start, bad - 30):bad]], "stderr": err})
            return
        for attempt, sub in (("alone", [c for c in shard if c[0] == n]), ("whole", shard)):
            if not sub:
                continue
            l2, err2 = self.run_script(exe, sub, timeout=timeout, args=args, env=env)
            b2 = self.validate(module, l2, heap)
            if b2 is not None:
                s2 = max([k for k in range(min(b2, len(l2) - 1) + 1) if l2[k].startswith('{"op":"reset"')], default=0)
                n2 = json.loads(l2[s2]).get("case") if l2[s2].startswith('{"op":"reset"') else n
                self.violation({"module": module, "config": cfg, "driver": os.path.basename(exe).rsplit("-", 2)[0],
                                "args": list(args), "reproduced": attempt, "env": env or {},
                                "case": [c for k, c in sub if k == n2][:1],
                                "rejected_event": l2[b2][:2000],
                                "events_before": [x[:400] for x in l2[max(s2, b2 - 10):b2]], "stderr": err2[-800:]})
                return
        raise Machinery(f"rejection not reproducible: {lines[bad][:300]}")

    def violation(self, info):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, f"replay-{self.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, **info}, f, indent=1)
        self.violations.append(path)
        self.log("violation:", json.dumps(info)[:1500])

    def listed(self, what):
        """Whether known_findings.txt lists this failure of this property; if so it is reported as known."""
        key = f"finding: property={self.pid} {what}:"
        for l in read(os.path.join(VERIF, "known_findings.txt")).decode().splitlines():
            if l.startswith(key):
                if l not in self.known:
                    self.known.append(l)
                return True
        return False

    # ------------------------------------------------------------------ result
    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "distinct_case_traces_checked_by_tlc": self.distinct, "events_recorded": self.events,
               "driver_runs": self.runs, "model_behaviours_replayed": self.behaviours, "models": self.models,
               "samples": self.samples[:8], **self.extra}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "known_findings": self.known}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.known:
            print("KNOWN-" + l[0:7].upper() + l[7:], flush=True)
        for v in self.violations:
            print(f"VIOLATION property={self.pid} replay={v}", flush=True)
        return 1 if self.violations else 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


# sizes at which implementations tend to change their ways
LADDER = sorted({0, 1, 2, 3} | {(1 << k) + d for k in range(2, 13) for d in (-1, 0, 1)} | {10, 22, 23, 24, 40, 100, 300, 500, 1000, 2000, 5000})


def hx(b):
    """Text or bytes as a script token."""
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"
