"""A table from platforms to macros is written as a specification and checked for contradictions on all 3,060 combinations. For every
combination of operating system, compiler, standard, processor and byte order that exists, config.hpp goes through the real
preprocessor with the macros that compiler predefines there (by -undef and -D, and for the targets clang knows by its own
predefined macros); TLC validates what config.hpp then defines. Builds of this machine also compare it with what they observe."""
import json, os, subprocess
from vf import core

NAMES = dict(os="CFG_OS", osname="CFG_OS_NAME", compiler="CFG_COMPILER", cpp="CFG_CPP", cpu="CFG_CPU", bits="CFG_CPU_BITS",
             endianness="CFG_ENDIANNESS", generation="CFG_CPU_VERSION")
STD = {98: [199711], 11: [201103], 14: [201402], 17: [201703], 20: [202002, 201709], 23: [202302, 202100]}
ARM = {4: ["__ARM_ARCH_4__", "__ARM_ARCH_4T__"], 5: ["__ARM_ARCH_5__", "__ARM_ARCH_5E__", "__ARM_ARCH_5T__", "__ARM_ARCH_5TE__", "__ARM_ARCH_5TEJ__"],
       6: ["__ARM_ARCH_6__", "__ARM_ARCH_6J__", "__ARM_ARCH_6K__", "__ARM_ARCH_6Z__", "__ARM_ARCH_6ZK__", "__ARM_ARCH_6T2__"],
       7: ["__ARM_ARCH_7__", "__ARM_ARCH_7A__", "__ARM_ARCH_7R__", "__ARM_ARCH_7M__"]}


def platforms(ctx):
    """(platform, predefined macros) of the compilers there are"""
    rng = ctx.rng
    systems = [("linux", "other", ["__linux__=1", "__unix__=1", "__unix=1"], "gc"), ("linux", "android", ["__linux__=1", "__unix__=1", "__ANDROID__=1"], "gc"),
               ("windows", "other", ["_WIN32=1"], "gcmk"), ("windows", "other", ["_WIN32=1", "WIN32=1", "_WIN64=1"], "gcmk"), ("windows", "other", ["WIN32=1"], "g"),
               ("apple", "macosx", ["__APPLE__=1", "__MACH__=1"], "gc"), ("apple", "ios", ["__APPLE__=1", "__MACH__=1", "VF_IOS=1"], "gc"),
               ("apple", "ios", ["__APPLE__=1", "VF_SIMULATOR=1"], "c"),
               ("unix", "solaris", ["__unix__=1", "__unix=1", "__sun=1", "sun=1"], "gc"), ("unix", "solaris", ["__unix=1", "__sun=1"], "gc"), ("unix", "solaris", ["__unix__=1", "sun=1"], "gc"),
               ("unix", "freebsd", ["__unix__=1", "__unix=1", "__FreeBSD__=13"], "gc"), ("unix", "other", ["__unix__=1"], "gc"), ("unix", "other", ["__unix=1"], "gco"),
               ("unix", "emscripten", ["__unix__=1", "__unix=1", "__EMSCRIPTEN__=1"], "c"), ("none", "other", [], "gco")]
    gnu = ["__GNUC__=%d", "__GNUC_MINOR__=%d", "__GNUC_PATCHLEVEL__=%d"]
    for kernel, flavour, om, comps in systems:
        for comp in comps:
            name = dict(g="gcc", c="clang", m="msvc", k="clangcl", o="other")[comp]
            cpus = []
            ms = comp in "mk"
            if flavour == "emscripten":
                cpus.append(("wasm", 0, ["__wasm__=1", "__wasm32__=1"], "little"))
            elif ms:
                cpus += [("x86", g, [f"_M_IX86={g}00"], "little") for g in (3, 4, 5, 6)] + \
                    [("x86_64", 0, x, "little") for x in (["_M_AMD64=100", "_M_X64=100"], ["_M_X64=100"], ["_M_AMD64=100"])] + \
                    [("aarch64", 0, ["_M_ARM64=1"], "little"), ("arm", 0, ["_M_ARM=7"], "little")]
            elif comp == "o":
                cpus.append(("other", 0, [], "little"))
            else:
                cpus += [("x86", g, ["__i386__=1"] + x, "little") for g, x in ((3, []), (4, ["__i486__=1"]), (5, ["__i586__=1"]), (6, ["__i686__=1"]))]
                cpus.append(("x86_64", 0, ["__x86_64__=1", "__amd64__=1"], "little"))
                for g, l in ARM.items():
                    for x in l if not ctx.quick else rng.sample(l, 2):
                        for o in ("little", "big"):
                            thumb = rng.choice([[], ["__thumb__=1"], ["__thumb__=1", "__thumb2__=1"]])
                            cpus.append(("arm", g, ["__arm__=1", x + "=1"] + thumb + (["__ARMEB__=1"] if o == "big" else ["__ARMEL__=1"]), o))
                cpus.append(("arm", 0, ["__arm__=1", "__ARMEL__=1"], "little"))
                cpus += [("aarch64", 8, ["__aarch64__=1"] + x, o) for x, o in ((["__AARCH64EL__=1"], "little"), (["__AARCH64EB__=1"], "big"))]
                cpus += [("other", 0, ["__mips__=1"] + x, o) for x, o in ((["__MIPSEB__=1", "_MIPSEB=1"], "big"), (["__MIPSEL__=1"], "little"))]
                cpus += [("other", 0, ["__powerpc64__=1", "__BIG_ENDIAN__=1"], "big"), ("other", 0, ["__riscv=1"], "little"), ("other", 0, ["__s390x__=1"], "big")]
            for cpu, gen, cm, order in cpus:
                if kernel == "windows" and order == "big":
                    continue  # there is none
                for std in (17, 20) if ctx.quick and rng.random() < .7 else STD:
                    v = rng.choice(STD[std])
                    m = om + cm
                    if ms:
                        m = m + [f"_MSC_VER={rng.choice([1900, 1916, 1928, 1929, 1930, 1940])}", f"_MSVC_LANG={max(v, 201402)}L", f"__cplusplus={rng.choice([199711, v])}L"]
                        if comp == "k":
                            m += ["__clang__=1"]
                    else:
                        m = m + [f"__cplusplus={v}L"]
                        if comp != "o":
                            m += [x % y for x, y in zip(gnu, (13, 3, 0) if comp == "g" else (4, 2, 1))]
                        if comp == "c":
                            m += ["__clang__=1", "__clang_major__=18"]
                        # compilers of today define the byte order in general, old ones only the macros of the processor
                        if not ({"__MIPSEB__=1", "__MIPSEL__=1", "__ARMEB__=1", "__ARMEL__=1", "__BIG_ENDIAN__=1", "__AARCH64EL__=1", "__AARCH64EB__=1"} & set(cm)) or rng.random() < .6:
                            o = 1234 if order == "little" else 4321
                            m += ["__ORDER_LITTLE_ENDIAN__=1234", "__ORDER_BIG_ENDIAN__=4321", "__ORDER_PDP_ENDIAN__=3412", f"__BYTE_ORDER__={o}"]
                            if comp == "g":
                                m += [f"__FLOAT_WORD_ORDER__={o}"]
                    yield dict(kernel=kernel, flavour=flavour, compiler=name, std=max(std, 14) if ms and std != 98 else 14 if ms else std,
                               cpu=cpu, order=order, generation=gen), ["-undef"] + ["-D" + x for x in m], "g++"
    # targets with the macros clang itself predefines
    for t, k, f, cpu, o, g in (("x86_64-linux-gnu", "linux", "other", "x86_64", "little", 0), ("i686-linux-gnu", "linux", "other", "x86", "little", 0),
                               ("aarch64-linux-android", "linux", "android", "aarch64", "little", 0), ("armeb-linux-gnueabi", "linux", "other", "arm", "big", 0),
                               ("aarch64_be-linux-gnu", "linux", "other", "aarch64", "big", 0), ("mips-linux-gnu", "linux", "other", "other", "big", 0),
                               ("mips64el-linux-gnu", "linux", "other", "other", "little", 0), ("powerpc64-linux-gnu", "linux", "other", "other", "big", 0),
                               ("riscv64-linux-gnu", "linux", "other", "other", "little", 0), ("s390x-linux-gnu", "linux", "other", "other", "big", 0),
                               ("x86_64-unknown-freebsd13", "unix", "freebsd", "x86_64", "little", 0), ("x86_64-pc-solaris2.11", "unix", "solaris", "x86_64", "little", 0),
                               ("sparcv9-sun-solaris2.11", "unix", "solaris", "other", "big", 0), ("x86_64-unknown-netbsd", "unix", "other", "x86_64", "little", 0),
                               ("wasm32-unknown-emscripten", "unix", "emscripten", "wasm", "little", 0), ("x86_64-w64-mingw32", "windows", "other", "x86_64", "little", 0),
                               ("x86_64-apple-darwin20", "apple", "macosx", "x86_64", "little", 0), ("arm64-apple-macosx12", "apple", "macosx", "aarch64", "little", 0)):
        for std in (98, 11, 14, 17, 20, 23):
            yield dict(kernel=k, flavour=f, compiler="clang", std=std, cpu=cpu, order=o, generation=g), ["--target=" + t, f"-std=c++{std}"], "clang++"
    for t, cpu in (("x86_64-pc-windows-msvc", "x86_64"), ("i686-pc-windows-msvc", "x86")):
        for std in (14, 17, 20):
            yield dict(kernel="windows", flavour="other", compiler="clangcl", std=std, cpu=cpu, order="little", generation=6 if cpu == "x86" else 0), \
                ["--target=" + t, f"-std=c++{std}", "-fms-compatibility-version=19.29"], "clang++"
    for std in (98, 11, 14, 17, 20, 23):
        yield dict(kernel="linux", flavour="other", compiler="gcc", std=std, cpu="x86", order="little", generation=6), ["-m32", "-march=i686", f"-std=c++{std}"], "g++"
        yield dict(kernel="linux", flavour="other", compiler="gcc", std=std, cpu="x86_64", order="little", generation=0), [f"-std=c++{std}"], "g++"


def asker(ctx):
    d = os.path.join(ctx.tmp, "apple")
    os.makedirs(d)
    with open(os.path.join(d, "TargetConditionals.h"), "w") as f:
        f.write("#ifdef VF_IOS\n#define TARGET_OS_IPHONE 1\n#else\n#define TARGET_OS_IPHONE 0\n#endif\n"
                "#ifdef VF_SIMULATOR\n#define TARGET_IPHONE_SIMULATOR 1\n#else\n#define TARGET_IPHONE_SIMULATOR 0\n#endif\n")
    open(os.path.join(d, "Availability.h"), "w").close()
    src = os.path.join(ctx.tmp, "ask.cpp")
    with open(src, "w") as f:
        f.write("#include <utki/config.hpp>\n" + "".join(f"#ifdef {v}\nVF {k} {v}\n#else\nVF {k} (-1)\n#endif\n" for k, v in NAMES.items()))

    def ask(x):
        p, flags, cc = x
        r = subprocess.run([cc, "-E", "-P", "-nostdinc", "-I" + os.path.join(core.REPO, "src"), "-isystem", d, *flags, src], capture_output=True, text=True)
        if r.returncode != 0:
            raise core.Machinery(f"preprocessor fails for {p} {flags}:\n{r.stderr[-1000:]}")
        got = {}
        for line in r.stdout.split("\n"):
            w = line.split()
            if len(w) > 2 and w[0] == "VF":
                try:
                    got[w[1]] = int("".join(w[2:]).strip("()").replace("(", "").replace(")", ""))
                except ValueError:
                    got[w[1]] = -2
        return {"op": "macros", "platform": p, "macros": got}, flags, cc

    return ask


def run(ctx):
    m = ctx.mc_async("ConfigMC")
    exes = ctx.build("config", ["dbg17", "rel20", "clang17", "clang20", "o0-17"])
    asked = parallel(asker(ctx), list(platforms(ctx)))
    lines = ['{"op":"reset","case":0}'] + [json.dumps(e) for e, _, _ in asked]
    ctx.log(f"{len(asked)} platforms")
    with ctx.lock:
        ctx.runs += len(asked)
        ctx.events += len(lines)
    bad = ctx.validate("ConfigTrace", lines)
    ctx.extra["platforms"] = len(asked)
    ctx.samples += [e for e, _, _ in asked[:: max(1, len(asked) // 3)]][:3]
    if bad is not None:
        e, flags, cc = asked[bad - 1]
        ctx.violation({"module": "ConfigTrace", "rejected_event": json.dumps(e), "compiler": cc, "flags": flags})
        m.cancel()
        return
    ctx.traces += len(asked)
    ctx.distinct += len(asked)
    ctx.conform(exes, [["self"]], "ConfigTrace")
    m.result()


def parallel(f, xs):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        return list(ex.map(f, xs))


def replay(ctx, d):
    e, _, _ = asker(ctx)((json.loads(d["rejected_event"])["platform"], d["flags"], d["compiler"]))
    print(json.dumps(e))
    return ctx.validate("ConfigTrace", ['{"op":"reset","case":0}', json.dumps(e)]) is None
