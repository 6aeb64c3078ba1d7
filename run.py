#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   decide one property
   run.py --replay <file>                       run the case of a reported violation again"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = core.Ctx(a[0], tier, seed)
    try:
        importlib.import_module("checks." + a[0]).run(ctx)
        rc = ctx.finish()
    except core.ApiBroken as e:
        # code that uses the API as documented is rejected by the compiler: the property does not hold for that use
        ctx.violation(e.info)
        rc = ctx.finish()
    except core.Machinery as e:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("CHECK-ERROR:", e, flush=True)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    ctx.log("exit", rc)
    sys.stdout.flush()
    os._exit(rc)


def replay(path):
    d = json.load(open(path))
    ctx = core.Ctx(d["property"], "quick", 1)
    if "driver" not in d:
        ok = importlib.import_module("checks." + d["property"]).replay(ctx, d)
        print("accepted" if ok else "rejected")
        ctx.close()
        os._exit(0 if ok else 1)
    try:
        exe = ctx.driver(d["driver"], d["config"])
    except core.ApiBroken as e:
        print("does not compile:", e.info["stderr"])
        os._exit(1)
    cases = d["cases"] if d.get("cases") else [(0, d["case"][0])]
    lines, err = ctx.run_script(exe, cases, args=d.get("args", []), env=d.get("env"))
    print("\n".join(lines), err)
    bad = ctx.validate(d["module"], lines)
    print("accepted" if bad is None else f"rejected at event {bad}: {lines[bad]}")
    ctx.close()
    os._exit(0 if bad is None else 1)


if __name__ == "__main__":
    main()
