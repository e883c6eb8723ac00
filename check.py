#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decides one property on /repo's working tree."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, filters

MODULES = {"filters": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C19", "C20"],
           "exact": ["C09"], "bitsets": ["C18"], "loading": ["C10"], "faults": ["C11"], "params": ["C13"], "rates": ["C12"],
           "cli": ["C14", "C15", "C16", "C21"], "twins": ["C17"], "options": ["C22"], "describe": ["C23"], "units": ["C24"]}

# which specification validates what the harness records in a mode
TRACE = {"script": "TraceFilter", "bits": "TraceBits", "load": "TraceFormat", "fault": "TraceFault", "params": "TraceParams", "rate": "TraceRate", "units": "TraceUnits", "large": "TraceLarge"}

# property -> remark on the strength of its check
NOTES = {}
NOT_APPLICABLE = []


def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == "setup":
        core.build_harness()
        core.build_harness(release=True)
        core.build_repo()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    again = None
    if "--replay" in a:
        with open(a[a.index("--replay") + 1]) as f:
            again = json.load(f)
        tier, seed = again["tier"], again["seed"]
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = __import__([m for m, ps in MODULES.items() if prop in ps][0])
        mode = again and again["replay"]["mode"]
        if mode in TRACE:
            # the one scenario
            sc = [again["replay"]["scenario"]]
            groups = ctx.harness(mode, sc, release=mode == "rate", limit_as=(8 if mode == "large" else 6) << 30)
            rej = ctx.validate(TRACE[mode] if mode != "script" else {"C09": "TraceExact", "C23": "TraceDescribe"}.get(prop) or TRACE[mode], groups)
            filters.report(ctx, rej, sc, groups, mode)
        else:
            # with the same seed everything is done again
            mod.run(ctx)
        return ctx.finish()
    except core.ToolError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        if ctx.violations:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
