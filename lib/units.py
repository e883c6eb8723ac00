"""C24: sizes, counters and time measurement."""
from core import *
import filters


def run(ctx):
    rng = ctx.rng
    st, out = tlc("GenUnits", cfg_text({"Depth": 5 if ctx.quick else 7}, invariants=["Emit", "Sane"]), tmp=ctx.tmp)
    if "No error" not in out:
        raise ToolError("GenUnits:\n" + out[-3000:])
    sc = sorted((json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"SCRIPT ')), key=lambda c: json.dumps(c, sort_keys=True))
    ctx.states += len(sc)
    ctx.transitions += len(sc)
    ctx.log("%d cases from GenUnits" % len(sc))
    # any sizes
    for _ in range(600 if ctx.quick else 6000):
        e = rng.randrange(54)
        sc.append({"op": "size", "e": e, "d": rng.randrange(2 ** e), "how": rng.choice(["bytes", "bits", "mb"])})
        f = rng.choice([e, rng.randrange(54)])
        sc.append({"op": "pair", "e": e, "d": rng.randrange(2 ** e), "e2": f, "d2": rng.randrange(2 ** f)})
    sc += [{"op": "size", "e": 0, "d": n - 1, "how": h} for n in (2 ** 63, 2 ** 64 - 1, 2 ** 44 - 1, 2 ** 44, 2 ** 44 + 1, 2 ** 56) for h in ("bytes", "bits", "mb")]
    if ctx.quick:
        counts = [s for s in sc if s["op"] == "count"]
        sc = [s for s in sc if s["op"] != "count"] + [s for s in counts if len(s["incs"]) < 5] + rng.sample([s for s in counts if len(s["incs"]) >= 5], 100)
    for i, s in enumerate(sc):
        s["id"] = i
        if "e" in s:
            s["num"] = str(2 ** s["e"] + s["d"])
        if "e2" in s:
            s["num2"] = str(2 ** s["e2"] + s["d2"])
            s["as"] = rng.random() < .5
        for k in ("e", "d", "e2", "d2"):
            s.pop(k, None)
    groups = ctx.harness("units", sc)
    rej = ctx.validate("TraceUnits", groups)
    filters.report(ctx, rej, sc, groups, "units")
    filters.demonstrate(ctx, groups, "TraceUnits", ("size", lambda e: e.update(unit="TB")))
    ctx.samples = groups[:3]
    ctx.extra["cases"] = len(sc)
    ctx.assumptions += ["values of sizes from 2^53 bytes are rounded, and not compared", "measured times are only bounded from both sides"]
