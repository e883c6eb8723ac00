"""C23: what a DCSO filter says about itself."""
from core import *
import filters
from filters import concretise, gen_consts, hexf, HOWS, pool

OPS = ["insert", "union", "clear", "load", "partial", "clone", "create", "setdata", "contains"]


def fills(ctx, n):
    """Filters filled step by step up to capacity, united beyond it, and with any number of entries."""
    rng, out = ctx.rng, []
    for i in range(n):
        cap = rng.choice([1, 2, 5, 30, 64, 100, 500, 2000])
        ln = rng.choice([9, 16, 33])
        c = {"v": 1, "cap": cap, "fpp": hexf(rng.choice([0.9, 0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 1e-6])), "opt": 0}
        B = lambda s, a, n: {"op": "bulk", "s": s, "from": a, "n": n, "len": ln, "how": rng.choice(["bytes", "spec"])}
        ops = [{"op": "create", "s": 1, "c": 1}, {"op": "create", "s": 2, "c": 1}]
        part = max(1, cap // 5)
        ops += [B(1, k * part, part) for k in range(6)]
        ops += [B(2, 10 ** 6, cap), {"op": "partial", "s": 1, "how": rng.choice(HOWS["partial"])}, {"op": "union", "s": 1, "o": 2, "how": rng.choice(["gen", "spec"])},
                {"op": "load", "s": 1, "how": rng.choice(HOWS["load"])}, {"op": "partial", "s": 1, "how": "gen"}, {"op": "clear", "s": 2, "how": rng.choice(HOWS["clear"])}]
        if rng.random() < .5:
            ops += [{"op": "forge", "s": 1, "every": 1, "keep": rng.choice([0, 3, 100]), "cnt": rng.choice([0, 1, cap, 3 * cap, 100 * cap, 10 ** 6, 2 ** 40, 2 ** 64 - 1])}]
        out.append({"id": 10 ** 6 + i, "cfgs": [c], "pool": [e.hex() for e in pool(rng)], "ops": ops, "seed": rng.randrange(2 ** 32), "desc": True})
    return out


def run(ctx):
    rng = ctx.rng
    ctx.mc("MCDescribe", {"MaxCap": 3000 if ctx.quick else 9000}, spec="Spec", invariants=["AsPromised", "FewerLess", "MoreMore"])
    n, depth = (120, 16) if ctx.quick else (1200, 30)
    sc = [dict(concretise(rng, s, i, versions=(1,), caps=[0, 1, 2, 3, 10, 100, 1000], fpps=filters.FPPS[:14], fill=0.5), desc=True)
          for i, s in enumerate(ctx.generate("GenBloom", gen_consts(OPS, depth), n, depth, procs=4))]
    sc += fills(ctx, 60 if ctx.quick else 600)
    groups = ctx.harness("script", sc)
    rej = ctx.validate("TraceDescribe", groups)
    filters.report(ctx, rej, sc, groups, "script")
    filters.demonstrate(ctx, groups, "TraceDescribe", ("bulk", lambda e: e["post"]["v"] == 1 and "nbits" in e["post"]["desc"] and e["post"]["desc"].update(nbits=e["post"]["desc"]["nbits"] + 1)))
    ctx.samples = [{"scenario": {k: sc[0][k] for k in ("cfgs", "pool")}, "events": filters.sample(groups[0])}]
    ctx.assumptions += ["the estimated probability is compared with one computed with 15 bits"]
