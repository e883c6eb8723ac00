"""C12: the false positive probability."""
import json
from core import *
import filters
from filters import hexf

P = [0.5, 0.3, 0.25, 0.1, 0.05, 0.02, 0.01, 0.001, 1e-4, 1e-5, 1e-6]
# inputs for which the promise is known not to be kept (known-findings.txt)
KNOWN = {"cap=65537,p=0.0001,opt=3": (65537, 1e-4, 3), "cap=33000,p=1e-06,opt=2": (33000, 1e-6, 2), "cap=5000,p=1e-30,opt=0": (5000, 1e-30, 0)}


def scenario(rng, i, cap, p, opt, q, **kw):
    return dict({"id": i, "cfg": {"v": 2, "cap": cap, "fpp": hexf(p), "opt": opt}, "n": cap, "q": q, "len": rng.choice([9, 12, 16, 20, 32, 40, 64]),
                 "look": rng.choice(["plain", "hex", "begin", "end", "middle"]), "near": 1, "seed": rng.randrange(2 ** 32), "path": rng.choice(["direct", "cleared", "union", "reloaded"])}, **kw)


def run(ctx):
    rng = ctx.rng
    caps = {1, 2, 3, 8, 50, 200, 1024, 1025, 2279, 2280, 3418, 3419, 8192, 20000, 32769}
    while len(caps) < (25 if ctx.quick else 50):
        caps.add(rng.choice([rng.randrange(1, 100), rng.randrange(100, 4000), rng.randrange(4000, 25000), rng.randrange(25000, 45000)]))
    consts = {"Caps": tla_set(sorted(caps)), "Overfull": 0}
    out = ctx.mc("MCRate", consts, invariants=["KeptPlain", "Emit"], workers=1)
    weak = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"SCRIPT ')]
    weak = {(w["cap"], w["opt"], w["p"]) for w in weak}
    ctx.mc("MCRate", dict(consts, Overfull=30), invariants=["KeptOverfull"], expect_error="KeptOverfull is violated")
    sc = []
    for cap in sorted(caps):
        for opt in range(4):
            for p in rng.sample(P, 3 if ctx.quick else len(P)):
                if (cap, opt, hexf(p)) in weak:
                    continue
                q = int(min(400_000 if ctx.quick else 4_000_000, max(20_000, 4000 / p)))
                if p < 1e-5 and rng.random() < .1:
                    q = 4_000_000
                sc.append(scenario(rng, len(sc), cap, p, opt, q))
    groups = ctx.harness("rate", sc, release=True, timeout=3000)
    rej = ctx.validate("TraceRate", groups)
    filters.report(ctx, rej, sc, groups, "rate")
    filters.demonstrate(ctx, groups, "TraceRate", ("rate", lambda e: e["fpp"] in (hexf(0.01), hexf(0.1), hexf(0.3)) and e.update({"fp": e["q"] // 2})))
    # the known ones
    known = sorted(KNOWN)
    ks = [scenario(rng, i, *KNOWN[k], q=100_000, path="direct", len=16, look="plain", near=0) for i, k in enumerate(known)]
    kg = ctx.harness("rate", ks, release=True)
    for i in range(len(ks)):
        for r in ctx.validate("TraceRate", [kg[i]], shards=1):
            if r[3] != ["rate following from the bits set"] and set(r[3]) - {"rate following from the bits set", "measured rate"} or \
                    not ctx.known_finding(known[i], "a filter with %s filled to capacity has a higher false positive rate than promised" % known[i]):
                filters.report(ctx, [(i,) + r[1:]], ks, kg, "rate")
    ctx.samples = [{"scenario": sc[i], "event": {k: v for k, v in groups[i][-1].items() if k != "occ"}} for i in (0, len(sc) // 2, -1)]
    ctx.extra.update(measured=len(sc), queries=sum(s["q"] for s in sc), layouts_not_keeping_the_promise=len(weak))
    ctx.assumptions += ["probabilities of 1e-6 and above (lower ones: see the known findings)", "levels 2 and 3 only where their layout keeps the promise (see the known findings)",
                        "entries longer than 8 bytes", "sampling error of four standard deviations"]
