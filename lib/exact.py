"""C09: the saved bytes and bit positions, against the model with the real hash functions."""
import json
from core import *
import filters, huge
from filters import hexf, rbytes, HOWS

P = [1.0, 0.99, 0.9, 0.8, 0.75, 0.6, 0.5, 0.3, 0.25, 0.1, 0.05, 0.02, 0.01, 0.001, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12, 1e-30, 1e-100, 1e-300]


def config(rng):
    p = rng.choice(P)
    cap = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, rng.randrange(1, 300), rng.randrange(1, 3000), rng.randrange(1, 40000)])
    if p < 1e-50:
        cap = min(cap, rng.choice([40, 90]))
    elif p < 1e-20:
        cap = min(cap, 900)
    elif cap > 5000 and p < 1e-5:
        p = 0.001
    return {"v": rng.choice([1, 2, 2, 2]), "cap": cap, "fpp": hexf(p), "opt": rng.randrange(4)}


def variant(rng, c):
    d = dict(c)
    k = rng.randrange(5)
    if k == 0:
        d["v"] = 3 - d["v"]
    elif k == 1:
        d["cap"] += rng.choice([1, -1]) if d["cap"] else 1
    elif k == 2:
        d["fpp"] = hexf(rng.choice([p for p in P if p > 1e-20]))
        d["cap"] = min(d["cap"], 3000)
    elif k == 3:
        d["opt"] = (d["opt"] + rng.randrange(1, 4)) % 4
    return d


def pool(rng, n):
    k = rng.randrange(4)
    if rng.random() < .04:
        return pool(rng, n - 1) + [rbytes(rng, rng.choice([1000, 1024, 2048, 2500, 4097]))]
    if k == 0:
        return [rbytes(rng, i) for i in range(n)]
    if k == 1:
        base = rng.choice([9, 16, 24, 32, 40, 56, 60, 64, 96, 120, 128, 190, 250])
        return [rbytes(rng, base + i) for i in range(n)]
    return [rbytes(rng, rng.choice([rng.randrange(9), rng.randrange(9, 70), rng.randrange(70, 400)])) if rng.random() < .7
            else bytes([rng.choice([0, 255, 128, 127])]) * rng.randrange(1, 80) for _ in range(n)]


def concretise(rng, script, i):
    c = config(rng)
    n = 14
    ops, slots = [], set()
    for o in script:
        o = dict(o)
        if o["op"] in HOWS:
            o["how"] = rng.choice([h for h in HOWS[o["op"]]])
        if o["op"] == "setdata":
            o["d"] = rng.choice([0, 1, 2, 5])
        if o["op"] == "insert":
            for _ in range(rng.randrange(1, 3)):
                ops.append(dict(o, e=rng.randrange(1, n + 1), how=rng.choice(HOWS["insert"])))
            continue
        if o["op"] in ("contains",):
            o["e"] = rng.randrange(1, n + 1)
        ops.append(o)
        if o["op"] == "create":
            slots.add(o["s"])
        if o["op"] == "clone":
            slots.add(o["o"])
    ops += [{"op": "image", "s": s} for s in sorted(slots)]
    return {"id": i, "cfgs": [c, variant(rng, c)], "pool": [e.hex() for e in pool(rng, n)], "ops": ops, "raw": True, "seed": 1, "extra": 0}


def single(rng, i, c):
    """One filter, many entries, what it saves."""
    n = 24
    ops = [{"op": "create", "s": 1, "c": 1}]
    ops += [{"op": "insert", "s": 1, "e": e, "how": rng.choice(HOWS["insert"])} for e in range(1, n - 3)]
    ops += [{"op": "setdata", "s": 1, "d": rng.choice([0, 1, 2, 5])}, {"op": "image", "s": 1}, {"op": "load", "s": 1, "how": "gen"}, {"op": "image", "s": 1}]
    return {"id": i, "cfgs": [c], "pool": [e.hex() for e in pool(rng, n)], "ops": ops, "raw": True, "seed": 1, "extra": 0}


TYPES = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
         "ou8", "ou32", "oi64", "ou128", "ostr", "pair", "record"]


def value(rng, ty):
    if ty in ("ostr", "record"):
        return "none" if ty == "ostr" and rng.random() < .15 else "".join(rng.choice("abcé 01") for _ in range(rng.randrange(40)))
    if ty[0] == "o" and rng.random() < .15:
        return "none"
    return str(rng.choice([0, 1, -1, 2, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, -2 ** 63, 2 ** 64 + 3, rng.randrange(-2 ** 100, 2 ** 100), rng.randrange(300)]))


def typed(rng, i):
    """Values of many types in one filter, mixed with byte strings that look like them."""
    c = config(rng)
    c["v"] = 2
    pl = pool(rng, 6) + [b"\1", b"\1\0", (1).to_bytes(4, "little"), (1).to_bytes(8, "little"), (1).to_bytes(16, "little"), b""]
    ops = [{"op": "create", "s": 1, "c": 1}, {"op": "spent", "s": 1}]
    vals = [(t, value(rng, t)) for t in rng.sample(TYPES, 9)] + [(t, "1") for t in rng.sample(TYPES, 5)]
    for t, v in vals:
        k = rng.random()
        if k < .55:
            ops.append({"op": "tinsert", "s": 1, "ty": t, "val": v})
        if k > .35:
            ops.append({"op": "tcontains", "s": 1, "ty": t, "val": v})
        if rng.random() < .3:
            ops.append({"op": "tcontains", "s": 1, "ty": rng.choice(TYPES), "val": v})
        if rng.random() < .3:
            ops.append({"op": "insert", "s": 1, "e": rng.randrange(1, 13), "how": rng.choice(HOWS["insert"])})
    ops += [{"op": "spent", "s": 1}, {"op": "load", "s": 1, "how": "gen"}]
    ops += [{"op": "tcontains", "s": 1, "ty": t, "val": v} for t, v in vals] + [{"op": "image", "s": 1}]
    return {"id": i, "cfgs": [c], "pool": [e.hex() for e in pl], "ops": ops, "raw": True, "seed": 1, "extra": 0}


def run_typed(ctx):
    sc = [typed(ctx.rng, i) for i in range(80 if ctx.quick else 1000)]
    groups = ctx.harness("script", sc)
    rej = ctx.validate("TraceExact", groups)
    filters.report(ctx, rej, sc, groups)
    ctx.extra["typed_values"] = sum(e["op"] in ("tinsert", "tcontains") for g in groups for e in g)


def saturated(rng, i):
    """A filter of a few bits, all of them set: the estimate after a union has no finite value."""
    c = {"v": 1, "cap": rng.choice([64, 30, 20, 10]), "fpp": hexf(rng.choice([0.99, 0.9])), "opt": 0}
    n = 14
    ops = [{"op": "create", "s": 1, "c": 1}, {"op": "create", "s": 2, "c": 1}]
    ops += [{"op": "insert", "s": e % 2 + 1, "e": e, "how": rng.choice(HOWS["insert"])} for e in range(1, n + 1)]
    ops += [{"op": "union", "s": 1, "o": 2, "how": "gen"}, {"op": "image", "s": 1}, {"op": "load", "s": 1, "how": "gen"}, {"op": "image", "s": 1},
            {"op": "insert", "s": 1, "e": 1, "how": "bytes"}, {"op": "clear", "s": 1}, {"op": "image", "s": 1}]
    return {"id": i, "cfgs": [c], "pool": [rbytes(rng, 12).hex() for _ in range(n)], "ops": ops, "raw": True, "seed": 1, "extra": 0}


def run(ctx):
    rng = ctx.rng
    # the arithmetic and the hash functions of the specification itself
    ctx.mc("MCHash", {"Limbs": "{1, 255}" if ctx.quick else "{1, 2, 3, 127, 128, 129, 254, 255}"}, invariants=["Laws"])
    n, depth = (160, 14) if ctx.quick else (800, 20)
    scripts = ctx.generate("GenBloom", filters.gen_consts(
        ["insert", "insert", "union", "inter", "clone", "create", "clear", "load", "setdata", "contains"], depth), n, depth)
    sc = [concretise(rng, s, i) for i, s in enumerate(scripts)]
    sc += [single(rng, len(sc) + i, config(rng)) for i in range(300 if ctx.quick else 1500)]
    sc += [saturated(rng, len(sc) + i) for i in range(6)]
    # the layout alone, of many configurations
    for i in range(8 if ctx.quick else 60):
        cfgs = [config(rng) for _ in range(40)]
        sc.append({"id": len(sc), "cfgs": cfgs, "pool": ["61"], "ops": [{"op": "create", "s": 1, "c": j + 1} for j in range(40)], "raw": True})
    groups = ctx.harness("script", sc)
    rej = ctx.validate("TraceExact", groups)
    filters.report(ctx, rej, sc, groups)
    filters.demonstrate(ctx, groups, "TraceExact", ("image", lambda e: e["nz"][-1].__setitem__(1, e["nz"][-1][1] ^ 1) or True if e["nz"] else None))
    huge.run(ctx)
    ctx.samples = [{"scenario": {k: sc[0][k] for k in ("cfgs", "pool")}, "events": filters.sample(groups[0])[-4:]}]
    ctx.extra["configurations"] = len({json.dumps(c, sort_keys=True) for s in sc for c in s["cfgs"]})
    ctx.assumptions += [
        "the published hash functions are FNV-1 and wyhash as written out in spec/PoppyHash.tla",
        "probabilities are taken from a grid (spec/SizeTable.tla), capacities are arbitrary up to 40000, and some of up to 5000000000"]
