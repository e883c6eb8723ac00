"""C18: bit sets."""
import json
from core import *
import filters, huge


def runs(rng, n):
    """Bits set at the start, as first and last of each run: all, none, or any."""
    k = rng.randrange(4)
    if not n or k == 0:
        return []
    if k == 1:
        return [0, n - 1]
    out, i = [], 0
    while i < n:
        j = min(n - 1, i + rng.randrange(1 + rng.choice([1, 3, 10])))
        out += [i, j]
        i = j + 2 + rng.randrange(rng.choice([1, 4, 10]))
    return out


def concretise(rng, script, i):
    kind = rng.choice(["array", "vec", "vec", "from"])
    if kind == "array":
        n = n2 = 8 * rng.choice([1, 1, 2, 3, 8, 17, 64, 4096, 10000])
    elif kind == "vec":
        n = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 1000, 32768, 65536, 100003, rng.randrange(2000)])
        n2 = n if rng.random() < .8 else rng.choice([0, 1, 8, 16, n + 1, n + 8])
    else:
        n = 8 * rng.choice([0, 1, 2, 9, 100])
        n2 = n if rng.random() < .8 else n + 8
    init, init2 = (runs(rng, n), runs(rng, n2)) if kind == "from" else ([], [])
    size = (n + 7) // 8 * 8
    where = [0, 1, max(size - 1, 0), size, rng.randrange(size + 1), rng.randrange(size + 9), rng.choice([size + 7, size + 64, 2 ** 32, 2 ** 63, 2 ** 64 - 1]),
             8 * rng.randrange(size // 8 + 1) + rng.choice([0, 7])]
    ops = [dict(o, real=str(where[o["i"] - 1]), val=rng.choice([0, 1, 128, 255, rng.randrange(256)])) for o in script]
    return {"id": i, "kind": kind, "n": n, "n2": n2, "init": init, "init2": init2, "ops": ops}


def each_bit(kind, n, i):
    """Every index of a size: set, set again, unset, unset again."""
    ops = []
    for k in range(n + 3):
        for op in ("set", "set", "get", "unset", "unset", "get", "set"):
            ops.append({"op": op, "s": 1, "o": 2, "i": 0, "real": str(k)})
    ops += [{"op": "inter", "s": 1, "o": 2, "i": 0, "real": "0"}]
    return {"id": i, "kind": kind, "n": n, "n2": n, "init": [], "init2": [], "ops": ops}


def vast(rng, script, i):
    """More than 2^32 bits, almost all of them in a gap that is not used; outside of it the model counts on."""
    gap, low = 8 * rng.choice([2 ** 29, 2 ** 28, 2 ** 29 + 12345]), 4096
    n = low + rng.choice([64, 1000, 4096 + 8 * rng.randrange(1000)])
    at = lambda k: k if k < low else k + gap
    where = [0, 1, low - 1, low, n - 1, rng.randrange(low), rng.randrange(low, n), n]
    ops = [dict(o, real=str(at(where[o["i"] - 1])), val=rng.randrange(256)) for o in script]
    return {"id": i, "kind": "vec", "n": n, "n2": n, "gap": gap, "init": [], "init2": [], "ops": ops}


def run(ctx):
    rng = ctx.rng
    ctx.mc("MCBits", {"Width": 2, "Sizes": "{0, 1, 2}"}, spec="MSpec", invariants=["Refines"])
    ctx.prove("ProofBits")
    if not ctx.quick:
        ctx.mc("MCBits", {"Width": 3, "Sizes": "{1, 2}"}, spec="MSpec", invariants=["Refines"])
    depth = 30
    scripts = ctx.generate("GenBits", {"Idx": tla_set(range(1, 9)), "Depth": depth}, 120 if ctx.quick else 1500, depth)
    sc = [concretise(rng, s, i) for i, s in enumerate(scripts * 3)]
    sc += [each_bit("vec", n, 10 ** 6 + n) for n in (0, 1, 7, 8, 9, 30)] + [each_bit("array", n, 2 * 10 ** 6 + n) for n in (8, 16, 24)]
    groups = ctx.harness("bits", sc)
    if huge.available() >= 12000:
        far = [vast(rng, s[:10] if ctx.quick else s, 3 * 10 ** 6 + i) for i, s in enumerate(scripts[:3 if ctx.quick else 12])]
        sc += far
        groups += ctx.harness("bits", far, shards=3, release=True, limit_as=8 << 30)
    else:
        ctx.assumptions.append("sets of more than 2^32 bits were left out, less than 12 GB of memory are available")
    rej = ctx.validate("TraceBits", groups)
    filters.report(ctx, rej, sc, groups, "bits")
    filters.demonstrate(ctx, groups, "TraceBits", ("set", lambda e: e["post"].update({"zeros": e["post"]["zeros"] + 1}) or True))
    ctx.samples = [{"scenario": {k: v for k, v in sc[0].items() if k != "ops"}, "events": groups[0][:5]}]
    ctx.assumptions += ["array sizes are 1, 2, 3, 8, 17, 64, 4096 and 10000 bytes, vector sizes up to 100003 bits and of a few up to 2^32 + 108000 bits"]
