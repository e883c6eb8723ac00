"""Checks of the filter operations: C01 to C08, C19, C20."""
import json, struct
from core import *

FPPS = [1.0, 0.99, 0.9, 0.8, 0.75, 0.6, 0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 1e-4, 1e-9, 1e-30, 1e-300]
CAPS = [0, 1, 1, 2, 2, 3, 4, 10, 100, 1000, 5000]
# configurations with several regions
MULTI = [(5000, 1e-9), (3000, 1e-9), (1000, 1e-30), (700, 1e-30), (5000, 0.001), (30, 1e-300), (9000, 0.01)]
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 96, 100, 128, 200]


def hexf(x):
    return struct.pack(">d", x).hex()


def config(rng, caps=CAPS, fpps=FPPS, versions=(1, 2, 2, 2)):
    v = rng.choice(versions)
    cap = rng.choice(caps)
    fpp = rng.choice(fpps)
    if fpp < 1e-100 and cap > 30 or fpp < 1e-20 and cap > 1000:
        fpp = 0.001
    if cap > 10 and rng.random() < 0.6:
        cap, fpp = rng.choice(MULTI)
    return {"v": v, "cap": cap, "fpp": hexf(fpp), "opt": rng.randrange(4)}


def variant(rng, c):
    """A configuration that differs in one parameter, now and then in none."""
    d = dict(c)
    k = rng.randrange(6)
    if k == 0:
        d["v"] = 3 - d["v"]
    elif k == 1:
        d["cap"] += 1
    elif k == 2:
        f = struct.unpack(">d", bytes.fromhex(d["fpp"]))[0]
        d["fpp"] = hexf(f * 0.999999999)
    elif k == 3:
        f = struct.unpack(">d", bytes.fromhex(d["fpp"]))[0]
        d["fpp"] = hexf(f / 2)
    elif k == 4:
        d["opt"] = (d["opt"] + rng.randrange(1, 4)) % 4
    return d


def rbytes(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def pool(rng, n=6):
    """Entries with collisions of all degrees, all length classes, text and binary."""
    k = rng.randrange(4)
    if k == 0:    # short integers sharing their first bit (and all of it when there is one)
        base = rng.randrange(2 ** 40)
        p = [struct.pack("<Q", base + 32768 * rng.randrange(1, 50) * i) for i in range(n - 2)]
        p += [struct.pack("<Q", base + 1), rbytes(rng, 9)]
    elif k == 1:  # prefixes, zero padding
        s = bytes(rng.choice(b"abcxyz") for _ in range(3))
        p = [s, s + b"\0", s + b"\0" * 6, b"", s + b"\0" * 5, s * 4][:n]
        p += [rbytes(rng, rng.choice(LENS)) for _ in range(n - len(p))]
    elif k == 2:  # text
        p = []
        while len(p) < n:
            p.append("".join(rng.choice("abcdefghé߀ 019") for _ in range(rng.choice(LENS))).encode())
    else:
        p = [rbytes(rng, rng.choice(LENS)) for _ in range(n)]
    if rng.random() < .1:  # one much longer than the others
        p[rng.randrange(n)] = rng.choice([rbytes(rng, 3), b"long", "ß".encode()]) * rng.choice([100, 300, 1366, 5000, 25000])
    return p[:n]


HOWS = {
    "insert": ["bytes", "bytes", "spec", "vec", "slice", "iter", "iter2", "str", "string", "strref", "striter", "owned", "fill"],
    "contains": ["bytes", "spec", "vec", "slice", "iter", "iter2", "str", "string", "strref", "striter", "owned"],
    "union": ["gen", "spec", "consume"],
    "inter": ["merge", "consume"],
    "common": ["gen", "spec"],
    "clear": ["gen", "spec"],
    "load": ["gen", "spec", "chunk1", "chunk7", "spec13", "chunk4095"],
    "partial": ["gen", "chunk1", "chunk7"],
    "save": ["gen", "spec", "chunk1", "chunk7"],
}


def concretise(rng, script, i, cfgs=None, ref=False, raw=False, caps=CAPS, fpps=FPPS, versions=(1, 2, 2, 2), forge=False, fill=0.0, data=0.2):
    c = cfgs or config(rng, caps, fpps, versions)
    ops = []
    ln = rng.choice([9, 16, 33])
    for o in script:
        o = dict(o)
        if o["op"] in HOWS:
            o["how"] = rng.choice(HOWS[o["op"]])
        if o["op"] == "setdata":
            o["d"] = rng.choice([0, 1, 2, 3, 4, 4, 5])
        ops.append(o)
        if o["op"] == "create" and rng.random() < data:
            ops.append({"op": "setdata", "s": o["s"], "d": rng.choice([1, 2, 3, 4, 4, 5])})
        if fill and o["op"] == "create" and rng.random() < fill:
            # a filter that is already in use, overlapping with the others
            ops.append({"op": "bulk", "s": o["s"], "from": rng.randrange(12), "n": rng.randrange(1, 24), "len": ln,
                        "how": rng.choice(HOWS["insert"][:7])})
        if forge and o["op"] == "create" and rng.random() < 0.3:
            f = {"op": "forge", "s": o["s"], "every": rng.choice([1, 2, 3]), "keep": rng.choice([0, 0, 1, 7, 100, 2000, 4000])}
            if rng.random() < 0.3:
                f["cnt"] = rng.choice([0, 1, 5, 2 ** 40, 2 ** 64 - 1])
            ops.append(f)
    return {"id": i, "cfgs": [c, variant(rng, c)], "pool": [e.hex() for e in pool(rng)], "ops": ops, "ref": ref, "raw": raw,
            "seed": rng.randrange(2 ** 32)}


def bulk(rng, i, cap, fpp, v, opt, over=20, clear=False, setdata=False):
    """Fill to capacity and beyond, through union and reload, with sweeps over everything inserted."""
    ln = rng.choice([9, 12, 16, 20, 32, 33, 64, 65])
    h = cap // 2
    ops = [{"op": "create", "s": 1, "c": 1}, {"op": "create", "s": 2, "c": 1}]
    B = lambda s, a, n: {"op": "bulk", "s": s, "from": a, "n": n, "len": ln, "how": rng.choice(["bytes", "spec", "iter", "vec"])}
    S = lambda s, a, n: {"op": "sweep", "s": s, "from": a, "n": n, "len": ln, "how": rng.choice(["bytes", "spec", "iter", "vec"])}
    ops += [B(1, 0, h), S(1, 0, h), B(2, h, cap - h), S(2, h, cap - h)]
    if clear:
        ops += [{"op": "clear", "s": 2}, B(2, h, cap - h), S(2, h, cap - h)]
    ops += [{"op": "clone", "s": 2, "o": 3}, {"op": "union", "s": 3, "o": 1, "how": "gen"}, S(3, 0, cap)]
    ops += [{"op": "load", "s": 1, "how": "gen"}, S(1, 0, h), B(1, h, cap - h + over), S(1, 0, cap - cap // 20)]
    ops += [{"op": "union", "s": 2, "o": 1, "how": "spec"}, S(2, 0, cap - cap // 20), B(2, 0, 50), B(2, 10 ** 7, over)]
    ops += [{"op": "load", "s": 2, "how": "spec"}, S(2, 0, cap - cap // 20)]
    if v == 2:
        ops += [{"op": "inter", "s": 2, "o": 1, "how": "merge"}, S(2, 0, cap - cap // 20)]
    return {"id": i, "cfgs": [{"v": v, "cap": cap, "fpp": hexf(fpp), "opt": opt}], "pool": ["61"], "ops": ops, "lite": True,
            "seed": rng.randrange(2 ** 32), "extra": 5}


ALL = ["insert", "contains", "union", "inter", "common", "clone", "create", "clear", "load", "partial", "save", "setdata"]
# which operations the scripts for a property are made of, and the slots/entries
OPS = {
    "C01": ["insert", "union", "inter", "clone", "load", "clear"],
    "C02": ["insert", "insert", "union", "clear", "load", "contains", "inter"],
    "C03": ["insert", "union", "load", "clear"],
    "C04": ["insert", "union", "inter", "common", "contains", "clone", "create", "save", "partial"],
    "C05": ["insert", "union", "clone", "create", "load", "setdata"],
    "C06": ["insert", "inter", "union", "clone", "create", "setdata"],
    "C07": ["insert", "clear", "union", "load", "setdata"],
    "C08": ["insert", "load", "partial", "save", "setdata", "union", "clear"],
    "C19": ["insert", "union", "inter", "common", "clone"],
    "C20": ["insert", "contains", "clone"],
}


# share of scenarios with very small capacity, where filters get full
SMALL = {"C02": 0.6, "C03": 0.8, "C04": 0.8, "C06": 0.3, "C19": 0.3}


def gen_consts(ops, depth, entries=5, cap=2):
    return {"Entries": tla_set(range(1, entries + 1)), "Slots": "{1, 2, 3}", "Regions": 1, "RegionBits": 3, "K": 1, "CacheBits": "{0}",
            "Caps": "{%d}" % cap, "MaxCnt": 3, "Datas": tla_set(["none", "some"]), "Check": "{}", "Depth": depth,
            "Ops": tla_set(sorted(set(ops)))}


def model(ctx):
    """The operational model meets the clauses of the property, for all hash functions in scope."""
    p = ctx.prop
    base = {"Entries": "{1, 2}", "Slots": "{1, 2}", "Regions": 1, "RegionBits": 2, "K": 2, "CacheBits": "{0, 2}",
            "Caps": "{0, 1, 2}", "MaxCnt": 3, "Datas": tla_set(["none"]), "Check": tla_set([p])}
    inv = ["NoFalseNegative", "Shape", "NothingFromNothing"]
    if p in ("C07", "C08"):
        base.update(Datas=tla_set(["none", "some"]), Caps="{1}")
    ctx.mc("MCBloom", base, invariants=inv)
    two = dict(base, Regions=2, K=1, CacheBits="{0}", Caps="{1}", Datas=tla_set(["none"]))
    ctx.mc("MCBloom", two, invariants=inv)
    if not ctx.quick:
        ctx.mc("MCBloom", dict(base, RegionBits=3, Datas=tla_set(["none"])), invariants=inv)
        ctx.mc("MCBloom", dict(two, Entries="{1, 2, 3}", RegionBits=2, CacheBits="{0, 2}", Caps="{2}"), invariants=inv, heap="16g")
        ctx.mc("MCBloom", dict(base, Regions=2, K=2, CacheBits="{0}", Caps="{1, 2}", Datas=tla_set(["none"])), invariants=inv)
        if p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
            ctx.prove("ProofBloom")


def scenarios(ctx):
    p, rng = ctx.prop, ctx.rng
    n, depth = (160, 18) if ctx.quick else (1500, 30)
    out = []
    for ops, share in ((OPS[p], 3), (ALL, 1)):
        sc = ctx.generate("GenBloom", gen_consts(ops, depth), n * share // 4, depth, procs=4)
        out += sc
    res = []
    reps = 2 if ctx.quick else 3
    for s in out:
        for _ in range(reps):
            small = rng.random() < SMALL.get(p, 0.5)
            versions = (2,) if p == "C06" else (1, 2, 2, 2)
            res.append(concretise(rng, s, len(res), ref=p == "C20", caps=[0, 1, 1, 2, 2, 3] if small else CAPS,
                                  fpps=FPPS if rng.random() < .7 else [0.5, 0.6, 0.3, 0.1], versions=versions,
                                  data=0.6 if p in ("C07", "C08") else 0.2, fill=rng.choice([0, 0.5, 1.0]),
                                  forge=p in ("C05", "C06", "C19", "C03") and rng.random() < .4))
    return res


def bulks(ctx):
    rng = ctx.rng
    out = []
    grid = [(1, 0), (2, 0), (2, 1), (2, 2), (2, 3)]
    sizes = [7, 64, 300, 2000, 9000] if ctx.quick else [1, 2, 3, 5, 7, 16, 64, 300, 1000, 2000, 5000, 9000, 30000, 140000]
    for v, opt in grid:
        for cap in sizes + [66000 + rng.randrange(8000)] * (opt == 0):
            fpp = rng.choice([0.3, 0.1, 0.01, 0.001, 1e-6])
            out.append(bulk(rng, 10 ** 6 + len(out), cap, fpp, v, opt, clear=True))
    if ctx.prop == "C02":
        # few positions per entry, so that many entries add a single bit
        for fpp in (0.7, 0.5, 0.4, 0.25, 0.15, 0.08):
            for v, opt in ((1, 0), (2, 0), (2, 1)):
                out.append(bulk(rng, 10 ** 6 + len(out), rng.choice([700, 2000, 9000]), fpp, v, opt, clear=True))
    return out


def ways(ctx):
    """Texts of all lengths up to many pages, given in every way."""
    rng, out = ctx.rng, []
    lens = LENS + [255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10001, 65535, 65536, 65537, 100000]
    for v, opt in ((1, 0), (2, 0), (2, 3)):
        todo = [(n, h) for n in rng.sample(lens, 30) + [4097, 65537] for h in sorted(set(HOWS["insert"]))]
        rng.shuffle(todo)
        for k in range(0, len(todo), 14):
            part = todo[k:k + 14]
            pl = [bytes(rng.choice(b"abcdefgh0123") for _ in range(n % 1000)) + b"0123456789" * (n // 1000 * 100) for n, _ in part]
            ops = [{"op": "create", "s": 1, "c": 1}]
            for e, (_, h) in enumerate(part):
                ops += [{"op": "insert", "s": 1, "e": e + 1, "how": h}, {"op": "contains", "s": 1, "e": e + 1, "how": rng.choice(HOWS["contains"])}]
            out.append({"id": 5 * 10 ** 6 + len(out), "cfgs": [{"v": v, "cap": 1000, "fpp": hexf(0.001), "opt": opt}], "pool": [x.hex() for x in pl], "ops": ops, "ref": True,
                        "raw": False, "seed": rng.randrange(2 ** 32)})
    return out


def remnants(ctx, n):
    """Intersections of filters with different entries: some bits, hardly any entry."""
    rng, out = ctx.rng, []
    for i in range(n):
        ln = rng.choice([9, 16, 33])
        k = rng.choice([20, 40, 60, 100, 200])
        c = {"v": 2, "cap": rng.choice([200, 1000, 5000, 20000]), "fpp": hexf(rng.choice([0.1, 0.01, 0.001, 1e-6, 1e-12])), "opt": rng.randrange(4)}
        if c["cap"] == 20000:
            c["fpp"] = hexf(rng.choice([0.1, 0.01]))
        B = lambda s, a: {"op": "bulk", "s": s, "from": a, "n": k, "len": ln, "how": rng.choice(["bytes", "spec", "iter", "vec"])}
        ops = [{"op": "create", "s": 1, "c": 1}, {"op": "create", "s": 2, "c": 1}, B(1, 0), B(2, rng.choice([1000, k, k - 1])), {"op": "common", "s": 1, "o": 2, "how": "gen"},
               {"op": "inter", "s": 1, "o": 2, "how": rng.choice(HOWS["inter"])}]
        if rng.random() < .3:
            ops += [{"op": "load", "s": 1, "how": rng.choice(HOWS["load"])}]
        if rng.random() < .3:
            ops += [{"op": "insert", "s": 1, "e": 1, "how": "bytes"}]
        ops += [{"op": "clone", "s": 1, "o": 3}, {"op": "clear", "s": 1, "how": rng.choice(HOWS["clear"])}, B(1, 0), {"op": "union", "s": 3, "o": 2, "how": "gen"}, {"op": "clear", "s": 3, "how": "gen"}]
        out.append({"id": 2 * 10 ** 6 + i, "cfgs": [c], "pool": [e.hex() for e in pool(rng)], "ops": ops, "seed": rng.randrange(2 ** 32)})
    return out


def large(ctx):
    """Filters of many buckets, saved and loaded."""
    rng, out = ctx.rng, []
    for v, cap, fpp in [(2, 1_000_000, 0.01), (2, 400_000, 1e-6), (2, 1_200_000, 0.02), (1, 1_000_000, 0.01), (1, 3_000_000, 0.001)] + ([] if ctx.quick else [(2, 5_000_000, 1e-4), (1, 20_000_000, 0.01)]):
        ln = rng.choice([9, 16, 33])
        ops = [{"op": "create", "s": 1, "c": 1}, {"op": "setdata", "s": 1, "d": rng.choice([1, 2, 4, 5, 6, 6])},
               {"op": "bulk", "s": 1, "from": 0, "n": 2000, "len": ln, "how": "bytes"}]
        ops += [{"op": "partial", "s": 1, "how": h} for h in ("gen", "chunk7")]
        ops += [{"op": "load", "s": 1, "how": rng.choice(["gen", "spec", "chunk4095"])}, {"op": "sweep", "s": 1, "from": 0, "n": 2000, "len": ln, "how": "bytes"},
                {"op": "save", "s": 1, "how": "gen"}]
        out.append({"id": 3 * 10 ** 6 + len(out), "cfgs": [{"v": v, "cap": cap, "fpp": hexf(fpp), "opt": rng.randrange(4)}], "pool": ["61"], "ops": ops, "lite": True,
                    "seed": rng.randrange(2 ** 32), "extra": 5})
    return out


def sample(events):
    return [{k: (v if k not in ("post", "opost", "fresh", "ref", "pre") else {x: v[x] for x in ("cnt", "in", "img") if x in v})
             for k, v in e.items()} for e in events[:8]]


def run(ctx):
    model(ctx)
    sc = scenarios(ctx)
    groups = ctx.harness("script", sc)
    if ctx.prop in ("C01", "C02", "C03", "C07", "C08"):
        b = bulks(ctx)
        groups += ctx.harness("script", b)
        sc += b
    more = (remnants(ctx, 24 if ctx.quick else 200) if ctx.prop in ("C01", "C02", "C06", "C07", "C19") else []) + (large(ctx) if ctx.prop == "C08" else []) + (ways(ctx) if ctx.prop == "C20" else [])
    groups += ctx.harness("script", more) if more else []
    sc += more
    rej = ctx.validate("TraceFilter", groups)
    report(ctx, rej, sc, groups)
    demonstrate(ctx, groups)
    if ctx.prop in ("C01", "C03", "C05", "C06", "C07", "C08"):
        import huge
        huge.run(ctx)
    if ctx.prop == "C20":
        import exact
        exact.run_typed(ctx)
    ctx.samples = [{"scenario": {k: sc[0][k] for k in ("cfgs", "pool")}, "events": sample(groups[0])}]
    ctx.assumptions += [
        "the clauses are checked on the histories replayed in this run, not on all",
        "set bits are read from the saved bytes by the documented layout (property C09)"]


def report(ctx, rej, sc, groups, mode="script"):
    for i, j, ev, clauses in rej:
        lite = {k: v for k, v in ev.items() if not isinstance(v, dict)}
        ctx.violation("step %d (%s) of scenario %d breaks: %s" % (j, json.dumps(lite)[:200], i, "; ".join(sorted(clauses))),
                      {"mode": mode, "scenario": sc[i], "step": j, "event": ev,
                       "previous": groups[i][max(0, j - 1)], "clauses": sorted(clauses)})


# What is done to a recorded trace to show that the specification notices
CORRUPT = {
    "C01": ("insert", lambda e: e["post"].update({"in": []}) if e["res"] in ("true", "false") else None),
    "C02": ("insert", lambda e: e["post"].update({"cnt": e["post"]["cnt"] + 1}) or True),
    "C03": ("insert", lambda e: e["post"].update({"full": not e["post"]["full"]}) or True),
    "C04": ("union", lambda e: e["opost"].update({"img": "0"}) or True),
    "C05": ("union", lambda e: e["post"].update({"bits": e["post"]["bits"][2:] or [1, 1] if e["post"]["bits"] != [1, 1] else []}) or True if e["res"] == "ok" else None),
    "C06": ("inter", lambda e: e["post"].update({"bits": e["post"]["bits"][2:] or [1, 1] if e["post"]["bits"] != [1, 1] else []}) or True if e["res"] == "ok" else None),
    "C07": ("clear", lambda e: e["post"].update({"pimg": "0"}) or True),
    "C08": ("load", lambda e: e["post"].update({"data": "0"}) or True),
    "C19": ("common", lambda e: e.update({"n": e["n"] + 2}) or True if e["res"] == "ok" else None),
    "C20": ("insert", lambda e: e["ref"].update({"img": "0"}) or True),
}


def demonstrate(ctx, groups, module="TraceFilter", how=None):
    """The binding is real: a trace with one recorded field altered is rejected at that event."""
    op, change = how or CORRUPT[ctx.prop]
    tried = []
    for g in groups:
        for j, e in enumerate(g):
            if e["op"] == op and not e.get("lite"):
                h = [json.loads(json.dumps(x)) for x in g[: j + 1]]
                r = change(h[j])
                if h[j] == g[j]:
                    continue
                before = ctx.traces, ctx.events
                rej = ctx.validate(module, [h], shards=1)
                ctx.traces, ctx.events = before
                if not rej or rej[0][1] != j:
                    tried.append((j, rej))
                    if ctx.violations:
                        return
                    if len(tried) == 6:
                        raise ToolError("altered traces were not rejected where they were altered: %r" % tried)
                    break
                ctx.extra["altered_trace_rejected"] = rej[0][3][0]
                return
    raise ToolError("no event to alter")
