"""Filters of more than 2^32 bits, entries or cache bits, and others too large for looking at every bit."""
from core import *
import struct
import filters
from filters import gen_consts, hexf, rbytes, HOWS

# what is large about them: bits, buckets, capacity and cache, words
HUGE = [(1, 500_000_000, 0.01, (0,)), (2, 480_000_000, 0.01, (0, 1)), (2, 2 ** 32 + 5, 0.99, (2, 3)), (2, 300_000_000, 1e-3, (0, 3)), (1, 330_000_000, 0.001, (0,))]
WIDE = [(1, 5_000_000_000, 0.99, (0,)), (1, 400_000, 0.001, (0,)), (1, 30_000_000, 0.3, (0,)), (2, 5_000_000_000, 0.99, (0, 1)), (2, 3_000_000, 0.1, (2, 3)),
        (2, 40_000_000, 0.05, (0, 1, 2, 3)), (2, 20_000_000, 1e-6, (0, 1)), (1, 100_000_000, 0.9, (0,)), (2, 2 ** 31 + 1, 0.99, (0, 3))]
# capacities that are small when cut to 32 bits
CUT = [(v, c, 0.99, o) for v, o in ((1, (0,)), (2, (0, 1))) for c in (2 ** 32, 2 ** 32 + 1, 2 ** 32 + 3, 2 ** 33 + 2, 2 ** 31)]
OPS = {"C01": ["union", "inter", "load", "clear"], "C05": ["union", "union", "clone"], "C06": ["inter", "union", "clone"], "C07": ["clear", "union"], "C08": ["load", "partial", "setdata"],
       "C03": ["union", "load", "clear"], "C13": ["load", "partial", "clear", "clone"],
       "C09": ["union", "inter", "clone", "load", "clear", "setdata"]}

# what is altered in a recorded trace to show that it is noticed
LOSE = lambda e: e["post"]["nz"].pop(len(e["post"]["nz"]) // 2) if e["post"]["nz"] and e["res"] != "Merge" else None
ALTER = {"C01": ("inserts", lambda e: e["post"]["in"].clear()), "C03": ("inserts", lambda e: e["res"].__setitem__(0, "TooMany")),
         "C05": ("union", LOSE), "C06": ("inter", LOSE), "C07": ("clear", lambda e: e["post"]["nz"].append([48, 0, 0, 0, 0, 0, 0, 0, 1])),
         "C08": ("load", LOSE), "C09": ("inserts", LOSE), "C13": ("create", lambda e: e["post"]["size"].__setitem__(4, 7))}

# with probability one nothing but the capacity tells them apart
ALONE = [(2, 2 ** 32 + 7, 1.0, (0, 1)), (2, 2 ** 40 + 9, 1.0, (0, 1))]


def available():
    with open("/proc/meminfo") as f:
        for line in f:
            if line.startswith("MemAvailable"):
                return int(line.split()[1]) >> 10
    return 0


# how a history ends, so that each does what the property is about on filters that hold something
TAIL = {"C05": "union", "C06": "inter", "C07": "clear", "C08": "load", "C13": "load"}


def scenario(rng, i, what, script, prop):
    v, cap, p, opts = what
    c = {"v": v, "cap": cap, "fpp": hexf(p), "opt": rng.choice(opts)}
    cfgs = [c]
    if cap > 2 ** 32 and c["opt"] < 2:
        # differs by a capacity that is the same when cut to 32 bits
        cfgs.append(dict(c, cap=cap - 2 ** 32 if p == 1.0 or cap - 2 ** 32 > 10 ** 6 else cap + 2 ** 32))
    differ = len(cfgs) > 1 and (p == 1.0 or rng.random() < .3)
    n = 30
    ops = []
    if prop in TAIL:
        script = script + [{"op": "insert", "s": 1}, {"op": "insert", "s": 2}, {"op": TAIL[prop], "s": 1, "o": 2}]
    for o in script:
        o = dict(o)
        if o["op"] in HOWS and o["op"] != "insert":
            o["how"] = rng.choice(HOWS[o["op"]])
            if o["how"] == "consume":
                o["how"] = "merge"
        if o["op"] == "setdata":
            o["d"] = rng.choice([1, 2, 4, 5])
        if o["op"] == "create":
            if o["s"] == 3:
                continue
            o["c"] = 2 if differ and o["s"] == 2 else 1
        if o["op"] == "insert":
            o = {"op": "inserts", "s": o["s"], "es": [rng.randrange(1, n + 1) for _ in range(rng.randrange(1, 12))], "how": rng.choice([h for h in HOWS["insert"] if h != "fill"])}
        ops.append(o)
    return {"id": i, "cfgs": cfgs, "pool": [rbytes(rng, rng.choice([3, 8, 9, 20, 33, 70])).hex() for _ in range(n)], "ops": ops}


def ghosts(rng, i, n):
    """Headers of filters of up to 2^50 bits, with the number of buckets and the data where they belong."""
    le = lambda x: list(x.to_bytes(8, "little"))
    near = lambda top: max(1, min(2 ** top, 2 ** rng.randrange(top + 1) + rng.choice([0, 1, -1, 63, 64, 65, rng.randrange(2 ** rng.randrange(1, top))])))
    ops = []
    for _ in range(n):
        v = rng.choice([1, 2, 2])
        opt = 0 if v == 1 else rng.randrange(4)
        cap, cnt = (near(60) for _ in "ab")
        cnt = rng.choice([0, cnt, cap, cap - 1, cap + 1, cap % 2 ** 32])
        h = [v, opt, 0, 0, 0, 0, 0, 0] + le(cap) + list(struct.pack("<d", rng.choice([1.0, 0.5, 0.01, 1e-9, rng.random() or .5]))) + le(rng.randrange(1, 60))
        nb = near(38)
        if v == 1:
            m = near(50)
            h += le(m) + le(cnt)
            at, end = 0, 48 + (m + 63) // 64 * 8
        else:
            cb = 0 if opt < 2 else 2 ** rng.randrange(3, 50)
            h += le(cnt) + le(cb)
            at = 48 + (cb + 7) // 8
            end = at + 8 + nb * 4096
        ops.append({"op": "ghost", "hdr": h, "nb": le(nb), "nbat": le(at), "end": le(end), "d": rng.choice([0, 1, 2, 4, 5])})
    return {"id": i, "cfgs": [], "pool": [], "ops": ops}


def run(ctx):
    rng = ctx.rng
    depth = 13 if ctx.quick else 20
    if ctx.prop == "C09":
        ctx.mc("MCLarge", {"MaxCap": 40000 if ctx.quick else 800000}, spec="Spec", invariants=["SameLayout", "SamePlaces", "Division"])
    huge = [h for h in HUGE if h[0] == 2 or ctx.prop != "C06"]
    wide = [w for w in WIDE + CUT if w[0] == 2 or ctx.prop != "C06"]
    if available() < 12000:
        ctx.assumptions.append("filters of more than 2^32 bits were left out, less than 12 GB of memory are available")
        huge = []
    elif ctx.quick:
        huge = [] if ctx.prop == "C03" else huge[:3]
    if ctx.quick:
        wide = WIDE + rng.sample(CUT, 3) if ctx.prop == "C09" else rng.sample(wide, 3) + [w for w in CUT if ctx.prop == "C03"]
    if not ctx.quick:
        huge, wide = huge * 2, wide * 4
    consts = dict(gen_consts(OPS[ctx.prop] + ["insert", "create"], depth), Slots="{1, 2}")
    if ctx.prop in ("C05", "C06"):
        wide = wide + ALONE
    scripts = [s for s in ctx.generate("GenBloom", consts, 4 * (len(huge) + len(wide)) + 40, depth, procs=2) if sum(o["op"] == "insert" for o in s) >= 2 and ALTER[ctx.prop][0] in {o["op"].replace("insert", "inserts") for o in s}]
    rng.shuffle(scripts)
    todo = [(w, scripts[k % len(scripts)]) for k, w in enumerate(huge + wide)]
    sc = [scenario(rng, i, w, s, ctx.prop) for i, (w, s) in enumerate(todo)]
    if ctx.prop in ("C03", "C08", "C09", "C13"):
        sc.append(ghosts(rng, len(sc), 400 if ctx.quick else 5000))
    groups = ctx.harness("large", sc[:len(huge)], shards=3, limit_as=8 << 30) if huge else []
    groups += ctx.harness("large", sc[len(huge):], limit_as=8 << 30)
    rej = ctx.validate("TraceLarge", groups)
    filters.report(ctx, rej, sc, groups, "large")
    if not rej:
        filters.demonstrate(ctx, groups, "TraceLarge", ALTER[ctx.prop])
    ctx.extra["large_filters"] = len(todo)
    ctx.extra["metadata_of_huge_files"] = sum(e["op"] == "ghost" for g in groups for e in g)
