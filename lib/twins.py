"""C17: the Python module against the library."""
import json, os, subprocess, sys
from core import *
import filters
from filters import hexf, config, pool as entries
from params import python_dir


def concretise(ctx, rng, i, script):
    cfgs = [config(rng, versions=(1, 2, 2)), None]
    cfgs[1] = filters.variant(rng, cfgs[0])
    ops = []
    for o in script:
        o = dict(o)
        if o["op"] == "new":
            c = dict(cfgs[o["cfg"] - 1])
            if o["bad"] == "fpp":
                c["fpp"] = rng.choice([hexf(2.0), hexf(0.0), hexf(-1.0), "7ff8000000000000", hexf(float("inf"))])
            if o["bad"] == "version":
                c["v"] = rng.choice([0, 3, 255])
            if o["bad"] == "opt":
                c["opt"] = rng.choice([4, 7, 255])
            o.update(c)
        ops.append(o)
    p = []
    while len(p) < 6:
        p += [e for e in entries(rng) if is_text(e)]
        p.append("".join(rng.choice("abé€xyz01\u0000") for _ in range(rng.choice([0, 1, 7, 8, 9, 33]))).encode())
    p = p[:6]
    # entries used as bytes only need not be text
    asstr = {o["e"] for o in ops if o["op"].endswith("_str")}
    for k in range(1, 7):
        if k not in asstr and rng.random() < .7:
            p[k - 1] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 8, 9, 20, 64])))
    return {"id": i, "pool": [e.hex() for e in p], "ops": ops}


def is_text(b):
    try:
        b.decode()
        return True
    except ValueError:
        return False


def prepare(d):
    os.makedirs(os.path.join(d, "dir"))
    with open(os.path.join(d, "junk"), "wb") as f:
        f.write(b"this is not a filter\n" * 10)


def both(ctx, sc, tag, dirs=None):
    """Runs the scenarios on both sides; returns merged events."""
    sides = {}
    for side in ("r", "p"):
        part = []
        for s in sc:
            d = ctx.path("twin-%s-%s-%d" % (tag, side, s["id"]))
            if dirs:
                d = dirs[side](s["id"])
            else:
                prepare(d)
            part.append(dict(s, dir=d))
        sides[side] = part
    groups = ctx.harness("twin", sides["r"])

    def py(k):
        part = sides["p"][k::CORES]
        inp, outp = ctx.path("py%s%d.in" % (tag, k)), ctx.path("py%s%d.out" % (tag, k))
        with open(inp, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in part)
        st = run_limited([sys.executable, os.path.join(VERIF, "lib", "pytwin.py"), python_dir_, inp, outp], 600, 6 << 30)
        res = []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    try:
                        res.append(json.loads(line))
                    except ValueError:
                        break
        return st, {s["id"]: r for s, r in zip(part, res)}
    python_dir_ = python_dir(ctx)
    got, status = {}, 0
    with ThreadPoolExecutor(CORES) as ex:
        for st, r in ex.map(py, range(CORES)):
            got.update(r)
            if st != 0:
                status = st
    if status != 0 and not got:
        raise ToolError("Python driver ends with %s" % status)
    out = []
    for s, g in zip(sc, groups):
        g = [dict(e) for e in g]
        if s["id"] not in got:
            g = g[:1] + [{"op": "crash", "res": "the Python side ends with %s" % status}] if status != 0 else []
        else:
            for e, p in zip(g[1:], got[s["id"]]):
                if e["op"] != "crash":
                    e["p"] = p
        out.append(g)
    return out


def run(ctx):
    rng = ctx.rng
    n, depth = (320, 20) if ctx.quick else (3000, 30)
    scripts = ctx.generate("GenTwin", {"Depth": depth}, n, depth)
    sc = [concretise(ctx, rng, i, s) for i, s in enumerate(scripts)]
    groups = both(ctx, sc, "a")
    # files saved by one are loaded by the other
    saved = [dict(s, ops=[{"op": "reload", "s": k + 1, "path": n} for k, n in enumerate(("f", "g"))] +
                  [{"op": "contains_bytes", "s": 1, "e": e} for e in range(1, 7)] + [{"op": "fill", "s": 1, "n": 10}]) for s in sc]
    groups2 = both(ctx, saved, "b", dirs={"r": lambda i: ctx.path("twin-a-p-%d" % i), "p": lambda i: ctx.path("twin-a-r-%d" % i)})
    ctx.extra["files_exchanged"] = sum(1 for g in groups2 for e in g if e["op"] == "reload" and e.get("p", {}).get("kind") == "value")
    allsc, allg = sc + saved, groups + groups2
    rej = ctx.validate("TraceTwin", allg)
    filters.report(ctx, rej, allsc, allg, "twin")
    filters.demonstrate(ctx, groups, "TraceTwin", ("insert_bytes", lambda e: e["p"]["kind"] == "value" and e["p"].update(val=not e["p"]["val"])))
    ctx.samples = [{"scenario": sc[0]["ops"][:4], "events": groups[0][1:4]}]
    ctx.extra["calls"] = sum(len(g) - 1 for g in groups)
    ctx.extra["errors_seen"] = sum(1 for g in groups for e in g if "p" in e and e["p"]["kind"] != "value")
    ctx.assumptions += ["a filter is not merged with itself through Python (refused by the borrow checker at run time)",
                        "arguments are of the types the module accepts"]
