"""C13: creation of filters."""
import json, os, struct, subprocess, sys
from core import *
import filters, huge
from filters import hexf

FPP = {"zero": 0.0, "negzero": -0.0, "neg": -0.25, "two": 2.0, "inf": float("inf"), "neginf": float("-inf"),
       "nan": "7ff8000000000000", "nnan": "fff8000000000001", "above": "3ff0000000000001", "subnormal": "0000000000000001",
       "subtop": "000fffffffffffff", "min": "0010000000000000", "below1": "3fefffffffffffff", "one": 1.0, "half": 0.5}


BAD = ("zero", "negzero", "neg", "above", "two", "inf", "neginf", "nan", "nnan")


def concrete(rng, p):
    f = FPP.get(p["fpp"]) if p["fpp"] in FPP else {"tiny": rng.choice([1e-300, 3e-100]), "small": rng.choice([1e-9, 1e-6, 2.5e-5]), "usual": rng.choice([0.01, 0.001, 0.05, 0.1])}[p["fpp"]]
    heavy = p["fpp"] in ("tiny", "min", "subnormal", "subtop")
    cap = {"0": 0, "1": 1, "few": rng.randrange(2, 70), "many": rng.randrange(100, 5000), "bucket": rng.choice([2279, 3418, 6836, 13672, 4096, 8192, 1024]) + rng.randrange(-1, 2),
           "most": rng.randrange(5000, 9000) if heavy else rng.randrange(20000, 200000),
           # what needs no memory, or is refused
           "huge": rng.choice([2 ** 32, 2 ** 32 + 7, 5 * 10 ** 9, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]) if p["fpp"] in ("one", "below1") and p["opt"] < 2 or p["fpp"] in BAD else 3}[p["cap"]]
    return dict(p, cap=cap, fpp=f if isinstance(f, str) else hexf(f))


def run(ctx):
    rng = ctx.rng
    st, out = tlc("GenParams", cfg_text(invariants=["Emit"]), tmp=ctx.tmp)
    if "No error" not in out:
        raise ToolError("GenParams:\n" + out[-3000:])
    ps = sorted((json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"SCRIPT ')), key=json.dumps)
    ctx.states += len(ps)
    ctx.transitions += len(ps)
    ctx.log("%d combinations of constructor and kinds of parameters" % len(ps))
    sc = [dict(concrete(rng, p), id=i) for i, p in enumerate(ps * (1 if ctx.quick else 6))]
    rust = [s for s in sc if s["ctor"] != "cli" and not s["ctor"].startswith("py")]
    py = [s for s in sc if s["ctor"].startswith("py")]
    cl = [s for s in sc if s["ctor"] == "cli"]
    if ctx.quick:
        cl = rng.sample(cl, 350)
    groups = ctx.harness("params", rust)
    rej = ctx.validate("TraceParams", groups)
    filters.report(ctx, rej, rust, groups, "params")
    filters.demonstrate(ctx, groups, "TraceParams", ("new", lambda e: e["res"] == "ok" and e["got"].update({"psize": e["got"]["psize"] + 1})))
    others(ctx, py + cl)
    huge.run(ctx)
    ctx.samples = [{"scenario": rust[40], "events": groups[40]}, {"scenario": rust[-1], "events": groups[-1]}]
    ctx.extra["combinations"] = len(ps)
    ctx.assumptions += ["all combinations with capacities of up to 200000 and bit arrays of up to 2 MB, a few with up to 5000000000 and 1 GB",
                        "probabilities below the smallest normal number may be accepted or refused"]


PY = """
import sys, json, struct
sys.path.insert(0, sys.argv[1])
import poppy
for line in open(sys.argv[2]):
    s = json.loads(line)
    p = struct.unpack(">d", bytes.fromhex(s["fpp"]))[0]
    try:
        if s["ctor"] == "pycap": b = poppy.BloomFilter(s["cap"], p)
        elif s["ctor"] == "pyver": b = poppy.BloomFilter.with_version(s["v"], s["cap"], p)
        else: b = poppy.BloomFilter.with_params(s["v"], s["cap"], p, s["opt"])
        b.save(s["file"])
        res = "ok" if (b.version, b.capacity, b.fpp, b.count_estimate, len(b.data)) == (s["v"] if s["ctor"] != "pycap" else 2, s["cap"], p, 0, 0) else "wrong getters"
    except BaseException as e:
        res = type(e).__name__
    print(json.dumps({"id": s["id"], "res": res}), flush=True)
"""


def python_dir(ctx):
    """A directory from which the module can be imported."""
    d = ctx.path("pymod")
    if not os.path.exists(d):
        os.makedirs(d)
        src = [f for f in sorted(os.listdir(build_repo())) if f.startswith("lib") and f.endswith(".so") and "poppy" in f]
        os.symlink(os.path.join(build_repo(), src[0]), os.path.join(d, "poppy.so"))
    return d


def others(ctx, sc):
    """Through the Python module and the command line tool; what was made is then looked at from Rust."""
    d = ctx.path("made")
    os.makedirs(d)
    for s in sc:
        s["file"] = os.path.join(d, "f%d" % s["id"])
    py = [s for s in sc if s["ctor"] != "cli"]
    inp = ctx.path("py.in")
    with open(inp, "w") as f:
        f.writelines(json.dumps(s) + "\n" for s in py)
    r = subprocess.run([sys.executable, "-c", PY, python_dir(ctx), inp], stdout=subprocess.PIPE, text=True, timeout=600)
    res = {}
    for l in r.stdout.splitlines():
        v = json.loads(l)
        res[v["id"]] = v["res"]
    if r.returncode != 0 and not res:
        raise ToolError("Python driver failed")
    exe = os.path.join(build_repo(), "poppy")

    def cli(s):
        p = struct.unpack(">d", bytes.fromhex(s["fpp"]))[0]
        r = subprocess.run([exe, "create", "--version", str(s["v"]), "-c", str(s["cap"]), "--probability=" + repr(p), "-O", str(s["opt"]), s["file"]],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        return s["id"], str(r.returncode)
    with ThreadPoolExecutor(CORES) as ex:
        res.update(ex.map(cli, [s for s in sc if s["ctor"] == "cli"]))
    made = [s for s in sc if res.get(s["id"]) == ("0" if s["ctor"] == "cli" else "ok")]
    groups = {g[0]["id"]: g for g in ctx.harness("params", made) if g}
    traces = []
    for s in sc:
        if s["id"] in groups:
            traces.append(groups[s["id"]])
        else:
            traces.append([{"op": "reset", "id": s["id"]},
                           {"op": "new", "ctor": s["ctor"], "v": s["v"], "cap": str(s["cap"]), "opt": s["opt"], "fpp": list(bytes.fromhex(s["fpp"])[::-1]),
                            "res": res.get(s["id"], "no answer")}])
    rej = ctx.validate("TraceParams", traces)
    filters.report(ctx, rej, sc, traces, "params")
    ctx.extra["python_and_cli"] = len(sc)
