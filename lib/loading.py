"""C10: damaged or foreign input."""
import json, os, subprocess
from core import *
import filters
from filters import hexf

KINDS = {
    "v1": {"v": 1, "cap": 100, "fpp": hexf(0.01), "opt": 0},
    "v1one": {"v": 1, "cap": 1, "fpp": hexf(0.5), "opt": 0},
    "v2": {"v": 2, "cap": 50, "fpp": hexf(0.01), "opt": 0},
    "v2cache": {"v": 2, "cap": 300, "fpp": hexf(0.001), "opt": 2},
    "v2many": {"v": 2, "cap": 2000, "fpp": hexf(1e-9), "opt": 3},
    "v2empty": {"v": 2, "cap": 0, "fpp": hexf(0.01), "opt": 1},
}


def scenario(rng, i, kind, dmg, **kw):
    return dict({"id": i, "cfg": KINDS[kind], "fill": rng.choice([0, 5, 40]), "data": rng.choice([0, 0, 1, 2, 5]), "seed": rng.randrange(2 ** 32),
                 "dmg": dmg, "chunk": rng.choice([0, 0, 0, 1, 7, 4096])}, **kw)


def enumerate_damage(ctx):
    st, out = tlc("GenFormat", cfg_text(invariants=["Emit"]), workers=1, tmp=ctx.tmp)
    if "No error" not in out:
        raise ToolError("GenFormat:\n" + out[-3000:])
    res = {}
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            s = json.loads(json.loads(line)[7:])
            s["dmg"].sort(key=lambda d: (d["field"], d["to"]))
            res[json.dumps(s)] = s
    return [res[k] for k in sorted(res)]


def run(ctx):
    rng = ctx.rng
    dmgs = enumerate_damage(ctx)
    ctx.log("%d ways to damage a file" % len(dmgs))
    ctx.states += len(dmgs)
    ctx.transitions += len(dmgs)
    few = [d for d in dmgs if len(d["dmg"]) < 2]
    many = [d for d in dmgs if len(d["dmg"]) == 2]
    if ctx.quick:
        many = rng.sample(many, 3000)
    sc = [scenario(rng, i, d["kind"], d["dmg"]) for i, d in enumerate(few * 2 + many)]
    # every truncation point (with several buckets: the neighbourhood of every boundary and a sample)
    for kind in KINDS:
        step = {"v1": 1, "v1one": 1, "v2empty": 1, "v2many": 997}.get(kind, 61 if ctx.quick else 7)
        sc.append(scenario(rng, len(sc), kind, [], cuts=step, chunk=0))
    # byte strings that have nothing to do with filters
    for n in (0, 1, 7, 8, 48, 56, 200):
        for b in (bytes(n), b"\xff" * n, bytes(rng.randrange(256) for _ in range(n)), b"\2" + bytes(max(0, n - 1)), b"\1" + b"\xff" * max(0, n - 1)):
            sc.append({"id": len(sc), "bytes": b.hex(), "dmg": [], "chunk": 0})
    groups = ctx.harness("load", sc, timeout=300, limit_as=3 << 30)
    rej = ctx.validate("TraceFormat", groups)
    filters.report(ctx, rej, sc, groups, "load")
    filters.demonstrate(ctx, groups, "TraceFormat", ("load", lambda e: e.update({"mem": 10 ** 9}) or True))
    cli(ctx, few + rng.sample(many, 40 if ctx.quick else 400))
    ctx.samples = [{"scenario": sc[5], "events": groups[5][:4]}, {"scenario": sc[-20], "events": groups[-20][:3]}]
    ctx.extra["damages"] = len(dmgs)
    ctx.assumptions += ["damage is to header fields and by truncation; the contents of the bit arrays are arbitrary in any filter",
                        "files with changed fields that are still complete may be accepted or refused"]


def cli(ctx, dmgs):
    """The command line tool on damaged files."""
    rng = ctx.rng
    exe = os.path.join(build_repo(), "poppy")
    d = ctx.path("damaged")
    os.makedirs(d)
    sel = rng.sample(dmgs, min(len(dmgs), 120 if ctx.quick else 800))
    sc = [scenario(rng, i, x["kind"], x["dmg"], write=os.path.join(d, "f%d" % i)) for i, x in enumerate(sel)]
    groups = ctx.harness("load", sc)

    def one(i):
        out = [e for e in groups[i] if e["op"] != "written"]
        ln = [e for e in groups[i] if e["op"] == "written"][0]["len"]
        for cmd in (["show"], ["check", "--stdin"]):
            r = run_cli([exe, cmd[0]] + cmd[1:] + [sc[i]["write"]], b"")
            out.append({"op": "cli", "cmd": cmd[0], "len": ln, "exit": str(r)})
        return out
    with ThreadPoolExecutor(CORES) as ex:
        traces = list(ex.map(one, range(len(sc))))
    rej = ctx.validate("TraceFormat", traces)
    filters.report(ctx, rej, sc, traces, "load")
    ctx.extra["cli_loads"] = 2 * len(sc)


def run_cli(cmd, stdin=b"", timeout=60, limit_as=3 << 30):
    import resource
    try:
        r = subprocess.run(cmd, input=stdin, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout,
                           preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
    except subprocess.TimeoutExpired:
        return "a timeout"
    return r.returncode
