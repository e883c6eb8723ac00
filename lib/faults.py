"""C11: devices that fail."""
import os, resource, signal, subprocess
from core import *
import filters
from filters import hexf
from loading import KINDS


def run(ctx):
    rng = ctx.rng
    consts = {"Buffer": 3, "MaxPiece": 4, "MaxPieces": 3 if ctx.quick else 4, "Flush": "TRUE"}
    ctx.mc("MCWriter", consts, invariants=["SuccessIsComplete", "FailureIsReported"], properties=["Ends"])
    ctx.mc("MCWriter", dict(consts, Flush="FALSE"), invariants=["SuccessIsComplete"], expect_error="SuccessIsComplete is violated")
    ctx.prove("ProofWriter")
    sc = []

    def add(layout, d, **kw):
        small = layout in ("v1", "v1one", "v2empty")
        step = 1 if small else (31 if ctx.quick else 3)
        if layout == "v2many":
            step *= 23
        if kw.get("data") in (3, 4):
            step = max(step, 997 if ctx.quick else 101)
        sc.append(dict({"id": len(sc), "cfg": KINDS[layout], "fill": rng.choice([0, 5, 40]), "data": rng.choice([0, 1, 2, 5]), "seed": rng.randrange(2 ** 32),
                        "dir": d, "chunk": 10 ** 6, "intr": 0, "kind": "err", "step": step, "first": rng.randrange(step)}, **kw))
    for kind in KINDS:
        for typed in (False, True):
            for w in ("err", "zero", "flush", "once"):
                add(kind, "w", kind=w, typed=typed)
        add(kind, "r")
        add(kind, "r", kind="once")
        for _ in range(3 if ctx.quick else 10):
            add(kind, "w", chunk=rng.choice([1, 2, 7, 100, 4096, 5000]), intr=rng.choice([0, 2, 3, 10]), kind=rng.choice(["err", "zero", "once"]))
            add(kind, "r", chunk=rng.choice([1, 2, 7, 100, 4096, 5000]), intr=rng.choice([0, 2, 3, 10]), kind=rng.choice(["err", "once"]))
        # data appended or not, and filters ending with the last byte of a buffer
        for data in (0, 1, 5, 3, 4):
            add(kind, "w", data=data, kind=rng.choice(["err", "once"]), typed=rng.random() < .5)
            add(kind, "r", data=data, kind=rng.choice(["err", "once"]))
    groups = ctx.harness("fault", sc, timeout=600)
    rej = ctx.validate("TraceFault", groups)
    filters.report(ctx, rej, sc, groups, "fault")
    filters.demonstrate(ctx, groups, "TraceFault", ("save", lambda e: e["res"] == "Io" and (e.update({"res": "ok"}) or True)))
    cli(ctx)
    ctx.samples = [{"scenario": sc[0], "events": groups[0][:4]}, {"scenario": sc[-1], "events": groups[-1][-3:]}]
    ctx.extra["fault_points"] = sum(len(g) - 2 for g in groups)
    ctx.assumptions += ["filters of up to 160 KB; every offset for the small layouts, a sample of offsets for the others"]


def limited(cmd, at, stdin=b""):
    """Runs a command whose files can have at most `at` bytes."""
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    r = subprocess.run(cmd, input=stdin, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, preexec_fn=pre, restore_signals=False)
    return str(r.returncode)


def cli(ctx):
    rng = ctx.rng
    exe = os.path.join(build_repo(), "poppy")
    d = ctx.path("limited")
    os.makedirs(d)
    jobs = []
    for i, (v, opt) in enumerate([(1, 0), (2, 0), (2, 2), (2, 3)]):
        par = ["--version", str(v), "-O", str(opt), "-c", str(rng.choice([50, 1000, 5000])), "-p", rng.choice(["0.01", "0.001"])]
        ref = os.path.join(d, "ref%d" % i)
        subprocess.run([exe, "create"] + par + [ref], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        full = os.path.join(d, "full%d" % i)
        with open(ref, "rb") as a, open(full, "wb") as b:
            b.write(a.read())
        lines = b"".join(b"an entry %d\n" % j for j in range(20))
        subprocess.run([exe, "insert", full], input=lines, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        n = os.path.getsize(ref)
        ats = sorted({0, 1, 8, 47, 48, 100, 4096, 8191, 8192, 8193, n // 2, n - 4097, n - 9, n - 1, n, n + 1} | {rng.randrange(n) for _ in range(4 if ctx.quick else 60)})
        for at in ats:
            if at >= 0:
                jobs.append(("create", i, par, at))
                jobs.append(("insert", i, par, at))

    def one(j):
        cmd, i, par, at = jobs[j]
        t = os.path.join(d, "t%d" % j)
        ref, want = os.path.join(d, "ref%d" % i), os.path.join(d, ("ref%d" if cmd == "create" else "full%d") % i)
        if cmd == "create":
            r = limited([exe, "create"] + par + [t], at)
        else:
            with open(ref, "rb") as a, open(t, "wb") as b:
                b.write(a.read())
            r = limited([exe, "insert", t], at, b"".join(b"an entry %d\n" % j for j in range(20)))
        got = open(t, "rb").read() if os.path.exists(t) else b""
        exp = open(want, "rb").read()
        return [{"op": "reset"}, {"op": "cli", "cmd": cmd, "at": at, "len": len(exp), "exit": r, "same": got == exp}]
    with ThreadPoolExecutor(CORES) as ex:
        traces = list(ex.map(one, range(len(jobs))))
    rej = ctx.validate("TraceFault", traces)
    sc = [{"id": i, "command": j[0], "parameters": j[2], "file size limit": j[3]} for i, j in enumerate(jobs)]
    filters.report(ctx, rej, sc, traces, "cli")
    ctx.extra["cli_commands"] = len(jobs)
