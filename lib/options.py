"""C22: the options of the command line tool."""
import hashlib, json, os, re, struct, subprocess
from core import *
import filters

BAD = {"version": ["256", "x", "-1", "2.0", ""], "cap": ["x", "1.5", "-3", "1e3", "99999999999999999999999"], "p": ["x", "2", "0", "-1", "nan", "inf", "1.0000001"],
       "fpp": ["x", "2", "0", "-0.1", "nan"], "opt": ["x", "256", "-1", "best"], "tests": ["x"]}
NAMES = {"create": {"version": (None, "--version"), "cap": ("-c", "--capacity"), "p": ("-p", "--probability"), "opt": ("-O", "--opt-lvl")},
         "bench": {"version": ("-v", "--version"), "fpp": (None, "--fpp"), "opt": ("-O", "--opt"), "tests": (None, "--test-size")}}
P = {t: list(struct.pack("<d", float(t))) for t in ("0.01", "0.05", "0.001", "0.02")}


def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), "rb") as g:
                out[os.path.relpath(os.path.join(root, f), d)] = hashlib.sha256(g.read()).hexdigest()
    return out


def given(rng, cmd, o):
    """The options, in some form and order."""
    args = []
    names = NAMES[cmd]
    for k in rng.sample(sorted(names), len(names)):
        if o[k] == "":
            continue
        v = rng.choice(BAD[k]) if o[k] == "bad" else o[k]
        short, long = names[k]
        form = rng.choice(["short", "glued", "long", "equals"] if short else ["long", "equals"])
        if v == "" or v.startswith("-"):
            form = "equals"
        args.append({"short": [short, v], "glued": [(short or "") + v], "long": [long, v], "equals": [long + "=" + v]}[form])
    return args


def general(rng):
    out = []
    j = rng.choice([None, "0", "1", "2", "5"])
    if j:
        out += rng.choice([["-j", j], ["--jobs", j], ["--jobs=" + j], ["-j" + j]])
    if rng.random() < .3:
        out.append(rng.choice(["-v", "--verbose"]))
    return out


WRONG = {"nothing": [], "no such command": ["creates", "g"], "create without file": ["create", "-c", "5"], "unknown option": ["create", "--capacities", "5", "g"],
         "option without value": ["create", "g", "-c"], "jobs not a number": ["-j", "many", "create", "g"], "show without file": ["show"], "show of two": ["show", "f", "f"],
         "insert without file": ["insert"], "check without file": ["check"], "bench of two": ["bench", "f", "f"], "show of a missing file": ["show", "missing"], "show of a text": ["show", "a.txt"]}
HELP = {"-h": ["-h"], "--help": ["--help"], "help": ["help"]}


def one(ctx, i, rng, c):
    d = ctx.path("opt%d" % i)
    os.makedirs(d)
    exe = os.path.join(build_repo(), "poppy")

    def call(args, stdin=b""):
        try:
            r = subprocess.run([exe] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, cwd=d)
            return str(r.returncode), r.stdout
        except subprocess.TimeoutExpired:
            return "timeout", b""

    def changed(old):
        new = tree(d)
        return sorted(f for f in set(old) | set(new) if old.get(f) != new.get(f))
    files = [("%s.txt" % n, rng.randrange(1, 40)) for n in "ab"]
    for n, k in files:
        with open(os.path.join(d, n), "w") as f:
            f.writelines("%s%d\n" % (n, x) for x in range(k))
    old = tree(d)
    ev = {"op": c["cmd"], "o": c, "pbytes": P}
    if c["cmd"] == "create":
        used = files[:c["files"]]
        opts = given(rng, "create", c)
        at = [rng.randrange(3) for _ in opts]  # before the file, between it and the dataset, after it
        args = general(rng) + ["create"] + sum((a for a, x in zip(opts, at) if x == 0), []) + ["out"] + sum((a for a, x in zip(opts, at) if x == 1), []) \
            + [n for n, _ in used] + sum((a for a, x in zip(opts, at) if x == 2), [])
        ev["exit"], _ = call(args)
        ch = changed(old)
        ev.update(made="out" in ch, changed=[x for x in ch if x != "out"], lines=str(sum(k for _, k in used)) if used else "")
        if ev["made"] and ev["exit"] == "0":
            with open(os.path.join(d, "out"), "rb") as f:
                b = f.read()
            ev["got"] = {"version": str(b[0]), "cap": str(struct.unpack("<Q", b[8:16])[0]), "p": list(b[16:24]), "opt": str(b[1]) if b[0] != 1 else "0"}
    elif c["cmd"] == "bench":
        n = rng.choice([50, 200])
        args = general(rng) + ["bench"] + sum(given(rng, "bench", c), []) + rng.choice([["-r", "1"], ["--runs=2"], []]) + rng.choice([["--fp-tol=100"], ["-f", "50"]]) + rng.choice([["-s", "1"], ["--size-mb", "0"], []])
        ev["exit"], out = call(args, b"".join(b"%d-%d\n" % (x, x * x) for x in range(n)) * rng.choice([1, 2]))
        ev.update(changed=changed(old), entries=str(n), got={})
        got = {}
        for k, rx in (("version", r"^\s*version\s*: (\S+)$"), ("cap", r"^\s*capacity[^:]*: (\S+)$"), ("p", r"^\s*fpp[^:]*: (\S+)$"), ("tests", r"^\s*test size\s*: (\S+)$")):
            m = re.findall(rx, out.decode(errors="replace"), re.M)
            if len(m) == 1:
                got[k] = m[0] if k != "p" else list(struct.pack("<d", float(m[0])))
        if len(got) == 4:
            ev["got"] = got
    else:
        args = WRONG[c["use"]] if c["cmd"] == "wrong" else HELP.get(c["use"]) or rng.choice([["help", c["use"]], [c["use"], "--help"], [c["use"], "-h"]])
        ev["exit"], out = call(args)
        ev.update(changed=changed(old), printed=len(out) > 0)
    ev["args"] = " ".join(args)
    shutil.rmtree(d, ignore_errors=True)
    return [{"op": "reset", "id": i}, ev]


def same(ctx, i, rng):
    """A history with and without verbose output."""
    outs = []
    seed = rng.randrange(2 ** 62)
    exe = os.path.join(build_repo(), "poppy")
    for verbose in (False, True):
        r2 = random.Random(seed)
        d = ctx.path("same%d-%d" % (i, verbose))
        os.makedirs(d)
        names = []
        for n in range(r2.randrange(1, 4)):
            names.append("t%d" % n)
            with open(os.path.join(d, names[-1]), "w") as f:
                f.writelines("%d-%d\n" % (n, r2.randrange(40)) for _ in range(r2.randrange(0, 30)))
        v = str(r2.choice([1, 2]))
        hist = [["create", "--version", v, "-p", "0.05", "f"] + names[:1], ["create", "--version", v, "-c", "500", "g"], ["insert", "g"] + names, ["insert", "g", "missing"], ["check", "g"] + names, ["check", "--verify", "f"] + names,
                ["show", "g"], ["show", "missing"]]
        st, out = [], []
        for h in hist:
            g = ["-j", "1"] + ([r2.choice(["-v", "--verbose"])] if verbose else [])
            r = subprocess.run([exe] + g + h, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, cwd=d)
            st.append(str(r.returncode))
            out.append(hashlib.sha256(r.stdout).hexdigest()[:8])
        out.append(hashlib.sha256(json.dumps(tree(d), sort_keys=True).encode()).hexdigest()[:8])
        outs.append((st, out))
        shutil.rmtree(d, ignore_errors=True)
    return [{"op": "reset", "id": i}, {"op": "same", "exit": outs[0][0], "exit2": outs[1][0], "out": outs[0][1], "out2": outs[1][1]}]


def limit(ctx, i, rng, missing):
    """Lines of a megabyte, one of them not in the filter."""
    d = ctx.path("limit%d" % i)
    os.makedirs(d)
    exe = os.path.join(build_repo(), "poppy")
    line = lambda k: b"%07d" % k + b"x" * ((1 << 20) - 7)
    with open(os.path.join(d, "all"), "wb") as f, open(os.path.join(d, "most"), "wb") as g:
        for k in range(1, 106):
            f.write(line(k) + b"\n")
            if k != missing:
                g.write(line(k) + b"\n")
    subprocess.run([exe, "-j", "1", "create", "-p", "0.000001", "f", "most"], stderr=subprocess.DEVNULL, timeout=300, cwd=d)
    try:
        with open(os.path.join(d, "all"), "rb") as f:
            r = subprocess.run([exe, "bench", "-r", "0", "--test-size", "0", "f"], stdin=f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300, cwd=d)
        st = str(r.returncode)
    except subprocess.TimeoutExpired:
        st = "timeout"
    shutil.rmtree(d, ignore_errors=True)
    return [{"op": "reset", "id": i}, {"op": "limit", "missing": missing, "exit": st}]


def run(ctx):
    rng = ctx.rng
    st, out = tlc("GenOptions", cfg_text(invariants=["Emit", "Usable"]), tmp=ctx.tmp)
    if "No error" not in out:
        raise ToolError("GenOptions:\n" + out[-3000:])
    cs = sorted((json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"SCRIPT ')), key=lambda c: json.dumps(c, sort_keys=True))
    ctx.states += len(cs)
    ctx.transitions += len(cs)
    ctx.log("%d command lines from GenOptions" % len(cs))
    # all right ones, and some of the wrong ones
    wrong = lambda c: "bad" in c.values() or c.get("version") in ("3", "0") or c.get("opt") == "4"
    right = [c for c in cs if not wrong(c)]
    cs = right + rng.sample([c for c in cs if wrong(c)], 350) if ctx.quick else right * 4 + [c for c in cs if wrong(c)]
    jobs = [(one, c) for c in cs] + [(same, None)] * (12 if ctx.quick else 100) + [(limit, m) for m in ((rng.randrange(98, 101), rng.randrange(102, 104)) if ctx.quick else (1, 98, 99, 100, 102, 103, 104))]
    seeds = [rng.randrange(2 ** 62) for _ in jobs]
    build_repo()

    def go(i):
        f, c = jobs[i]
        try:
            r = random.Random(seeds[i])
            return f(ctx, i, r) if f is same else f(ctx, i, r, c)
        except Exception as e:
            ctx.troubles.append("command line %d: %r" % (i, e))
    with ThreadPoolExecutor(CORES) as ex:
        traces = list(ex.map(go, range(len(jobs))))
    idx = [i for i, t in enumerate(traces) if t]
    traces = [traces[i] for i in idx]
    ctx.log("%d command lines run" % len(traces))
    rej = ctx.validate("TraceOptions", traces)
    filters.report(ctx, rej, [{"command": jobs[i][1]} for i in idx], traces, "options")
    filters.demonstrate(ctx, traces, "TraceOptions", ("create", lambda e: e["exit"] == "0" and e["got"].update(cap="9999")))
    ctx.extra["command_lines"] = len(traces)
    ctx.samples = traces[:2]
    ctx.assumptions += ["that two jobs are used by default cannot be seen from outside"]
