"""C21: the bench command, on filters with a known share of bits set."""
import os, re, struct, subprocess
from core import *
import filters, show
from filters import hexf


def layout(b):
    q = lambda o: struct.unpack("<Q", b[o:o + 8])[0]
    if b[0] == 1:
        return {"k": q(24), "m": q(32), "nb": 1, "bits": 48, "cache": (48, 48)}
    c = (q(40) + 7) // 8
    return {"k": q(24), "m": 32768, "nb": q(48 + c), "bits": 56 + c, "cache": (48, 48 + c)}


def one(ctx, i, rng, c):
    d = ctx.path("bench%d" % i)
    os.makedirs(d)
    exe = os.path.join(build_repo(), "poppy")
    ln = c["len"]
    if ln < 9:  # as many as there are; of one length, as entries up to 8 bytes count as filled with zeros
        lines = sorted({"".join(rng.choice(c["abc"]) for _ in range(ln)).encode() for _ in range(c["n"])})
        rng.shuffle(lines)
    else:
        abc = rng.choice(["abcdefghijklmnopqrstuvwxyz0123456789"] * 2 + ["abcdeé߀"])
        lines = [("%08d" % k + "".join(rng.choice(abc) for _ in range(ln - 8))).encode() for k in range(c["n"])]
    put = set(lines) if c["miss"] is None else set(lines) - {lines[c["miss"]]}
    flt = os.path.join(d, "f")
    ev = {"op": "bench", "file": c["file"], "tol": c["tol"], "fpp": list(struct.pack("<d", c["p"])), "k": 1, "m": 32768, "occ": [0], "limit": c["size"] << 20, "few": min(c["n"], c["n"] if c["test"] is None else c["test"]) < 2000,
          "asked": -1 if c["test"] is None else c["test"], "v": c["v"], "fpp7": round(c["p"] * 10 ** 7)}
    args = ["bench", "-r", str(c["runs"]), "-s", str(c["size"]), "--fp-tol=%g" % (c["tol"] / 10)] + ([] if c["test"] is None else ["--test-size=%d" % c["test"]])
    if c["file"]:
        with open(os.path.join(d, "e"), "wb") as f:
            f.write(b"".join(l + b"\n" for l in lines if l in put))
        r = subprocess.run([exe, "create", "--version", str(c["v"]), "-c", str(max(c["n"], c["least"]) * c["slack"]), "-p", repr(c["p"]), "-O", str(c["opt"]), flt], stderr=subprocess.DEVNULL, timeout=120)
        r2 = subprocess.run([exe, "insert", flt, os.path.join(d, "e")], stderr=subprocess.DEVNULL, timeout=120)
        if r.returncode or r2.returncode:
            shutil.rmtree(d, ignore_errors=True)
            return None  # C14
        with open(flt, "rb") as f:
            b = bytearray(f.read())
        l = layout(b)
        if c["share"] is not None:
            # the share of bits that gives this multiple of the rate allowed
            rate = c["share"] * c["p"] * (1 + c["tol"] / 10)
            want = min(1.0, rate ** (1 / l["k"])) if rate < 1 else 1.0
            b[l["cache"][0]:l["cache"][1]] = b"\xff" * (l["cache"][1] - l["cache"][0])
            for r in range(l["nb"]):
                base = l["bits"] * 8 + r * l["m"]
                ones = sum(b[(base + x) >> 3] >> ((base + x) & 7) & 1 for x in range(l["m"]))
                zero = [x for x in range(l["m"]) if not b[(base + x) >> 3] >> ((base + x) & 7) & 1]
                rng.shuffle(zero)
                for x in zero[:max(0, round(want * l["m"]) - ones)]:
                    b[(base + x) >> 3] |= 1 << ((base + x) & 7)
            with open(flt, "wb") as f:
                f.write(b)
        occ = []
        for r in range(l["nb"]):
            base = l["bits"] * 8 + r * l["m"]
            occ.append(sum(b[(base + x) >> 3] >> ((base + x) & 7) & 1 for x in range(l["m"])))
        ev.update(k=l["k"], m=l["m"], occ=[max(occ) if c["share"] is None or c["share"] < 1 else min(occ)])
        args += [flt]
    else:
        args += ["-v", str(c["v"]), "--fpp=%r" % c["p"], "-O", str(c["opt"])]
    # entries in blocks, so that the trace does not get too long
    chk = None
    if c["file"] and c["miss"] is not None:
        r = subprocess.run([exe, "check", flt], input=lines[c["miss"]] + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        chk = r.stdout == b""
    step = max(1, c["n"] // 64)
    dup = list(lines)
    if step == 1:  # repeated lines anywhere
        if ln > 1000:
            dup.insert(1, lines[0])
        for _ in range(rng.randrange(0, 3) if ln > 1000 else 30):
            at = rng.randrange(len(dup))
            dup.insert(rng.randrange(at, len(dup)) + 1, dup[at])
    elif c["size"] != 1:
        dup += [lines[rng.randrange(len(lines))] for _ in range(50)]
    ev["single"] = step == 1
    if step == 1:
        ev["lines"] = [{"id": lines.index(x), "len": len(x), "missing": bool(chk) and c["miss"] == lines.index(x)} for x in dup]
    else:
        ev["lines"] = [{"id": k // step, "len": sum(len(x) for x in lines[k:k + step]), "missing": bool(chk) and k <= c["miss"] < k + step} for k in range(0, c["n"], step)]
    out = ""
    try:
        r = subprocess.run([exe] + args, input=b"\n".join(dup) + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        ev["exit"] = str(r.returncode)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        ev["exit"] = "timeout"
    printed(ev, out)
    ev["n"] = len(lines)
    if c["file"]:
        r = subprocess.run([exe, "show", flt], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        ev["same"] = show.shown(r.stdout.decode(errors="replace")) == show.shown(out)
    ev["args"] = " ".join(args)
    shutil.rmtree(d, ignore_errors=True)
    return [{"op": "reset", "id": i}, ev]


def printed(ev, out):
    """What the command says about what it did; rates in units of 1 / 10^7."""
    rates = [float(x) for x in re.findall(r"^\tfp rate = +(\S+)$", out, re.M)]
    d = re.findall(r"^\tdataset size: (\d+)\.(\d)([KMG]?B) ", out, re.M)
    t = re.findall(r"^\ttest size: (\d+)$", out, re.M)
    sh, n = show.shown(out)
    ev["rates"] = [round(x * 10 ** 7) for x in rates if x == x]
    ev["conds"] = [int(x) for x in re.findall(r"^\tcondition: (-?\d+)%", out, re.M)] if len(rates) == 10 else []
    ev["used"] = {"t": 10 * int(d[0][0]) + int(d[0][1]), "unit": d[0][2]} if len(d) == 1 else {"t": 0, "unit": "?"}
    ev["test"] = min(int(t[0]), 2000000000) if len(t) == 1 else -1
    ev["show"], ev["fields"] = sh, n


def safely(ctx, i, rng, c):
    try:
        return one(ctx, i, rng, c)
    except Exception as e:
        ctx.troubles.append("benchmark %d: %r" % (i, e))


def run(ctx):
    rng = ctx.rng
    small = {"Texts": "{1, 2, 3}", "Others": "{12, 13}", "MaxLines": 3, "Limits": "{0, 1, 2}", "Conditions": 2 if ctx.quick else 3, "Careful": "TRUE"}
    invs = ["UsedIs", "Complete", "SoundPasses", "SaturatedFails"]
    ctx.mc("MCBench", small, spec="Spec", invariants=invs, properties=["Ends"])
    for inv in ("SoundPasses", "SaturatedFails"):
        ctx.mc("MCBench", dict(small, Careful="FALSE", MaxLines=2), spec="Spec", invariants=[inv], expect_error="Invariant %s is violated" % inv)
    cs = []

    def add(**kw):
        c = dict({"n": 3000, "len": rng.choice([9, 16, 33]), "miss": None, "file": True, "tol": 2, "p": rng.choice([0.05, 0.1, 0.2]), "size": rng.choice([0, 1, 100]),
                  "v": rng.choice([1, 2, 2]), "opt": rng.randrange(4), "slack": 1, "share": None, "runs": rng.choice([0, 1, 2, 3]), "least": 0, "abc": "ab", "test": rng.choice([None, None, None, 2500, 10 ** 6])}, **kw)
        cs.append(c)
    for k in range(1 if ctx.quick else 6):
        for v, opt in ((1, 0), (2, 0), (2, 1), (2, 2), (2, 3)):
            add(v=v, opt=opt, slack=20)                                          # hardly used
            add(v=v, opt=opt, slack=20, miss=rng.choice([0, 2999, rng.randrange(3000)]), p=0.001)
            add(v=v, opt=opt, slack=3, share=rng.choice([2.5, 3, 4]), tol=rng.choice([0, 2, 10]), p=0.05)
            add(v=v, opt=opt, slack=6, share=0.35, tol=rng.choice([10, 20, 50]), p=0.05)
            add(v=v, opt=opt, slack=2, share=100, p=rng.choice([0.01, 0.1]), tol=2)  # all bits set
            add(v=v, opt=0, file=False, p=0.1, tol=5)
        # fewer queries than entries, near the rate allowed
        for v, opt in ((1, 0), (2, 0), (2, 3)):
            for test in (0, 1, 40, 300):
                add(v=v, opt=opt, test=test, slack=3, share=rng.choice([.8, .9, 1, 1.1, 1.2]), tol=rng.choice([0, 1, 2, 10]), p=rng.choice([0.05, 0.3]))
            add(v=v, opt=opt, slack=3, share=rng.choice([.9, 1, 1.1]), tol=rng.choice([0, 1, 2, 10]), p=0.05)
        # entries beyond the limit do not matter, those before do
        for miss in (10, 1000, 3500):
            add(n=4000, len=600, size=1, miss=miss, p=0.001, slack=4, v=2, opt=0)
        add(n=4000, len=600, size=0, miss=3990, p=0.001, slack=4, v=2, opt=0)
        add(n=2500, len=600, size=100, miss=2490, p=0.001, slack=4, v=1, opt=0)
        # few entries, short ones, and ones that mutate into each other
        for v, opt in ((1, 0), (2, 0), (2, 2)):
            for n in (1, 3, 7, 20):
                add(v=v, opt=opt, n=n, least=1000, share=100, p=0.01)
                add(v=v, opt=opt, n=n, least=1000, p=0.001)
            add(v=v, opt=opt, n=rng.choice([1, 3, 40]), len=rng.choice([0, 1, 2]), least=1000, p=0.001, abc="abcdefgh")
            add(v=v, opt=opt, n=60, len=1, least=1000, p=0.001, abc=[chr(x) for x in range(32, 127)])
            add(v=v, opt=opt, n=60, len=1, least=1000, share=100, p=0.001, abc=[chr(x) for x in range(32, 64)])
            add(v=v, opt=opt, n=20, least=1000, miss=rng.randrange(20), p=0.001)
            # a line of 1 MB reaches the limit
            for _ in range(2):
                add(v=v, opt=opt, n=3, len=600000, size=1, least=1000, miss=rng.choice([1, 1, 2]), p=0.001)
    seeds = [rng.randrange(2 ** 62) for _ in cs]
    build_repo()
    with ThreadPoolExecutor(CORES) as ex:
        traces = [t for t in ex.map(lambda i: safely(ctx, i, random.Random(seeds[i]), cs[i]), range(len(cs)))]
    idx = [i for i, t in enumerate(traces) if t]
    traces = [traces[i] for i in idx]
    rej = ctx.validate("TraceBench", traces)
    filters.report(ctx, rej, [cs[i] for i in idx], traces, "bench")
    filters.demonstrate(ctx, traces, "TraceBench", ("bench", lambda e: e["file"] and e.update(exit="1" if e["exit"] == "0" else "0")))
    ctx.extra["benchmarks"] = len(traces)
