"""The command line tool: C14, C15, C16, C21."""
import hashlib, json, os, re, shutil, struct, subprocess
from core import *
import filters
from filters import hexf

CMDS = {"C14": ["create", "insert", "spoil"], "C15": ["create", "insert", "check"],
        "C16": ["create", "insert", "check", "show", "bench", "spoil"], "C21": ["create", "insert", "show", "spoil"]}
SLOTS = ("a", "b", "c")
BAD = b"\xff\xfe\x80 not text"


def text_pool(rng, n):
    special = ["", " ", "x", "12345678", "-v", "--stdin", "a\tb", "trailing ", "a: NOK", "a", "é߀", "\x00\x01", "0" * 20000, "ab" * 40000,
               "a/b\\c", "%s{}", "12345678\x00", "﻿bom", "a\rb"]
    p = rng.sample(special, min(len(special), n // 2))
    while len(p) < n:
        s = "".join(rng.choice("abcdefghijklmnop0123456789-_.") for _ in range(rng.choice([1, 3, 8, 9, 16, 20, 32, 33, 64, 100])))
        if s not in p:
            p.append(s)
    rng.shuffle(p)
    return p


def encode(rng, lines, pool):
    nl = rng.choice(["\n", "\n", "\r\n"])
    b = nl.join(pool[e - 1] for e in lines) + (nl if lines else "")
    if lines and pool[lines[-1] - 1] != "" and rng.random() < .4:
        b = b[:-len(nl)]
    return b.encode()


def filter_len(b):
    """Length of a saved filter without attached data."""
    q = lambda o: struct.unpack("<Q", b[o:o + 8])[0]
    try:
        if b[0] == 1:
            return 48 + (q(32) + 63) // 64 * 8
        c = (q(40) + 7) // 8
        return 56 + c + 4096 * q(48 + c)
    except (IndexError, struct.error):  # not a filter
        return len(b)


class Play:
    """Runs a history of commands in a directory of its own."""

    def __init__(self, ctx, rng, sid, pool, snaps):
        self.rng, self.pool, self.snaps, self.sid = rng, pool, snaps, sid
        self.exe = os.path.join(build_repo(), "poppy")
        self.dir = ctx.path("cli%d" % sid)
        self.snapdir = ctx.path("snaps")
        os.makedirs(self.snapdir, exist_ok=True)
        os.makedirs(os.path.join(self.dir, "w"))
        self.w = os.path.join(self.dir, "w")
        self.events = [{"op": "reset", "id": sid}]
        self.n = 0
        self.state = {s: "none" for s in SLOTS}
        self.fds = []  # pipes the next command reads from

    def slot(self, s):
        return os.path.join(self.w, s)

    def tree(self):
        out = {}
        for root, dirs, files in os.walk(self.w):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.w)] = hashlib.sha256(fh.read()).hexdigest()
            for d in dirs:
                out[os.path.relpath(os.path.join(root, d), self.w)] = "dir"
        return out

    def snap(self, ev):
        """What is in the slot now; looked into later, all at once."""
        p = self.slot(ev["s"])
        if not os.path.isfile(p):
            ev["file"] = "junk" if os.path.exists(p) else "none"
            return
        if self.state[ev["s"]] == "junk":
            ev["file"] = "junk"
            return
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        dst = os.path.join(self.snapdir, "%d-%s" % (self.sid, h[:24]))
        if dst not in self.snaps:
            shutil.copyfile(p, dst)
            self.snaps[dst] = self.pool
        ev["snap"] = dst

    def inputs(self, kind, sizes=None, lo=1, hi=None):
        rng = self.rng
        n = {"none": 0, "one": 1, "two": 2, "several": rng.randrange(3, 6), "many": rng.randrange(8, 13), "same": 1}[kind] if isinstance(kind, str) else kind
        ins = []
        for _ in range(n):
            k = rng.choice([0, 1, 1, 2, 3, 6]) if sizes is None else sizes
            ins.append({"kind": "text", "lines": [rng.randrange(lo, (hi or len(self.pool)) + 1) for _ in range(k)]})
        if kind == "same":
            ins = ins * rng.choice([2, 3])
        return ins

    def materialise(self, ins, mixed=False):
        names, cache = [], {}
        for i, x in enumerate(ins):
            if id(x) in cache:
                names.append(cache[id(x)])
                continue
            self.n += 1
            name = os.path.join(self.w, self.rng.choice(["in%d", "in%d", "in %d.txt", "-%d", "é%d", "*%d", ".in%d", "%d"]) % self.n)
            if x["kind"] == "dir":
                os.makedirs(name)
            elif x["kind"] != "missing":
                b = encode(self.rng, x["lines"], self.pool)
                if x["kind"] == "binary":
                    if x["lines"] and not b.endswith(b"\n"):
                        b += b"\n"
                    b += BAD + b"\n" + (self.pool[1] + "\n").encode()
                if mixed and len(b) < 50000 and sum(y is x for y in ins) == 1 and self.rng.random() < .4:
                    # as the shell does it for <(...)
                    r, w = os.pipe()
                    os.write(w, b)
                    os.close(w)
                    self.fds.append(r)
                    x["via"], cache[id(x)] = "pipe", "/dev/fd/%d" % r
                    names.append(cache[id(x)])
                    continue
                with open(name, "wb") as f:
                    f.write(b)
                if mixed and self.rng.random() < .4:
                    x["via"] = "link"
                    os.symlink(name, name + "~")
                    name += "~"
            if self.rng.random() < .3:  # relative to where the command runs
                name = os.path.relpath(name, self.dir)
            cache[id(x)] = name
            names.append(name)
        return names

    def spoilt(self, ins, bad, why):
        x = {"kind": why, "lines": [self.rng.randrange(1, len(self.pool) + 1)] if why == "binary" else []}
        if bad == "only":
            return [x]
        if bad == "first":
            return [x] + ins
        if bad == "last":
            return ins + [x]
        if bad == "middle":
            m = max(1, len(ins) // 2)
            return ins[:m] + [x] + ins[m:]
        return ins

    def run(self, args, stdin=b"", pre=None, timeout=60, out=subprocess.PIPE):
        try:
            r = subprocess.run([self.exe] + args, input=stdin, stdout=out, stderr=subprocess.PIPE, timeout=timeout, cwd=self.dir, preexec_fn=pre, pass_fds=self.fds)
            return str(r.returncode), r.stdout or b"", r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""
        finally:
            for f in self.fds:
                os.close(f)
            self.fds = []

    def parse(self, out, verify):
        res = []
        ids = {t.encode(): i + 1 for i, t in enumerate(self.pool)}
        for line in out.split(b"\n")[:-1] if out.endswith(b"\n") else out.split(b"\n") if out else []:
            if verify:
                e = ids.get(line[:-5], 0) if line.endswith(b": NOK") else 0
            else:
                e = ids.get(line, 0)
            res.append({"e": e, "nok": verify})
        return res

    def command(self, o, ins=None, stdin=None, pre=None, strict=False):
        rng, s = self.rng, o["s"]
        if o["cmd"] == "spoil":
            return self.spoil(o)
        if o["cmd"] in ("show", "bench"):
            ins, stdin = [], {"used": False, "kind": "text", "lines": []}
        if ins is None:
            ins = self.spoilt(self.inputs(o["in"]), o["bad"], o["why"])
        if o["cmd"] == "create":
            stdin = {"used": False, "kind": "text", "lines": []}
        elif stdin is None:
            bad = o["bad"] == "stdin"
            stdin = {"used": o["stdin"] or not ins, "kind": "binary" if bad else "text", "lines": [rng.randrange(1, len(self.pool) + 1) for _ in range(rng.choice([0, 1, 3, 8]))]}
        copies = {}
        ins = [copies.setdefault(id(x), dict(x, via="file")) for x in ins]
        names = self.materialise(ins, not strict and not pre and rng.random() < (.06 if o["cmd"] == "create" else .3))
        sin = encode(rng, stdin["lines"], self.pool) if stdin["used"] else b""
        if stdin["kind"] == "binary":
            sin += b"\n" * (not sin.endswith(b"\n") and bool(sin)) + BAD + b"\n"
        ev = {"op": "cmd", "cmd": o["cmd"], "s": s, "jobs": o.get("jobs", 2), "inputs": ins, "stdin": stdin, "bad": o.get("bad", "no"), "strict": strict}
        a = [] if ev["jobs"] == 2 and rng.random() < .5 else rng.choice([["-j", str(ev["jobs"])], ["--jobs=%d" % ev["jobs"]]])
        if rng.random() < .2:
            a = a + ["-v"]
        tgt, link = self.slot(s), None
        if not strict and not pre and rng.random() < .15:
            link = tgt = os.path.join(self.dir, "to-" + s)
            if not os.path.lexists(link):
                os.symlink(self.slot(s), link)
        if o["cmd"] == "create":
            fpp = o.get("fpp") or rng.choice([0.1, 0.01, 0.01, 0.001, 1e-6])
            cap = o.get("cap")
            if cap is None:
                cap = {"plenty": rng.choice([100, 1000, 3000]), "tight": rng.randrange(5, 12), "exceeded": rng.randrange(1, 4), "zero": 0}[o["room"]]
            v, opt = o.get("v") or rng.choice([1, 2, 2]), o.get("opt") if o.get("opt") is not None else rng.randrange(4)
            why = o["why"] if o["bad"] == "params" else ""
            pa = {"fpp": rng.choice(["2", "0", "-1", "nan", "inf"])}.get(why, repr(fpp))
            if why == "arg":
                pa = "abc"
            va = rng.choice(["0", "3", "255"]) if why == "version" else str(v)
            oa = rng.choice(["4", "9", "255"]) if why == "opt" else str(opt)
            ev.update(v=v, opt=opt, fpp=hexf(fpp), cap=cap)
            args = a + ["create", "--version", va, "-c", str(cap), "--probability=" + pa, "-O", oa, tgt] + names
        elif o["cmd"] == "insert":
            args = a + ["insert"] + (["--stdin"] if stdin["used"] and (ins or rng.random() < .5) else []) + [tgt] + names
        elif o["cmd"] == "check":
            args = a + ["check"] + (["--stdin"] if stdin["used"] and (ins or rng.random() < .5) else []) + (["--verify"] if o["verify"] else []) + \
                (["--silent"] if o["silent"] else []) + [tgt] + names
            ev.update(verify=o["verify"], silent=o["silent"], full=o.get("full", rng.random() < .06))
        elif o["cmd"] == "show":
            args = ["show", tgt]
        else:
            args = ["bench", "-r", "1"] + ([tgt] if rng.random() < .8 else [])
            sin = encode(rng, [rng.randrange(1, len(self.pool) + 1) for _ in range(4)], self.pool)
        before = self.tree()
        if ev.get("full"):
            with open("/dev/full", "wb") as f:
                code, out, err = self.run(args, sin, pre, out=f)
        else:
            code, out, err = self.run(args, sin, pre)
        if link and not os.path.islink(link) and os.path.isfile(link):
            # the link was replaced by the file: just as good
            os.replace(link, self.slot(s))
        after = self.tree()
        ev["exit"] = code
        ev["changed"] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        ev["out"] = self.parse(out, o["verify"]) if o["cmd"] == "check" else []
        if o["cmd"] == "show":
            self.shown(ev, out.decode(errors="replace"))
        if s in ev["changed"]:
            self.state[s] = "changed"
        self.snap(ev)
        ev["args"] = " ".join(x if len(x) < 80 else x[:80] for x in args).replace(self.w + "/", "")[:400]
        self.events.append(ev)
        for n in names:  # inputs are not needed any more
            n = os.path.join(self.dir, n)
            if n.startswith(self.dir) and os.path.isfile(n):
                os.remove(n)
        return ev

    def shown(self, ev, out):
        F = {"version": r"^\tversion +: (\S+)$", "capacity": r"^\tcapacity[^:]*: (\S+)$", "n": r"^\tn \([^:]*: (\d+)$", "fpp": r"^\tfpp[^:]*: (\S+)$",
             "data": r"^\tLength of data +: (\d+)\.(\d)([KMG]?B)$", "size": r"^\tSize of bloom filter +: (\d+)\.(\d)([KMG]?B)$"}
        sh, n = {}, 0
        for k, rx in F.items():
            m = re.findall(rx, out, re.M)
            n += len(m)
            if m:
                v = m[0]
                if k in ("data", "size"):
                    v = {"t": min(10 * int(v[0]) + int(v[1]), 2000000000), "unit": v[2]}
                elif k == "n":
                    v = min(int(v), 2000000000)
                elif k == "fpp":
                    try:
                        v = hexf(float(v))
                    except ValueError:
                        v = "not a number"
                sh[k] = v
        ev["fields"] = n if len(sh) == 6 else 0
        ev["show"] = sh

    def spoil(self, o):
        s, p, rng = o["s"], self.slot(o["s"]), self.rng
        how = o["how"]
        if how == "remove":
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.remove(p)
            self.state[s] = "none"
        elif how == "junk":
            if not os.path.isdir(p):
                if os.path.exists(p):
                    os.remove(p)
                k = rng.randrange(6)
                if k == 0:
                    os.makedirs(p)
                else:
                    with open(p, "wb") as f:
                        f.write([b"", b"some text\n" * 20, b"\x02", bytes(rng.randrange(3, 256) for _ in range(500)), b"\x02\x00\x00\x00\x00\x00\x00\x00" + b"\x07" * 30][k - 1])
            self.state[s] = "junk"
        elif os.path.isfile(p) and self.state[s] == "changed":
            with open(p, "rb") as f:
                b = f.read()
            with open(p, "wb") as f:
                if how == "cut":
                    # the announced bits are not all there
                    end = filter_len(b)
                    f.write(b[:rng.choice([rng.randrange(40), rng.randrange(end or 1), max(0, end - rng.randrange(1, 9)), max(0, min(rng.randrange(48, 80), end - 1))])])
                    self.state[s] = "junk"
                else:
                    n = o.get("n")
                    f.write(b + bytes(rng.randrange(256) for _ in range(n if n is not None else rng.choice([1, 10, 100, 1023, 1024, 1100, 5000]))))
        ev = {"op": "file", "s": s}
        self.snap(ev)
        self.events.append(ev)
        return ev

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def probes(ctx, plays):
    """Looks into all the files kept and completes the events."""
    snaps = {}
    for p in plays:
        snaps.update(p.snaps)
    names = sorted(snaps)
    g = ctx.harness("probe", [{"id": i, "file": n, "pool": [t.encode().hex() for t in snaps[n]]} for i, n in enumerate(names)])
    seen = {n: next((e for e in x if e["op"] == "probe"), None) for n, x in zip(names, g)}
    for p in plays:
        for ev in p.events:
            n = ev.pop("snap", None)
            if n:
                e = seen[n] or {"file": "panic"}
                ev.update({k: e[k] for k in ("file", "post", "ent") if k in e})
                if ev["op"] != "cmd" or ev["cmd"] in ("check", "show", "bench"):
                    ev.pop("ent", None)
    return [p.events for p in plays]


def play(ctx, jobs):
    """jobs: (pool, function of a Play); returns the recorded events."""
    seeds = [ctx.rng.randrange(2 ** 62) for _ in jobs]
    plays = []

    def one(i):
        p = Play(ctx, random.Random(seeds[i]), i, jobs[i][0], {})
        try:
            jobs[i][1](p)
        except Exception as e:  # ends here; what was recorded is still judged
            ctx.troubles.append("history %d: %r" % (i, e))
        finally:
            p.close()
        return p
    with ThreadPoolExecutor(CORES) as ex:
        plays = list(ex.map(one, range(len(jobs))))
    return probes(ctx, plays)


def history(script):
    def go(p):
        p.spoil({"s": "c", "how": "junk"})
        for o in script:
            p.command(o)
    return go


C = lambda **kw: dict({"cmd": "create", "s": "a", "in": "none", "jobs": 2, "bad": "no", "why": "no", "room": "plenty"}, **kw)
I = lambda **kw: dict({"cmd": "insert", "s": "a", "in": "one", "jobs": 2, "bad": "no", "why": "no", "stdin": False}, **kw)
K = lambda **kw: dict({"cmd": "check", "s": "a", "in": "one", "jobs": 2, "bad": "no", "why": "no", "stdin": False, "verify": False, "silent": False}, **kw)


def grid(ctx, prop):
    """Every number of files with every number of jobs."""
    rng, out = ctx.rng, []
    nf = range(1, 10) if ctx.quick else range(1, 14)
    many = [(f, rng.choice([0, 3, 5, 7, 16, 31, 33, 64, 100, 200])) for f in (15, 16, 17, 31, 32, 33, 50, 64, 65, 100, 130, 257) for _ in range(1 if ctx.quick else 4)]
    many += [(65, 65), (100, 100), (130, 300), (257, 0), (257, 300)]
    for files, jobs in [(f, j) for f in nf for j in list(range(0, 10 if ctx.quick else 16)) + [1000, 2 ** 40]] + many:
        def go(p, files=files, jobs=jobs):
            n = len(p.pool)
            lines = list(range(1, n + 1))
            p.rng.shuffle(lines)
            # each file has lines of its own
            parts = [lines[i::files] for i in range(files)]
            ins = [{"kind": "text", "lines": x} for x in parts]
            if prop == "C14":
                if files % 2:
                    p.command(C(jobs=jobs), ins=ins)
                else:
                    p.command(C(room="plenty"))
                    p.command(I(jobs=jobs, stdin=jobs % 3 == 1), ins=ins)
            else:
                p.command(C(room="plenty"))
                p.command(I(), ins=[{"kind": "text", "lines": lines[: n // 2]}])
                p.command(K(jobs=jobs, verify=jobs % 2 == 1, stdin=jobs % 3 == 1), ins=ins)
        out.append((text_pool(rng, max(30, files + 5)), go))
    return out


def heavy(ctx, prop):
    """Many lines at once: threads get in each other's way."""
    out = []
    for k in range(6 if ctx.quick else 30):
        n = 1500

        def go(p, k=k, n=n):
            rng = p.rng
            files = rng.choice([4, 8, 11])
            ins = [{"kind": "text", "lines": [rng.randrange(1, n + 1) for _ in range(rng.choice([0, 5, 300, 600]))]} for _ in range(files)]
            jobs = rng.choice([0, 3, 8, 20])
            if prop == "C14":
                p.command(C(jobs=jobs, v=1 + k % 2, opt=k % 4), ins=ins)
                p.command(C(s="b", cap=n + 50, jobs=jobs, v=2, opt=k % 4))
                p.command(I(s="b", jobs=jobs, stdin=True), ins=ins)
            else:
                p.command(C(jobs=jobs, v=1 + k % 2, cap=2 * n, fpp=1e-6))
                p.command(I(jobs=jobs), ins=ins[: files // 2])
                p.command(K(jobs=jobs, stdin=True), ins=ins)
                p.command(K(jobs=jobs, verify=True), ins=ins)
        pool = ["".join(ctx.rng.choice("abcdef0123456789") for _ in range(ctx.rng.choice([16, 32, 64]))) + "%d" % i for i in range(n)]
        out.append((pool, go))
    return out


def unequal(ctx):
    """Files of very different length, so that threads end in any order; failures of single threads."""
    out = []
    for k in range(40 if ctx.quick else 200):
        def go(p):
            rng = p.rng
            n = len(p.pool)
            ins = [{"kind": "text", "lines": [rng.randrange(1, n + 1) for _ in range(rng.choice([0, 0, 1, 2, 200]))]} for _ in range(rng.randrange(2, 8))]
            if rng.random() < .5:
                ins.insert(rng.randrange(len(ins) + 1), {"kind": rng.choice(["missing", "dir", "binary"]), "lines": []})
            p.command(C(cap=rng.choice([5, 30, 100])))
            p.command(I(jobs=rng.choice([0, 1, 2, 3, 5]), stdin=rng.random() < .3), ins=ins)
            p.command(C(s="b", jobs=rng.choice([0, 1, 2, 3, 5])), ins=ins)
            if rng.random() < .3:
                p.command(I(s="b", jobs=1), ins=ins)
        out.append((text_pool(ctx.rng, 20), go))
    return out


def sizes(ctx):
    """Files of which show must tell the right sizes."""
    out = []
    lens = [0, 1, 999, 1023, 1024, 1025, 1075, 1076, 10 * 1024 - 1, 102399, 1048575, 1048576, 1048577, 1101004, 1101005, 2 * 1048576, 9 * 1048576 + 500000]
    for k, n in enumerate(lens):
        def go(p, k=k, n=n):
            p.command(C(v=1 + k % 2, cap=p.rng.choice([1, 10, 5000, 100000, 10 ** 6]), opt=p.rng.randrange(4), fpp=p.rng.choice([0.5, 0.3, 0.1, 0.05, 0.01, 1e-3, 1e-7, 0.123456789012345])))
            if n:
                p.command({"cmd": "spoil", "s": "a", "how": "data", "n": n})
            p.command({"cmd": "show", "s": "a"})
            p.command(I(), ins=p.inputs("several"))
            p.command({"cmd": "show", "s": "a"})
        out.append((text_pool(ctx.rng, 8), go))
    for cap in (0, 1, 1000, 2 ** 14, 150000):
        for v in (1, 2):
            def go(p, cap=cap, v=v):
                p.command(C(v=v, cap=cap, fpp=0.01))
                p.command({"cmd": "show", "s": "a"})
                p.command({"cmd": "show", "s": "b"})
            out.append((text_pool(ctx.rng, 8), go))
    return out


def model(ctx):
    base = {"Entries": "{1, 2}", "MaxFiles": 3, "MaxLines": 1, "MaxJobs": 4 if not ctx.quick else 3, "Caps": "{1, 2}" if not ctx.quick else "{1}"}
    ctx.mc("MCCli", base, invariants=["BatchesCover", "Complete", "Unharmed", "Reported", "Succeeds", "Enough", "OneBatch", "Printed"], properties=["Ends"])
    ctx.mc("MCCli", dict(base, MaxFiles=2), invariants=["JobsDoNotMatter"], expect_error="JobsDoNotMatter is violated")
    if not ctx.quick:
        ctx.prove("ProofCli")
        ctx.mc("MCCli", dict(base, MaxFiles=5, MaxJobs=7, Entries="{1}", Caps="{1}"), invariants=["BatchesCover", "Complete", "Unharmed", "Reported", "Succeeds", "Printed"])
        ctx.mc("MCCli", dict(base, MaxFiles=2, MaxLines=2), invariants=["BatchesCover", "Complete", "Unharmed", "Reported", "Succeeds", "Enough", "OneBatch", "Printed"])


ALTER = {"C14": ("cmd", lambda e: e["cmd"] == "insert" and e["exit"] == "0" and e["post"]["bits"] and e["post"].update({"bits": e["post"]["bits"][2:]})),
         "C15": ("cmd", lambda e: e["cmd"] == "check" and e["exit"] == "0" and e["out"] and e["out"].pop()),
         "C16": ("cmd", lambda e: e["cmd"] == "check" and e["changed"].append(e["s"])),
         "C21": ("cmd", lambda e: e["cmd"] == "show" and e["exit"] == "0" and e["show"].update(n=e["show"]["n"] + 1))}


def run(ctx):
    p, rng = ctx.prop, ctx.rng
    if p in ("C14", "C15", "C16"):
        model(ctx)
    n, depth = {"C14": 120, "C15": 120, "C16": 240, "C21": 60}[p] * (1 if ctx.quick else 8), 10 if ctx.quick else 14
    scripts = ctx.generate("GenCli", {"Depth": depth, "Cmds": tla_set(CMDS[p])}, n, depth)
    jobs = [(text_pool(rng, rng.choice([8, 14, 24])), history(s)) for s in scripts]
    if p in ("C14", "C15"):
        jobs += grid(ctx, p) + heavy(ctx, p)
    if p in ("C14", "C16"):
        jobs += unequal(ctx)
    if p == "C21":
        jobs += sizes(ctx)
    traces = play(ctx, jobs)
    ctx.log("%d histories, %d commands" % (len(traces), sum(len(t) - 1 for t in traces)))
    rej = ctx.validate("TraceCli", traces)
    sc = [{"id": i, "commands": [e.get("args", e["op"]) for e in t]} for i, t in enumerate(traces)]
    filters.report(ctx, rej, sc, traces, "cli")
    filters.demonstrate(ctx, traces, "TraceCli", ALTER[p])
    ctx.samples = [{k: v for k, v in e.items() if k in ("args", "exit", "out", "changed", "inputs")} for e in traces[0][1:4]]
    ctx.extra["commands"] = sum(1 for t in traces for e in t if e["op"] == "cmd")
    ctx.extra["commands_failing"] = sum(1 for t in traces for e in t if e["op"] == "cmd" and e["exit"] != "0")
    if p == "C14":
        known(ctx, "insert-j2-over-capacity", "insert -j 2 of two files with 8 lines each into a filter for 10 succeeds, -j 1 fails: every job has the whole capacity for itself", over_capacity)
    if p == "C16":
        known(ctx, "insert-device-full", "insert whose saving fails for want of space has already truncated the filter file", device_full)
    if p == "C21":
        import bench, show
        bench.run(ctx)
        show.run(ctx)
    ctx.assumptions += ["thread schedules are those that occur; all schedules in the model only",
                        "what a file holds is read through the library (C08, C09)"]


def over_capacity(p):
    p.command(C(v=2, opt=0, fpp=0.01, cap=10))
    p.command(I(jobs=2), ins=[{"kind": "text", "lines": list(range(1, 9))}, {"kind": "text", "lines": list(range(9, 17))}], strict=True)


def device_full(p):
    import resource, signal

    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (1000, 1000))
    p.command(C(v=2, opt=0, fpp=0.01, cap=10))
    p.command(I(jobs=1), ins=[{"kind": "text", "lines": [1, 2]}], pre=pre)


def known(ctx, key, what, go):
    """A history listed in known-findings.txt; what it breaks is reported as such."""
    tr = play(ctx, [(["entry number %d" % i for i in range(16)], go)])
    for r in ctx.validate("TraceCli", tr, shards=1):
        expected = {"insert-j2-over-capacity": {"the capacity is enforced"}, "insert-device-full": {"a failing command leaves the target as it was"}}[key]
        if set(r[3]) != expected or not ctx.known_finding(key, what):
            filters.report(ctx, [r], [{"commands": [e.get("args", e["op"]) for e in tr[0]]}], tr, "cli")
