"""Common machinery of the checks: building, running TLC, evidence, verdicts."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not do its work (exit status 2)."""


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", PYO3_PYTHON="/usr/bin/python3", CARGO_INCREMENTAL="0",
             HOME=os.environ.get("HOME", "/root"))
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    return e


# ---------------------------------------------------------------- building

def _tree_stamp(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for root, sub, names in os.walk(d):
                sub[:] = sorted(x for x in sub if x not in ("target", ".git", ".build"))
                files += [os.path.join(root, n) for n in sorted(names)]
        for f in files:
            try:
                with open(f, "rb") as fh:
                    data = fh.read()
            except OSError:
                continue
            h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


REPO_SRC = [REPO + "/poppy", REPO + "/python", REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/README.md"]


def _build(name, manifest, packages, args, srcs):
    """Builds with cargo; what is rebuilt is decided by content, not by time stamps."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, name)
    stampf = os.path.join(BUILD, name + ".stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = _tree_stamp(srcs) + " ".join(args)
        try:
            with open(stampf) as f:
                if f.read() == stamp:
                    return target
        except OSError:
            pass
        e = env()
        e["CARGO_TARGET_DIR"] = target
        if os.path.exists(target):
            clean = ["cargo", "clean", "--offline", "--manifest-path", manifest]
            for p in packages:
                clean += ["-p", p]
            subprocess.run(clean, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd="/")
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest] + args,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/")
        if r.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (name, r.stdout[-6000:]))
        with open(stampf, "w") as f:
            f.write(stamp)
    return target


def build_harness(release=False):
    t = _build("harness-release" if release else "harness", VERIF + "/harness/Cargo.toml", ["poppy-filters", "harness"],
               ["--release"] if release else [], REPO_SRC + [VERIF + "/harness/src", VERIF + "/harness/Cargo.toml"])
    return os.path.join(t, "release" if release else "debug", "harness")


def build_repo():
    """The command line tool and the Python module, built as the project builds them."""
    t = _build("repo", REPO + "/Cargo.toml", ["poppy-filters", "poppy-py"], ["--workspace"], REPO_SRC)
    return os.path.join(t, "debug")


# --------------------------------------------------------------------- TLC

_NUM = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc(module, cfg, workers=1, extra=(), envx=None, heap="1500m", timeout=3000, tmp=None):
    """Runs TLC on spec/<module>.tla; returns (status, output)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = env()
    if envx:
        e.update(envx)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "md"), "-config", cfgf] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=d, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout


def cfg_text(consts=None, spec="Spec", invariants=(), properties=(), post=None, extra=""):
    out = ["SPECIFICATION " + spec]
    if consts:
        out.append("CONSTANTS")
        out += ["  %s = %s" % kv for kv in consts.items()]
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    if post:
        out.append("POSTCONDITION " + post)
    out.append("CHECK_DEADLOCK FALSE")
    if extra:
        out.append(extra)
    return "\n".join(out) + "\n"


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.violations, self.known = [], []
        self.troubles = []  # parts of the check that could not be done

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    # -- model checking of the specification itself

    def mc(self, module, consts=None, workers=None, expect_error=None, **kw):
        """Model checks; an error here is an error of the specification, not of the code."""
        heap = kw.pop("heap", "6g")
        extra = kw.pop("flags", ())
        timeout = kw.pop("timeout", 6000)
        st, out = tlc(module, cfg_text(consts, **kw), workers=workers or CORES, heap=heap, tmp=self.tmp,
                      extra=extra, timeout=timeout)
        m = _NUM.findall(out)
        if expect_error:
            if expect_error not in out:
                raise ToolError("model %s: expected %r to be found\n%s" % (module, expect_error, out[-3000:]))
        elif st != 0 or "No error has been found" not in out:
            raise ToolError("model %s does not check:\n%s" % (module, out[-5000:]))
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
            self.states += d
            self.transitions += g
            self.log("model %s %s: %d states, %d transitions" % (module, "refuted as expected" if expect_error else "holds", d, g))
        return out

    def prove(self, module):
        """Has TLAPS check the proofs of a module; like a model, they do not depend on the code."""
        exe = shutil.which("tlapm", path=env()["PATH"])
        if not exe:
            self.assumptions.append("the proofs of %s were not checked again, there is no tlapm" % module)
            return
        r = subprocess.run([exe, "--cleanfp", "--cache-dir", self.path("tlaps"), "--threads", str(CORES), "--stretch", "8", os.path.join(SPEC, module + ".tla")],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3000, cwd=self.tmp, errors="replace")
        m = re.search(r"All (\d+) obligations? proved", r.stdout)
        if r.returncode != 0 or not m:
            raise ToolError("the proofs of %s do not check:\n%s" % (module, r.stdout[-3000:]))
        self.extra["obligations_proved"] = self.extra.get("obligations_proved", 0) + int(m.group(1))
        self.log("proofs of %s: %s obligations" % (module, m.group(1)))

    # -- behaviours of the specification, as scripts

    def generate(self, module, consts, num, depth, spec="GSpec", procs=4, invariants=("Emit",)):
        jobs = []
        for i in range(procs):
            s = self.rng.randrange(1, 2 ** 31)
            jobs.append((max(1, num // procs), s))

        def one(j):
            st, out = tlc(module, cfg_text(consts, spec=spec, invariants=invariants), tmp=self.tmp,
                          extra=["-simulate", "num=%d" % j[0], "-depth", str(depth + 3), "-seed", str(j[1])])
            if "SCRIPT " not in out:
                raise ToolError("no scripts from %s:\n%s" % (module, out[-3000:]))
            res = []
            for line in out.splitlines():
                if line.startswith('"SCRIPT '):
                    res.append(json.loads(json.loads(line)[7:]))
            m = re.findall(r"number of states generated: ([\d,]+)", out)
            return res, int(m[-1].replace(",", "")) if m else 0
        with ThreadPoolExecutor(procs) as ex:
            got = list(ex.map(one, jobs))
        scripts = [s for r in got for s in r[0]]
        self.states += sum(n for _, n in got)
        self.transitions += sum(n for _, n in got)
        self.log("%d scripts of up to %d steps from %s" % (len(scripts), depth, module))
        return scripts

    # -- running the harness

    def harness(self, mode, scenarios, shards=CORES, timeout=600, release=False, limit_as=6 << 30):
        """Runs scenarios through the harness; returns one list of events per scenario.

        A crash or hang of the harness is recorded as a "crash" event."""
        exe = build_harness(release)
        parts = [[] for _ in range(min(shards, max(1, len(scenarios))))]
        for i, sc in enumerate(scenarios):
            parts[i % len(parts)].append((i, sc))

        def one(k):
            inp, outp = self.path("in%d.%s" % (k, mode)), self.path("out%d.%s" % (k, mode))
            with open(inp, "w") as f:
                for _, sc in parts[k]:
                    f.write(json.dumps(sc) + "\n")
            if os.path.exists(outp):
                os.remove(outp)
            status = run_limited([exe, mode, inp, outp], timeout, limit_as)
            groups = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        try:
                            ev = json.loads(line)
                        except ValueError:
                            break  # cut short by a crash
                        if ev.get("op") == "reset":
                            groups.append([])
                        groups[-1].append(ev)
            if status != 0:
                if not groups:
                    groups.append([{"op": "reset", "id": parts[k][0][1].get("id")}])
                groups[-1].append({"op": "crash", "s": 1, "res": "the process ends with " + str(status)})
            return {parts[k][j][0]: g for j, g in enumerate(groups)}
        res = {}
        with ThreadPoolExecutor(len(parts)) as ex:
            for r in ex.map(one, range(len(parts))):
                res.update(r)
        return [res.get(i, []) for i in range(len(scenarios))]

    # -- validating recorded traces against the specification

    def validate(self, module, groups, prop=None, cfg=None, shards=CORES, envx=None, timeout=3000, heap="2g"):
        """Validates groups of events; returns a list of (group, position, event, clauses)."""
        idx = [i for i, g in enumerate(groups) if g]
        parts = [p for p in ([] for _ in range(min(shards, max(1, len(idx)))))]
        sizes = [0] * len(parts)
        for i in sorted(idx, key=lambda i: -len(groups[i])):
            k = sizes.index(min(sizes))
            parts[k].append(i)
            sizes[k] += len(groups[i])
        cfg = cfg or cfg_text(spec="TSpec", post="Accepted_")

        def one(k):
            todo = list(parts[k])
            bad = []
            n = 0
            while todo:
                tr = self.path("tr%d.%s.ndjson" % (k, module))
                where = []
                with open(tr, "w") as f:
                    for i in todo:
                        for j, ev in enumerate(groups[i]):
                            f.write(json.dumps(ev) + "\n")
                            where.append((i, j))
                e = {"TRACE": tr, "PROP": prop or self.prop}
                e.update(envx or {})
                st, out = tlc(module, cfg, envx=e, tmp=self.tmp, heap=heap, timeout=timeout)
                m = re.search(r'REACHED (\d+) OF (\d+)', out)
                if st == 0 and m and m.group(1) == m.group(2):
                    n += len(where)
                    break
                r = re.search(r'^"REJECTED (.*)"$', out, re.M)
                if r:
                    info = json.loads(json.loads('"' + r.group(1) + '"'))
                    line, clauses = info["line"], info["clauses"]
                elif m:
                    line, clauses = int(m.group(1)) + 1, ["not a step of the specification"]
                else:
                    # an observation outside the types of the specification
                    q = re.search(r'The behavior up to this point is|evaluating', out)
                    s = re.findall(r'^/\\ l = (\d+)|^l = (\d+)', out, re.M)
                    if "Error:" in out and s and ("evaluat" in out or "Attempted" in out):
                        line = max(int(a or b) for a, b in s)
                        clauses = ["not a step of the specification (cannot be evaluated)"]
                        self.log("\n".join(re.findall(r"^Error: .*|^Attempted.*|^In .*", out, re.M)[:6]))
                    else:
                        raise ToolError("TLC failed on %s:\n%s" % (module, out[-4000:]))
                line = min(line, len(where))
                i, j = where[line - 1]
                n += line
                bad.append((i, j, groups[i][j], clauses))
                if len(bad) >= 5:
                    break
                # go on with the groups after the rejected one
                todo = todo[todo.index(i) + 1:]
            return bad, n

        def safely(k):
            try:
                return one(k)
            except ToolError as e:
                self.troubles.append(str(e))
                return [], 0
        res = []
        with ThreadPoolExecutor(len(parts)) as ex:
            for bad, n in ex.map(safely, range(len(parts))):
                res += bad
                self.events += n
        self.traces += len(idx) - len(res)
        self.log("%s: %d traces, %d events, %d rejected" % (module, len(idx), sum(len(groups[i]) for i in idx), len(res)))
        return res

    def violation(self, what, replay):
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "tier": self.tier, "seed": self.seed, "replay": replay}, f, indent=1)
        self.violations.append((what, p))
        self.log("VIOLATION", what)

    def known_finding(self, key, what):
        """A failure listed in known-findings.txt is reported as such, others are violations."""
        if (self.prop, key) in known_findings():
            self.known.append((key, what))
            return True
        return False

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples[:3]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what)
        sys.stdout.flush()
        for t in self.troubles:
            print("CHECK ERROR:", t, file=sys.stderr)
        return 1 if self.violations else 2 if self.troubles else 0


def known_findings():
    out = set()
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+)", line)
                if m:
                    out.add((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def run_limited(cmd, timeout, limit_as=None, **kw):
    """Exit status; "a timeout" / "signal n" as text."""
    import resource

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    try:
        r = subprocess.run(cmd, timeout=timeout, preexec_fn=pre, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, **kw)
    except subprocess.TimeoutExpired:
        return "a timeout"
    return r.returncode if r.returncode >= 0 else "signal %d" % -r.returncode
