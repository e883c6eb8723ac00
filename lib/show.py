"""C21: show on files of filters up to many GB, of which only the ends are written."""
import os, re, struct, subprocess
from core import *
import filters

FIELDS = {"version": r"^\tversion +: (\S+)$", "capacity": r"^\tcapacity[^:]*: (\d+)$", "n": r"^\tn \([^:]*: (\d+)$", "fpp": r"^\tfpp[^:]*: (\S+)$",
          "data": r"^\tLength of data +: (\d+)\.(\d)([KMG]?B)$", "size": r"^\tSize of bloom filter +: (\d+)\.(\d)([KMG]?B)$"}
le = lambda n: list((n & (2 ** 64 - 1)).to_bytes(8, "little"))


def shown(out):
    """What was printed, and how many properties in all."""
    sh, n = {}, 0
    for k, rx in FIELDS.items():
        m = re.findall(rx, out, re.M)
        n += len(m)
        if not m:
            continue
        v = m[0]
        if k in ("data", "size"):
            v = {"t": min(10 * int(v[0]) + int(v[1]), 2000000000), "unit": v[2]}
        elif k == "fpp":
            try:
                v = list(struct.pack("<d", float(v)))
            except ValueError:
                v = []
        elif k != "version":
            v = le(int(v))
        sh[k] = v
    return sh, n if len(sh) == 6 else 0


def case(rng, bytes_):
    """A header of a filter of about this many bytes."""
    v = rng.choice([1, 2, 2])
    opt = 0 if v == 1 else rng.randrange(4)
    cap = rng.choice([0, 1, rng.randrange(2 ** 32), 2 ** 32 + rng.randrange(5), rng.randrange(2 ** 63), 2 ** 64 - 1])
    cnt = rng.choice([0, 1, cap, cap // 2, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 64 - 1])
    p = rng.choice([1.0, 0.5, 0.1, 0.01, 1e-9, 2 ** -1022, rng.random() or .5])
    hdr = [v, opt, 0, 0, 0, 0, 0, 0] + le(cap) + list(struct.pack("<d", p)) + le(rng.randrange(1, 60))
    if v == 1:
        m = max(0, 8 * bytes_ + rng.choice([0, -1, 1, -63, rng.randrange(64)]))
        return hdr + le(m) + le(cnt), 0, None, 48 + (m + 63) // 64 * 8
    cb = 0 if opt < 2 else 8 * rng.randrange(1 + bytes_ // rng.choice([1, 2, 100]))
    nb = (bytes_ - cb // 8) // 4096 + rng.choice([0, 0, 1])
    at = 48 + cb // 8
    return hdr + le(cnt) + le(cb), nb, at, at + 8 + 4096 * nb


def one(ctx, i, rng, size):
    hdr, nb, at, end = case(rng, size)
    dlen = rng.choice([0, 1, 1000, 5000, 3 << 20])
    path = ctx.path("show%d" % i)
    with open(path, "wb") as f:
        f.write(bytes(hdr))
        if at is not None:
            f.seek(at)
            f.write(bytes(le(nb)))
        f.truncate(end + dlen)
    ev = {"op": "show", "hdr": hdr, "nb": le(nb), "dlen": dlen, "show": {}, "fields": 0, "bytes": str(end)}
    try:
        r = subprocess.run([os.path.join(build_repo(), "poppy"), "show", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        ev["exit"] = str(r.returncode)
        ev["show"], ev["fields"] = shown(r.stdout.decode(errors="replace"))
    except subprocess.TimeoutExpired:  # one that reads all of it
        ev = None
    os.remove(path)
    return [{"op": "reset", "id": i}] + ([ev] if ev else [])


def run(ctx):
    rng = ctx.rng
    sizes = []
    for e in (10, 20, 30):
        u = 1 << e
        sizes += [u - 1, u, u + 1, u + u // 20, u - u // 30, 9 * u, 10 * u + u // 2, 1023 * u + u // 2 if e < 30 else 33 * u]
    sizes += [(1 << 29) - 8, 1 << 29, (1 << 31) + 8, (1 << 32) - 4096, (1 << 32) + 4096, 0]
    sizes += [rng.randrange(1 << rng.randrange(10, 36)) for _ in range(20 if ctx.quick else 200)]
    seeds = [rng.randrange(2 ** 62) for _ in sizes]
    build_repo()
    with ThreadPoolExecutor(CORES) as ex:
        traces = list(ex.map(lambda i: one(ctx, i, random.Random(seeds[i]), sizes[i]), range(len(sizes))))
    rej = ctx.validate("TraceShow", traces, shards=2)
    filters.report(ctx, rej, [{"bytes": s} for s in sizes], traces, "show")
    filters.demonstrate(ctx, traces, "TraceShow", ("show", lambda e: e["exit"] == "0" and e["fields"] == 6 and e["show"]["size"].update(t=e["show"]["size"]["t"] + 2)))
    ctx.extra["files_shown"] = sum(len(t) > 1 for t in traces)
