"""Carries out histories through the Python module (run by twins.py as a program of its own)."""
import json, os, struct, sys, zlib
sys.path.insert(0, sys.argv[1])
import poppy

M = 2 ** 64 - 1


def gen_entry(seed, i, n):
    x = (seed ^ (i * 0x9E3779B97F4A7C15)) & M
    out = struct.pack("<Q", i)
    while len(out) < n:
        x = (x + 0x9E3779B97F4A7C15) & M
        z = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
        out += struct.pack("<Q", z ^ (z >> 31))
    return out[:n]


def chk(b):
    b = bytes(b)
    return "%08x%08x-%d" % (zlib.crc32(b), zlib.adler32(b), len(b))


def see(f):
    if f is None:
        return {"none": True}
    return {"version": f.version, "capacity": str(f.capacity), "fpp": struct.pack(">d", f.fpp).hex(), "count": str(f.count_estimate),
            "data": chk(f.data), "full": f.is_full(), "dumps": chk(f.dumps())}


def mangle(b, how):
    if how == "tail":
        return b + bytes(i * 7 % 256 for i in range(300))
    if how == "version":
        return b"\x09" + b[1:]
    return {"cut": b[:len(b) // 2], "head": b[:9], "empty": b""}.get(how, b)


def run(sc):
    slots = [None, None, None]
    pool = [bytes.fromhex(h) for h in sc["pool"]]
    nxt = 0
    res = []
    for op in sc["ops"]:
        name, s = op["op"], op["s"] - 1
        f = slots[s]
        g = slots[op["o"] - 1] if "o" in op else None
        path = None
        if "path" in op:
            path = "/dev/full" if op["path"] == "full" else os.path.join(sc["dir"], op["path"])
        kind, val = "value", "ok"
        try:
            if name == "new":
                p = struct.unpack(">d", bytes.fromhex(op["fpp"]))[0]
                if op["ctor"] == "new":
                    slots[s] = poppy.BloomFilter(op["cap"], p)
                elif op["ctor"] == "version":
                    slots[s] = poppy.BloomFilter.with_version(op["v"], op["cap"], p)
                else:
                    slots[s] = poppy.BloomFilter.with_params(op["v"], op["cap"], p, op["opt"])
            elif name == "loads":
                if g is None:
                    val = "skip"
                else:
                    slots[s] = poppy.loads(mangle(g.dumps(), op["how"]))
            elif name in ("load", "reload"):
                slots[s] = poppy.load(path)
            elif f is None:
                val = "skip"
            elif name in ("insert_bytes", "contains_bytes"):
                val = getattr(f, name)(pool[op["e"] - 1])
            elif name in ("insert_str", "contains_str"):
                val = getattr(f, name)(pool[op["e"] - 1].decode())
            elif name == "fill":
                val = []
                for _ in range(op["n"]):
                    try:
                        val.append(str(f.insert_bytes(gen_entry(5, nxt, 12))).lower())
                    except ValueError:
                        val.append("error")
                    nxt += 1
            elif name == "is_full":
                val = f.is_full()
            elif name == "union_merge":
                if g is None:
                    val = "skip"
                else:
                    f.union_merge(g)
            elif name == "count_common_entries":
                val = "skip" if g is None else str(f.count_common_entries(g))
            elif name == "save":
                f.save(path)
        except OSError:
            kind = "OSError"
        except BaseException as e:
            kind = type(e).__name__
        res.append({"kind": kind, "val": val, "obs": [see(x) for x in slots]})
    return res


with open(sys.argv[2]) as fi, open(sys.argv[3], "w") as fo:
    for line in fi:
        print(json.dumps(run(json.loads(line))), file=fo, flush=True)
