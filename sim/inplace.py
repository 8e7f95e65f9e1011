"""Workloads around `clevercsv standardize`: generation, layout on disk, runs."""
import os

from . import core, gen, ops

PRELOAD = ("clevercsv.console.commands.standardize", "clevercsv.__main__", "clevercsv.console.application",
           "cchardet", "chardet", "chardet.universaldetector", "tempfile", "shutil", "hashlib", "encodings.utf_16",
           "encodings.utf_16_le", "encodings.utf_16_be", "encodings.utf_8_sig", "encodings.latin_1", "encodings.cp1252",
           "encodings.ascii", "encodings.iso8859_1", "encodings.utf_32")
TARGET = "fs0/d/data.csv"
OUT = "fs0/d/out.csv"
LINKOUT = "fs0/d/link.csv"


def gen_base(rng, big=0.06, modes=("inplace",)):
    """A file, its encoding and the options of the command."""
    mode = rng.choice(modes)
    r = rng.random()
    if r < 0.07:
        text = gen.serialize(gen.table(rng, 6, 4), eol="\r\n")      # often already standard
    elif r < 0.07 + big:
        rows = gen.table(rng, 8, 4, min_rows=3)
        n = rng.choice([40, 400, 1200])
        text = gen.serialize(rows * n, rng.choice(";|\t"), '"', "", rng.choice(["\n", "\r\n"]))
        text = text[:rng.choice([9000, 40000, 90000])]
    elif r < 0.12 + big:
        # standard except near its end
        rows = [[x if x else "0" for x in r] for r in gen.table(rng, 6, 3, nasty=0, ragged=0, min_rows=2)]
        size = rng.choice([30, 8192, 65536, 65536, 131072, 1 << 20, 1 << 20])
        head = gen.serialize(rows, eol="\r\n")
        head *= max(1, size // max(1, len(head)) + rng.choice([0, 1, 1]))
        text = head + gen.serialize(rows[:2], ",", '"', "", rng.choice(["\n", "\r\n"]), rng.choice(["all", "minimal"]), rng.random() < 0.7)
    elif r < 0.2 + big:
        # standard except in the middle, where two effects on the size cancel out
        good = [["x,y", "a" * rng.choice([1, 10, 300]), "1"], ["b", "2", "c,d"]]
        head = gen.serialize(good, eol="\r\n")
        n = rng.choice([1, 3, 200, 9999, 9999, 9999])
        odd = rng.choice(['"b",2,c\nd,3,e\n', 'b,2,"c"\r\nd,3,e\nf,4,g\n', '"q",1,2\r\n\n\n', "a,b,1\n\"c\",d,2\n"])
        tail = rng.choice([1, n, n, n])
        text = head * min(n, 130000 // len(head) + 1) + odd + head * min(tail, 130000 // len(head) + 1)
    else:
        text = gen.text(rng)
    enc, data = gen.encoded(rng, text)
    r = rng.random()
    late = r < 0.058
    if r < 0.008:
        enc, data, n = "utf-8", gen.huge_text(rng).encode(), rng.choice([2000, 5000])
    elif late:
        enc, data, n = gen.late_trouble(rng)
    sc = {"data": data.hex(), "opts": {}, "seed": rng.randrange(1 << 32), "faults": [], "knobs": {}}
    if rng.random() < 0.7 or late:
        sc["opts"]["encoding"] = enc
    if rng.random() < 0.15:
        sc["opts"]["transpose"] = True
    if rng.random() < 0.15 or len(data) > 20000:
        sc["opts"]["num_chars"] = rng.choice([1, 5, 20, 100, 1000, 1000, 5000])
    if late:
        sc["opts"]["num_chars"] = n
    if rng.random() < 0.15:
        sc["opts"]["target_encoding"] = rng.choice(["utf-8", "utf-16", "ascii", "latin-1"])
    if "encoding" in sc["opts"] and rng.random() < 0.1:
        sc["opt_locale"] = "C"
    sc["opt_link"] = rng.choice([0, 0, 0, 0, 1, 2])      # 1: symlink, 2: symlink across file systems
    sc["opt_rel"] = rng.random() < 0.2
    if rng.random() < 0.12:
        sc["opt_hard"] = 1                               # the file has a second name
    sc["opt_tmpfs"] = rng.choice([0, 1])
    sc["mode"] = rng.choice([0o644, 0o644, 0o600, 0o664, 0o755, 0o444])
    if mode != "inplace":
        sc["opts"]["mode"] = mode
    if mode == "out":
        sc["opts"]["output"] = rng.choice([OUT, OUT, OUT, TARGET, LINKOUT])
        sc["opt_outexists"] = rng.random() < 0.5
    if not sc["opt_link"]:
        del sc["opt_link"]
    if rng.random() < 0.25:
        sc["knobs"]["rd_max"] = rng.choice([1, 7, 100, 5000]) if len(data) < 300 else rng.choice([3000, 20000] if len(data) < 300000 else [100000, 700000])
    if rng.random() < 0.25:
        sc["knobs"]["wr_max"] = rng.choice([3, 50, 3000]) if len(data) < 3000 else rng.choice([500, 3000, 20000] if len(data) < 300000 else [20000, 7000])
    return sc


def layout(ctx, sc, seed=0):
    """Create the scratch tree; returns files, links, inode ids and the target path."""
    ctx.clean()
    ctx.os.reset(sc.get("seed", 0))
    for d in ("fs0/d", "fs0/tmp", "fs1/tmp", "fs1/e"):
        os.makedirs(ctx.path(d), exist_ok=True)
    data = bytes.fromhex(sc["data"])
    target = TARGET
    links = {}
    link = sc.get("opt_link", 0)
    if link:
        target = "fs0/d/real.csv" if link == 1 else "fs1/e/real.csv"
        os.symlink(ctx.path(target), ctx.path(TARGET))
        links[TARGET] = target
    ctx.put(target, data, sc.get("mode", 0o644))
    out = sc["opts"].get("output")
    if out == LINKOUT:
        os.symlink(ctx.path(TARGET), ctx.path(LINKOUT))
    elif out and out != TARGET and sc.get("opt_outexists"):
        ctx.put(out, b"previous output\n" * 5)
    ctx.put("fs0/d/bystander.csv", b"do;not\ntouch;me\n")
    files = {target: data, "fs0/d/bystander.csv": b"do;not\ntouch;me\n"}
    if sc.get("opt_hard"):
        second = os.path.dirname(target) + "/second.csv"
        os.link(ctx.path(target), ctx.path(second))
        files[second] = data
    inos = {p: ctx.os.lib.sim_register(os.fsencode(ctx.path(p))) for p in files}
    return files, links, inos, target


def argv(ctx, sc, path=None):
    a = ["standardize"]
    o = sc["opts"]
    if o.get("mode", "inplace") == "inplace":
        a.append("--in-place")
    if o.get("encoding"):
        a += ["-e", o["encoding"]]
    if o.get("target_encoding"):
        a += ["-E", o["target_encoding"]]
    if o.get("transpose"):
        a.append("-t")
    if o.get("num_chars"):
        a += ["-n", str(o["num_chars"])]
    if o.get("output"):
        a += ["-o", ctx.path(o["output"])]
    p = path or ctx.path(TARGET)
    if sc.get("opt_rel"):
        p = os.path.basename(p)
    return a + [p]


def run(ctx, sc, armed=True):
    """The simulated process: runs the command, reports how it ended."""
    os.chdir(ctx.path("fs0/d"))
    ops.set_tmp(ctx, "fs1/tmp" if sc.get("opt_tmpfs") else "fs0/tmp")
    printing = sc["opts"].get("mode") == "stdout"
    with ops.Std(ctx, simulated=printing) as std:
        av = argv(ctx, sc)
        if armed:
            ops.arm(ctx, sc)
        res = ops.capture(lambda: ops.cli(av))
        if printing and res[0] == "ok":
            end = ops.capture(std.finish)      # a failure here makes the interpreter exit with status 120
            res = end if end[0] != "ok" else res
        ctx.os.arm(False)
        out, err = std.texts()
    return {"res": res, "out": out, "err": err[-2000:]}


def rerun(ctx, sc):
    """The same command on the same files by a fresh process without faults."""
    ctx.os.reset(sc.get("seed", 0) + 1)
    return run(ctx, {**sc, "faults": [], "knobs": {}})


_cache = {}


def _key(sc, data):
    return (data, repr(sorted(sc["opts"].items())))


def reference_of(ctx, sc, data):
    return _reference(ctx, sc, data)["content"]


def reference(ctx, sc):
    return _reference(ctx, sc, bytes.fromhex(sc["data"]))


def _reference(ctx, sc, data):
    """What the command does to `data` when nothing goes wrong."""
    k = _key(sc, data)
    if k in _cache:
        return _cache[k]
    s = {"data": data.hex(), "opts": sc["opts"], "seed": 7}
    tgt = TARGET
    keep = snapshot_tree(ctx)
    layout(ctx, s)
    o = ctx.run(lambda: run(ctx, s), traced=False)
    if o.status != "ok":
        raise core.Found(sc, [core.Violation("died", "standardize without faults ended with %s" % o.status,
                                             stderr=o.stderr[-800:])])
    r = {"status": tuple(o.value["res"][:2]), "content": ctx.snapshot().get(tgt, (None, None))[1],
         "log": ctx.os.log(data=False), "err": o.value["err"], "out": o.value["out"]}
    restore_tree(ctx, keep)
    if len(_cache) > 64:
        _cache.clear()
    _cache[k] = r
    return r


def snapshot_tree(ctx):
    return ctx.snapshot()


def restore_tree(ctx, snap):
    ctx.clean()
    for d in ("fs0/d", "fs0/tmp", "fs1/tmp", "fs1/e"):
        os.makedirs(ctx.path(d), exist_ok=True)
    for rel, (kind, c, mode) in snap.items():
        if kind == "file":
            ctx.put(rel, c, mode)
        elif kind == "link":
            os.makedirs(os.path.dirname(ctx.path(rel)), exist_ok=True)
            os.symlink(c, ctx.path(rel))


def profile(ctx, sc):
    """Fault-free run of exactly this scenario, for its operation log."""
    layout(ctx, sc)
    s = {**sc, "faults": []}
    o = ctx.run(lambda: run(ctx, s))
    if o.status != "ok":
        raise core.Found(sc, [core.Violation("died", "standardize without faults ended with %s" % o.status,
                                             stderr=o.stderr[-800:])])
    return {"log": ctx.os.log(data=False), "res": o.value["res"]}


def gen_faults(rng, log):
    """A plan: where to fail, crash or interrupt, and limits on transfers and space."""
    faults, knobs = [], {}
    r = rng.random()
    n = len(log)
    tail = [o for o in log if o["kind"] not in ("read",)]
    late = tail[-8:] if tail else []
    if r < 0.33:
        if late and rng.random() < 0.6:
            o = rng.choice(late)
            f = {"k": o["i"], "type": rng.choice(["crash", "crash_after", "torn"])}
            if f["type"] == "torn":
                f["arg"] = rng.randint(1, 40)
            faults.append(f)
        else:
            faults.append(gen.crash_at(rng, n))
    elif r < 0.68:
        f = gen.error_at(rng, log)
        if f:
            faults.append(f)
            x = rng.random()
            if x < 0.15:
                # crash in the error handling that follows
                faults.append({"k": f["k"] + rng.randint(1, 3), "type": "crash"})
            elif x < 0.3:
                faults.append({"k": f["k"] + rng.randint(1, 4), "type": "err", "errno": rng.choice(["EIO", "ENOSPC"])})
    elif r < 0.82:
        f = gen.interrupt_at(rng, log)
        if f:
            faults.append(f)
    else:
        total = sum(o["ret"] for o in log if o["kind"] == "write" and o["ret"] > 0)
        if total:
            knobs["capacity"] = 1 + rng.randint(0, total)
    return faults, knobs
