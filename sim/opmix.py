"""Seeded single operations of every kind, for the properties that hold for all of them."""
import os

from . import core, gen, inplace, ops

PRELOAD = inplace.PRELOAD + ("clevercsv.console.commands.detect", "clevercsv.console.commands.code",
                             "clevercsv.wrappers", "csv", "json", "zipfile")
IN, OUT = "fs0/d/in.csv", "fs0/d/out.csv"
READS = ["detect", "encoding", "read_table", "read_dicts", "stream_table", "stream_dicts"]
WRITES = ["write_table", "write_dicts"]
CLI = ["cli_inplace", "cli_out", "cli_stdout", "cli_detect", "cli_code"]


def small_text(rng):
    t = gen.text(rng)
    if rng.random() < 0.12:
        t = (t + "\n") * rng.randint(2, 60)
        t = t[:12000]
    return t


def written_dialect(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(["excel", "excel-tab", "unix"])
    return ["simple", rng.choice([",", ";", "\t", "|"]), rng.choice(['"', '"', "'", ""]), rng.choice(["", "", "\\"]), 0]


def cells(rng, table):
    """Some cells as non-text values."""
    out = []
    for row in table:
        out.append([rng.choice([1, -3, 2.5, None, True, 0, 0, False, 0.0, 1e300, 10**30]) if rng.random() < 0.15 else c for c in row])
    return out


def names(rng, n):
    """Distinct field names."""
    out = ["k%d" % i for i in range(n)]
    if rng.random() < 0.3:
        for i in range(n):
            c = gen.cell(rng, 0.5, 0.2)
            if c not in out and rng.random() < 0.5:
                out[i] = c
    return out


def less(rng, d):
    """The same dictionary with keys missing and in another order."""
    r = rng.random()
    if r < 0.15:
        return {}
    ks = [k for k in d if r > 0.6 or rng.random() < 0.7]
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def gen_op(rng, kinds):
    kind = rng.choice(kinds)
    sc = {"seed": rng.randrange(1 << 32), "faults": [], "knobs": {}, "files": {}, "op": {"op": kind}}
    op = sc["op"]
    if kind in READS or kind.startswith("cli_") or kind == "read_dataframe":
        t = small_text(rng)
        enc, data = gen.encoded(rng, t)
        if rng.random() < 0.06:
            i = rng.randint(0, len(data))
            data = data[:i] + rng.choice([b"\xff\xfe", b"\xc3\x28", b"\x81", b"\0"]) + data[i:]
        late = rng.random() < 0.04
        if late and rng.random() < 0.15:
            enc, data, n = "utf-8", gen.huge_text(rng).encode(), rng.choice([2000, 5000])
        elif late:
            enc, data, n = gen.late_trouble(rng)
        sc["files"][IN] = data.hex()
        op["path"] = IN
        if (rng.random() < 0.7 or late) and kind != "encoding":
            op["encoding"] = enc
        if (rng.random() < 0.2 or late) and kind != "encoding":
            op["num_chars"] = n if late else rng.choice([1, 3, 20, 200, 9000])
        if kind in ("read_table", "read_dicts", "stream_table", "stream_dicts") and rng.random() < 0.35:
            op["dialect"] = ["simple", *gen.dialect(rng), int(rng.random() < 0.2)]
        if kind in ("stream_table", "stream_dicts") and rng.random() < 0.6:
            op["take"] = rng.choice([0, 1, 1, 2, 5])
            op["abandon"] = rng.choice(["close", "drop"])
        if kind == "detect" and rng.random() < 0.4:
            op["method"] = rng.choice(["normal", "consistency"])
            op["skip"] = rng.random() < 0.5
    if kind in WRITES:
        tb = gen.table(rng, 30 if rng.random() < 0.1 else 7, 5, ragged=0.1)
        if kind == "write_table":
            op["table"] = cells(rng, tb)
            op["transpose"] = rng.random() < 0.2
            if rng.random() < 0.1:
                op["table"] = [r * 200 for r in op["table"]]
        else:
            w = max((len(r) for r in tb), default=1) or 1
            keys = names(rng, w)
            op["items"] = [dict(zip(keys, r + [""] * (w - len(r)))) for r in cells(rng, tb)]
            if rng.random() < 0.3:
                op["items"][1:] = [less(rng, d) for d in op["items"][1:]]
            if op["items"] and rng.random() < 0.1:
                rng.choice(op["items"])["extra"] = "x"
        op["path"] = OUT
        op["dialect"] = written_dialect(rng)
        if rng.random() < 0.6:
            op["encoding"] = rng.choice(["utf-8", "utf-16", "latin-1", "ascii"])
        if rng.random() < 0.5:
            sc["files"][OUT] = b"old;content\n".hex()
    if kind.startswith("cli_"):
        sub = kind[4:]
        a = {"inplace": ["standardize", "-i"], "out": ["standardize", "-o", "@" + OUT], "stdout": ["standardize"],
             "detect": ["detect"], "code": ["code"]}[sub]
        if sub in ("inplace", "out", "stdout") and rng.random() < 0.2:
            a.append("-t")
        if sub == "detect":
            a += rng.choice([[], ["-j"], ["-p"], ["-c"], ["--no-skip"], ["-c", "-j"]])
        if sub == "code":
            a += rng.choice([[], ["-p"]])
        if op.get("encoding"):
            a += ["-e", op.pop("encoding")]
        if op.get("num_chars"):
            a += ["-n", str(op.pop("num_chars"))]
        a.append("@" + op.pop("path"))
        sc["op"] = {"op": "cli", "argv": a}
        if sub == "out" and rng.random() < 0.5:
            sc["files"][OUT] = b"old;content\n".hex()
        sc["opt_mode"] = rng.choice([0o644, 0o600, 0o664, 0o755, 0o444])
    if kind in READS + WRITES + ["read_dataframe"] and rng.random() < 0.2:
        op["opt_path"] = "object" if kind == "read_dataframe" else rng.choice(["object", "bytes"])
    if (op.get("encoding") or "-e" in sc["op"].get("argv", ())) and rng.random() < 0.15:
        sc["opt_locale"] = "C"
    total = sum(len(v) // 2 for v in sc["files"].values())
    if rng.random() < 0.25:
        sc["knobs"]["rd_max"] = rng.choice([1, 5, 60]) if total < 400 else rng.choice([700, 5000])
    if rng.random() < 0.25:
        sc["knobs"]["wr_max"] = rng.choice([1, 5, 60]) if total < 400 else rng.choice([700, 5000])
    return sc


def layout(ctx, sc):
    ctx.clean()
    ctx.os.reset(sc.get("seed", 0))
    for d in ("fs0/d", "fs0/tmp"):
        os.makedirs(ctx.path(d), exist_ok=True)
    for rel, h in sc["files"].items():
        ctx.put(rel, bytes.fromhex(h), sc.get("opt_mode"))


def perform(ctx, op):
    if op["op"] == "cli":
        return ops.cli([ctx.path(a[1:]) if a.startswith("@") else a for a in op["argv"]])
    return ops.perform(ctx, op)


def profile(ctx, sc):
    """Operation log of the scenario without its faults."""
    layout(ctx, sc)
    s = {**sc, "faults": []}

    def fn():
        os.chdir(ctx.path("fs0/d"))
        ops.set_tmp(ctx, "fs0/tmp")
        with ops.Std(ctx):
            ops.arm(ctx, s)
            r = ops.capture(lambda: perform(ctx, s["op"]))
            ctx.os.arm(False)
        return r[0], r[1] if r[0] == "exc" else None
    o = ctx.run(fn)
    if o.status != "ok":
        raise core.Found(s, [core.Violation("died", "the operation without faults ended with %s" % o.status,
                                            stderr=o.stderr[-800:])])
    return ctx.os.log(data=False), o.value


def gen_faults(rng, log, interrupts=True):
    """Errors, interrupts and full disks placed on the operations of a profile run."""
    faults, knobs = [], {}
    r = rng.random()
    if r < 0.6:
        f = gen.error_at(rng, log)
        if f:
            faults.append(f)
            if rng.random() < 0.15:
                faults.append({"k": f["k"] + rng.randint(1, 4), "type": "err", "errno": rng.choice(["EIO", "ENOSPC"]),
                               "kinds": ["read", "write", "close", "fsync", "open", "rename", "chmod"]})
    elif r < 0.8 and interrupts:
        f = gen.interrupt_at(rng, log)
        if f:
            faults.append(f)
    else:
        total = sum(o["ret"] for o in log if o["kind"] == "write" and o["ret"] > 0)
        if total:
            knobs["capacity"] = 1 + rng.randint(0, total - 1)
        else:
            f = gen.error_at(rng, log)
            if f:
                faults.append(f)
    return faults, knobs
