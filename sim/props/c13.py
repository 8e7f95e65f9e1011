"""C13: standardizing several files handles each once, in order, as if it were alone."""
import os

from .. import core, gen, inplace, opmix, ops, osim
from ..core import Violation

D = "fs0/d/"
NAMES = ["a.csv", "b.csv", "c.csv", "sub/d.csv", "e.txt"]
OUTS = ["o1.csv", "o2.csv", "sub/o3.csv", "o4.csv", "o5.csv"]
MODE = {"inplace": ["-i"], "out": [], "stdout": []}


def command(ctx, mode, opts, files):
    """files: list of (input, output or None, encoding or None); encodings may be one for all"""
    a = ["standardize"] + MODE[mode]
    if opts.get("transpose"):
        a.append("-t")
    if opts.get("num_chars"):
        a += ["-n", str(opts["num_chars"])]
    if opts.get("target"):
        a += ["-E", opts["target"]]
    for _, o, _ in files:
        if o is not None:
            a += ["-o", ctx.path(D + o)]
    for _, _, e in files:
        if e is not None:
            a += ["-e", e]
    return a + [ctx.path(D + p) for p, _, _ in files]


def execute(ctx, sc, argv, traced=True):
    def fn():
        os.chdir(ctx.path("fs0/d"))
        ops.set_tmp(ctx, "fs0/tmp")
        with ops.Std(ctx) as std:
            ops.arm(ctx, sc)
            r = ops.capture(lambda: ops.cli(argv))
            ctx.os.arm(False)
            out, err = std.texts()
        return r[:2], out
    return ctx.run(fn, traced=traced)


def layout(ctx, files, seed=0):
    ctx.clean()
    ctx.os.reset(seed)
    for d in ("fs0/d/sub", "fs0/tmp"):
        os.makedirs(ctx.path(d), exist_ok=True)
    for p, data in files.items():
        if data is not None:
            ctx.put(D + p, data)


_alone = {}


def alone(ctx, data, mode, opts, enc):
    """(status, new content of the input, output file, standard output) of one file by itself"""
    key = (data, mode, repr(sorted(opts.items())), enc)
    if key in _alone:
        return _alone[key]
    layout(ctx, {"x.csv": data})
    o = execute(ctx, {}, command(ctx, mode, opts, [("x.csv", "y.csv" if mode == "out" else None, enc)]), traced=False)
    if o.status != "ok":
        raise core.Found({"data": data.hex() if data is not None else None, "mode": mode}, [Violation("died", "standardizing one file ended with %s" % o.status, stderr=o.stderr[-800:])])
    s = ctx.snapshot()
    r = (o.value[0], s.get(D + "x.csv", (0, None))[1], s.get(D + "y.csv", (0, None))[1], o.value[1])
    if len(_alone) > 200:
        _alone.clear()
    _alone[key] = r
    return r


class C13(core.Property):
    id = "C13"
    quick_runs = 1500
    thorough_runs = 80000
    preload = inplace.PRELOAD
    no_shrink = ("name", "enc", "mode", "out")
    rule = ("counts distinct (mode, options, per file: encoding and what happened to it alone, fault with its operation, how the command ended, "
            "file it ended at); non-trivial when there were at least two files")
    real = ["clevercsv standardize with several files, detection, encoding detection, CPython io and tempfile; a kernel file system"]
    stub = ["libc file calls pass through libsimos, which decides errors, short transfers, full disks, interrupts and crashes"]
    assumptions = ["what the command does to one file alone (C01 to C05 judge that)"]

    def run_seed(self, ctx, rng, st):
        mode = rng.choice(["inplace", "inplace", "inplace", "out", "stdout"])
        n = rng.choice([2, 2, 3, 3, 4, 5])
        files = []
        one = rng.random() < 0.3          # a single encoding for all files
        enc1 = None
        for i in range(n):
            r = rng.random()
            if r < 0.25:
                text = gen.serialize(gen.table(rng, 5, 4, nasty=0), eol="\r\n")
            else:
                text = gen.text(rng, max_rows=6)
            enc, data = gen.encoded(rng, text)
            if one:
                enc1 = enc1 or enc
                if rng.random() < 0.85:
                    try:
                        data, enc = text.encode(enc1), enc1
                    except UnicodeError:
                        pass
            f = {"name": NAMES[i], "text": data.hex(), "enc": enc}
            if rng.random() < 0.04:
                f["text"] = None          # missing
            files.append(f)
        if rng.random() < 0.08:
            files[-1] = dict(files[rng.randrange(n - 1)])       # the same file twice
        order = list(range(n))
        sc = {"seed": rng.randrange(1 << 32), "mode": mode, "files": files, "opts": {}, "faults": [], "knobs": {},
              "encodings": "one" if one else rng.choice(["each", "each", "none"])}
        if rng.random() < 0.2:
            sc["opts"]["transpose"] = True
        if rng.random() < 0.15:
            sc["opts"]["num_chars"] = rng.choice([1, 10, 100])
        if rng.random() < 0.15:
            sc["opts"]["target"] = rng.choice(["utf-8", "utf-16", "ascii"])
        if mode == "out":
            outs = list(OUTS[:n])
            if rng.random() < 0.2:
                # an output that is an input of the same command
                outs[rng.randrange(n)] = rng.choice(files)["name"]
            sc["outs"] = outs
            sc["opt_old"] = [o for o in outs if o in OUTS and rng.random() < 0.4]
        if rng.random() < 0.03:
            sc["opt_wrong"] = rng.choice(["outputs", "encodings", "both"])
        if rng.random() < 0.2:
            sc["knobs"]["rd_max"] = rng.choice([7, 100])
        if rng.random() < 0.2:
            sc["knobs"]["wr_max"] = rng.choice([7, 100])
        if sc["encodings"] != "none" and rng.random() < 0.1:
            sc["opt_locale"] = "C"
        log = self.case(ctx, sc, st)
        for _ in range(2):
            s2 = dict(sc)
            f, k = opmix.gen_faults(rng, self.log)
            if rng.random() < 0.35 and self.log:
                f, k = [{"k": rng.randrange(len(self.log)), "type": rng.choice(["crash", "crash_after"])}], {}
            s2["faults"], s2["knobs"] = f, {**sc["knobs"], **k}
            if f or k:
                self.case(ctx, s2, st)

    def check(self, ctx, sc, st):
        self.log = []
        mode, files, opts = sc["mode"], sc["files"], sc["opts"]
        if not files or (mode == "out" and len(sc["outs"]) < len(files)):
            raise core.Invalid("files")
        disk = {}
        for o in sc.get("opt_old", ()):
            disk[o] = b"old;output\n"
        for f in files:
            if f["text"] is not None:
                disk.setdefault(f["name"], bytes.fromhex(f["text"]))
        disk["bystander.csv"] = b"do;not\ntouch;me\n"
        start = dict(disk)
        spec = []
        for i, f in enumerate(files):
            e = None if sc["encodings"] == "none" else f["enc"] if sc["encodings"] == "each" else files[0]["enc"]
            spec.append((f["name"], sc["outs"][i] if mode == "out" else None, e))
        arg = [(p, o, e if (sc["encodings"] != "one" or i == 0) else None) for i, (p, o, e) in enumerate(spec)]
        wrong = sc.get("opt_wrong")
        if wrong == "outputs":
            arg[0] = (arg[0][0], None if mode == "out" else "o9.csv", arg[0][2])
        elif wrong == "encodings":
            if sc["encodings"] != "each" or len(files) < 3:
                wrong = None
            else:
                arg[0] = (arg[0][0], arg[0][1], None)
        elif wrong == "both":
            if mode != "inplace":
                wrong = None
            else:
                arg = [(p, OUTS[i], e) for i, (p, o, e) in enumerate(arg)]
        if wrong == "outputs" and len(files) == 1:
            raise core.Invalid("files")
        # what should happen, file by file
        states, outs, ends, facts = [dict(disk)], [""], [], []
        for p, o, e in spec:
            r, new, made, printed = alone(ctx, disk.get(p), mode, opts, e)
            facts.append((e, r))
            ends.append(r)
            if r[0] != "ok" or r[1] not in (0, 2):
                break
            if mode == "out":
                disk[o] = made
            elif mode == "inplace":
                disk[p] = new
            states.append(dict(disk))
            outs.append(outs[-1] + printed)
        layout(ctx, start, sc["seed"])
        run = execute(ctx, sc, command(ctx, mode, opts, arg))
        log = ctx.os.log(data=False)
        self.log = log
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        if run.status not in ("ok", "exit:77"):
            return [Violation("died", "the command ended with %s" % run.status, stderr=run.stderr[-800:])]
        snap = {k[len(D):]: v[1] for k, v in ctx.snapshot().items() if k.startswith(D)}
        res, out = run.value if run.status == "ok" else (("crash", 77), None)
        names = [s[0] for s in spec]
        watched = set(start) | set(names) | {s[1] for s in spec if s[1]} | {"o9.csv"}
        now = {k: snap[k] for k in watched if k in snap}
        at = self.last_touched(log, spec)
        how = "%s %s" % tuple(res)
        if len(files) > 1:
            st.seen("nontrivial", (mode, opts, facts, wrong, [(f["type"], log[f["k"]]["kind"] if f["k"] < len(log) else "") for f in sc["faults"]], how, at))
        st.add("probe:files_%d" % len(files))

        def bad(cls, msg):
            return [Violation(cls, "%s of %d files (%s): %s" % (mode, len(files), how, msg), log=osim.brief(log))]
        if wrong:
            st.add("probe:wrong_usage")
            if res == ("ok", 0) or res == ("ok", 2):
                return bad("usage", "the options do not fit the files but the command reported success")
            if now != start or out:
                return bad("usage", "the options do not fit the files but %s" % diff(now, start))
            return []
        last = ends[-1]
        ok_all = len(ends) == len(files) and last[0] == "ok" and last[1] in (0, 2)
        distinct = len(set(names)) == len(names) and not (mode == "out" and (set(sc["outs"][:len(files)]) & set(names) or len(set(sc["outs"][:len(files)])) < len(files)))
        if distinct:
            order = list(self.sequence([x for x in log if x["kind"] not in ("read", "open", "close")], spec))
            if order != sorted(order):
                return bad("order", "the files were handled in the order %s" % order)
        if res[0] == "ok" and res[1] in (0, 2):
            if not ok_all:
                return bad("status", "success although %s fails alone with %s %s" % (names[len(ends) - 1], last[0], last[1]))
            want = 2 if mode == "inplace" and any(r[1] == 2 for r in ends) else 0
            if res[1] != want:
                return bad("status", "exit status %s; alone the files give %s" % (res[1], [r[1] for r in ends]))
            if now != states[-1]:
                return bad("content", "afterwards %s" % diff(now, states[-1]))
            if mode == "stdout" and out != outs[-1]:
                return bad("stdout", "printed %r; alone the files give %r" % (out[-200:], outs[-1][-200:]))
            st.add("probe:all_converted")
            return []
        if not n and run.status == "ok":
            # it fails by itself, at the file that fails alone
            if ok_all:
                return bad("status", "fails although no file fails alone")
            if tuple(res) != tuple(last):
                return bad("status", "%s fails alone with %s %s" % (names[len(ends) - 1], last[0], last[1]))
            st.add("probe:natural_failure")
        # it stopped at file `at`: the earlier ones are converted, the later ones untouched
        if distinct or at is None:
            may = [0] if at is None else [at, at + 1]
        else:
            may = range(len(states))
        if not n and not ok_all:
            may = [len(ends) - 1]
        for m in may:
            if m >= len(states):
                continue
            want = dict(states[m])
            got = dict(now)
            if mode == "out" and m < len(spec):
                want.pop(spec[m][1], None)      # being written
                got.pop(spec[m][1], None)
            if got == want and (out is None or mode != "stdout" or out == outs[m]):
                break
        else:
            m = min(may[0], len(states) - 1)
            return bad("content", "it stopped at file %s, but %s%s" % (at, diff(now, states[m]),
                                                                  "; printed %r" % out[-200:] if mode == "stdout" and out is not None else ""))
        st.add("probe:stopped_at_%s" % at)
        return []

    def sequence(self, log, spec):
        idx = {}
        for i, (p, o, _) in enumerate(spec):
            idx.setdefault(D + p, i)
            if o:
                idx.setdefault(D + o, i)
        for x in log:
            for q in (x["path"], x.get("path2")):
                if q in idx:
                    yield idx[q]

    def last_touched(self, log, spec):
        return max(self.sequence(log, spec), default=None)


def diff(now, want):
    out = []
    for k in sorted(set(now) | set(want)):
        if now.get(k) != want.get(k):
            out.append("%s holds %s instead of %s" % (k, short(now.get(k)), short(want.get(k))))
    return "; ".join(out) or "all files are as expected"


def short(b):
    return "nothing (missing)" if b is None else repr(b if len(b) < 80 else b[:80] + b"...")


PROP = C13()
