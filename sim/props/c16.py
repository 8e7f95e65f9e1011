"""C16: concurrent rewriting of different files in one directory is safe."""
import os

from .. import core, gen, inplace, ops, osim, simprocs
from ..core import Violation

D = "fs0/d/"
DIRS = ["", "", "", "sub/"]
# names that a careless choice of temporary or backup names would confuse
ALIKE = [["data.csv", "data.tsv", "data.txt", "data"], ["data.csv", "data.csv.tmp", "data.csv.bak", "data.csv~"], ["f.csv", "sub/f.csv", "deep/f.csv", "deep/er/f.csv"],
         ["f.csv", "tmp.csv", "f.csv.new", ".f.csv"], ["clevercsv_a.csv", "b.csv", "clevercsv_.csv", "clevercsv_b.csv"],
         ["x.csv", "X.csv", "x.csv.csv", "x_tmp.csv"], ["out.csv", "out.csv.part", "out.csv.orig", "out.tmp"]]
# foreign files whose names derive from the names of files that are converted
TRACES = ["{stem}.part", "{stem}.tmp", "{stem}.bak", "{stem}.new", "{name}.part", "{name}.tmp", "{name}.bak", "{name}~", "{name}.orig", "{name}.lock",
          ".{name}.swp", ".{name}.tmp", "tmp{name}", "{stem}_tmp.csv", "clevercsv_{name}", "clevercsv_.csv", "clevercsv.tmp", "clevercsv_old.csv",
          "{stem}.out", "{stem}.clevercsv", "{stem}", "tmp", "{stem}.csv.tmp", "standardized_{name}"]
KINDS = ["inplace"] * 5 + ["out"] * 3 + ["read", "stdout", "write"]


def job_fn(ctx, job):
    """What one process does."""
    p = ctx.path(D + job["name"])
    k = job["kind"]

    def fn():
        with ops.Std(ctx) as std:
            if k == "read":
                r = ops.capture(lambda: ops.perform(ctx, {"op": job["what"], "path": D + job["name"], "encoding": job.get("enc")}))
            elif k == "write":
                r = ops.capture(lambda: ops.perform(ctx, {"op": "write_table", "table": job["table"], "path": D + job["out"],
                                                          "dialect": "excel", "encoding": "utf-8"}))
            else:
                a = ["standardize"] + (["-i"] if k == "inplace" else ["-o", ctx.path(D + job["out"])] if k == "out" else [])
                if job.get("enc"):
                    a += ["-e", job["enc"]]
                if job.get("transpose"):
                    a.append("-t")
                arg = os.path.basename(job["name"]) if job.get("opt_rel") and "/" not in job["name"] else p
                r = ops.capture(lambda: ops.cli(a + [arg]))
            out, err = std.texts()
        return r[:2], out
    return fn


class C16(core.Property):
    id = "C16"
    quick_runs = 900
    thorough_runs = 50000
    preload = inplace.PRELOAD + ("clevercsv.wrappers", "fcntl")
    no_shrink = ("name", "out", "enc", "what")
    rule = ("counts distinct interleavings: the sequence of (process, kind of operation, fault) in the common log; "
            "non-trivial when the schedule switched between processes at least once before one of them ended")
    real = ["2 to 4 processes running clevercsv standardize, the readers and the writers on one kernel directory tree; CPython io and tempfile"]
    stub = ["scheduling: each process waits at every system call on the tree until the seeded scheduler lets it go on",
            "randomness and process ids, which the simulator may make equal in all processes; clocks", "libc file calls pass through libsimos"]
    assumptions = ["processes influence each other only through the file system", "what one process does alone is judged by C01 to C05"]

    def run_seed(self, ctx, rng, st):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        jobs = []
        same = rng.random() < 0.3
        names = None
        if rng.random() < 0.5:
            names = rng.choice(ALIKE)
            names = [names[0]] + rng.sample(names[1:], len(names) - 1) if rng.random() < 0.7 else rng.sample(names, len(names))
        text0 = None
        for i in range(n):
            k = rng.choice(KINDS)
            d = rng.choice(DIRS)
            j = {"kind": k, "name": d + "f%d.csv" % i}
            if names:
                j["name"] = names[i]
            text = gen.text(rng, max_rows=6)
            if same and text0 is not None:
                text = text0          # equal contents make mixed-up files visible only by their names
            text0 = text
            if rng.random() < 0.05:
                text = gen.serialize(gen.table(rng, 6, 4, min_rows=3) * 400, rng.choice(";|"), '"')[:30000]
            enc, data = gen.encoded(rng, text)
            j["data"] = data.hex()
            if rng.random() < 0.7:
                j["enc"] = enc
            if k == "out":
                j["out"] = rng.choice(DIRS) + rng.choice(["o%d.csv" % i, "o%d.csv" % i, "o.%d" % i, "o.csv.%d" % i])
                if rng.random() < 0.3:
                    j["opt_old"] = True
            if k == "write":
                j["out"] = d + "o%d.csv" % i
                j["table"] = gen.table(rng, 5, 3, ragged=0, min_rows=1)
            if k == "read":
                j["what"] = rng.choice(["read_table", "detect", "stream_table", "encoding"])
                if j["what"] == "encoding":
                    j.pop("enc", None)
            if k in ("inplace", "out") and rng.random() < 0.15:
                j["transpose"] = True
            if rng.random() < 0.2:
                j["opt_rel"] = True
            if k == "inplace" and rng.random() < 0.15:
                j["opt_link"] = True
            jobs.append(j)
        sc = {"seed": rng.randrange(1 << 32), "jobs": jobs, "faults": [], "knobs": {}}
        if rng.random() < 0.3:
            sc["knobs"]["same_random"] = 1
        if rng.random() < 0.3:
            sc["knobs"]["same_pid"] = 1
        if rng.random() < 0.3:
            sc["knobs"].update(clock=1, tick_ns=rng.choice([0, 0, 1000]), op_ns=0)
        if rng.random() < 0.15:
            sc["knobs"]["wr_max"] = rng.choice([50, 3000])
        if rng.random() < 0.4:
            taken = {p for j in jobs for p in self.paths(j)}
            extra = set()
            for _ in range(rng.randint(1, 8)):
                j = rng.choice(jobs)
                d, name = os.path.split(rng.choice([j["name"], j.get("out", j["name"])]))
                x = os.path.join(d, rng.choice(TRACES).format(name=name, stem=os.path.splitext(name)[0] or "s"))
                if D + x not in taken and x not in ("sub", "deep"):
                    extra.add(x)
            sc["opt_extra"] = sorted(extra)
        alone = [self.alone(ctx, j) for j in jobs]
        counts = [a["ops"] for a in alone]
        for _ in range(3):
            s2 = dict(sc)
            s2["faults"] = []
            s2["schedule"] = self.schedule(rng, n, sum(counts) + 4 * n)
            r = rng.random()
            if r < 0.45:
                i = rng.randrange(n)
                k = rng.randrange(max(1, counts[i]))
                # most of what matters happens near the end
                if rng.random() < 0.5:
                    k = max(0, counts[i] - 1 - rng.randrange(10))
                t = rng.choice(["crash", "crash_after", "err", "sigint"])
                f = {"k": k, "type": t, "proc": i}
                if t == "err":
                    f["errno"] = rng.choice(["EIO", "ENOSPC", "EACCES"])
                s2["faults"].append(f)
            self.case(ctx, s2, st)

    def schedule(self, rng, n, total):
        how = rng.choice(["uniform", "bursts", "bursts", "priority", "lockstep"])
        if how == "uniform":
            return [rng.randrange(12) for _ in range(total)]
        if how == "lockstep":
            return [i % n for i in range(total)]
        out = []
        if how == "bursts":
            while len(out) < total:
                out += [rng.randrange(12)] * rng.choice([1, 2, 3, 5, 10, 20])
            return out[:total]
        # strict priorities that change at a few points
        cuts = sorted(rng.randrange(total + 1) for _ in range(rng.randint(1, 4)))
        cur = rng.randrange(12)
        for i in range(total):
            if i in cuts:
                cur = rng.randrange(12)
            out.append(cur)
        return out

    # ------------------------------------------------------------------- runs
    def layout(self, ctx, jobs, seed, extra=()):
        ctx.clean()
        ctx.os.reset(seed)
        for d in ("fs0/d/sub", "fs0/d/deep/er", "fs0/tmp"):
            os.makedirs(ctx.path(d), exist_ok=True)
        ctx.put(D + "bystander.csv", b"do;not\ntouch;me\n")
        for x in extra:
            ctx.put(D + x, b"some;other\nfile;" + x.encode() + b"\n")
        for j in jobs:
            if j["kind"] != "write":
                if j.get("opt_link"):
                    real = D + "deep/er/real_" + j["name"].replace("/", "_")
                    ctx.put(real, bytes.fromhex(j["data"]))
                    os.symlink(ctx.path(real), ctx.path(D + j["name"]))
                else:
                    ctx.put(D + j["name"], bytes.fromhex(j["data"]))
            if j.get("opt_old"):
                ctx.put(D + j["out"], b"old;output\n")

    def paths(self, j):
        out = {D + j["name"]}
        if j.get("opt_link"):
            out.add(D + "deep/er/real_" + j["name"].replace("/", "_"))
        if "out" in j:
            out.add(D + j["out"])
        return out

    def files(self, ctx):
        return {k: v[1] for k, v in ctx.snapshot().items()}

    _alone = {}

    def alone(self, ctx, j):
        key = repr(sorted(j.items()))
        if key not in self._alone:
            if len(self._alone) > 100:
                self._alone.clear()
            keep = ctx.trace.copy()
            self.layout(ctx, [j], 5)

            def fn():
                os.chdir(ctx.path("fs0/d"))
                ops.set_tmp(ctx, "fs0/tmp")
                ops.arm(ctx, {})
                r = job_fn(ctx, j)()
                ctx.os.arm(False)
                return r
            o = ctx.run(fn)
            n = ctx.os.get("nops")
            if o.status != "ok":
                raise core.Found({"jobs": [j]}, [Violation("died", "%s alone ended with %s" % (j["kind"], o.status), stderr=o.stderr[-800:])])
            f = self.files(ctx)
            self._alone[key] = {"res": o.value, "files": {p: f.get(p) for p in self.paths(j)}, "ops": n}
            ctx.trace = keep
        return self._alone[key]

    # ------------------------------------------------------------------ judge
    def check(self, ctx, sc, st):
        jobs = sc["jobs"]
        if not jobs:
            raise core.Invalid("jobs")
        alone = [self.alone(ctx, j) for j in jobs]
        self.layout(ctx, jobs, sc["seed"], sc.get("opt_extra", ()))
        before = self.files(ctx)

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            try:
                return simprocs.run(ctx, sc, [job_fn(ctx, j) for j in jobs], sc.get("schedule", []))
            except simprocs.Stuck as e:
                return str(e)
        o = ctx.run(fn)
        log = ctx.os.log(data=False)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        ops.fired(ctx, sc, st)
        if o.status != "ok" or isinstance(o.value, str):
            return [Violation("died", "the processes ended with %s" % (o.value or o.status), stderr=o.stderr[-800:])]
        results, switches, steps = o.value
        hit = {f["proc"] for f, k in zip(sc["faults"], ctx.os.fired(len(sc["faults"]))) if k}
        st.add("probe:switches", switches)
        st.add("probe:turns", steps)
        for k in ("same_random", "same_pid", "clock"):
            if sc["knobs"].get(k):
                st.add("probe:" + k)
        for x in log:
            if x["kind"] == "open" and x["err"] == 17:
                st.add("probe:temporary_name_collision")
        if switches >= 1:
            st.seen("nontrivial", tuple((x["proc"], x["kind"], x["fault"]) for x in log))
        after = self.files(ctx)
        brief = ["P%d %s" % (x["proc"], osim.brief([x])[0].strip()) for x in log]
        own = [self.paths(j) for j in jobs]

        def bad(cls, i, msg):
            return [Violation(cls, "process %d (%s %s) of %d: %s" % (i, jobs[i]["kind"], jobs[i]["name"], len(jobs), msg), log=brief[-120:])]

        # who touched what
        v = self.ownership(log, own, bad)
        if v:
            return v
        for i, (status, value) in enumerate(results):
            a = alone[i]
            if status not in ("ok", "crash"):
                return bad("died", i, "ended with %s: %s" % (status, str(value)[-400:]))
            if status == "crash" or i in hit:
                st.add("probe:faulted_processes")
                for p in own[i]:
                    if "out" in jobs[i] and p == D + jobs[i]["out"]:
                        continue
                    if after.get(p) not in (before.get(p), a["files"].get(p)):
                        return bad("content", i, "after its failure %s holds %s" % (p, short(after.get(p))))
                continue
            if value[0] != a["res"][0] or value[1] != a["res"][1]:
                return bad("result", i, "gave %r; alone it gives %r" % (cut(value), cut(a["res"])))
            for p in own[i]:
                if after.get(p) != a["files"].get(p):
                    return bad("content", i, "afterwards %s holds %s; alone %s" % (p, short(after.get(p)), short(a["files"].get(p))))
        mine = set().union(*own)
        for p in sorted(set(before) | set(after)):
            if p in mine or before.get(p) == after.get(p):
                continue
            if p in before:
                return bad("bystander", 0, "%s changed" % p)
            made = [x["proc"] for x in log if x["kind"] == "open" and x["ret"] >= 0 and x["flags"] & 0o100 and x["path"] == p]
            # the name may have been used before, the last one to create it left it
            if not made or not (results[made[-1]][0] == "crash" or made[-1] in hit):
                return bad("leftover", made[-1] if made else 0, "left %s behind" % p)
            st.add("probe:left_by_crash")
        return []

    def ownership(self, log, own, bad):
        """Nobody changes a file of another process, temporary files included."""
        temp = {}
        for x in log:
            if x["ret"] < 0 or x["fault"] == "crash":
                continue
            i = x["proc"]
            if not 0 <= i < len(own):
                continue
            changing = x["kind"] in ("rename", "unlink", "trunc", "chmod", "chown", "link") or \
                (x["kind"] == "open" and x["flags"] & 0o3)
            if not changing:
                continue
            for p in (x["path"], x.get("path2")):
                if not p:
                    continue
                for j, o in enumerate(own):
                    if j != i and p in o:
                        return bad("touched", i, "%s on %s, which belongs to process %d" % (x["kind"], p, j))
                if p in temp and temp[p] != i:
                    return bad("touched", i, "%s on the temporary file %s of process %d" % (x["kind"], p, temp[p]))
            mine = own[i]
            if x["kind"] == "open" and x["flags"] & 0o100 and x["path"] not in mine:
                temp[x["path"]] = i
            elif x["kind"] in ("unlink", "rename"):
                temp.pop(x["path"], None)
        return None


def cut(r):
    return (r[0], r[1][-120:]) if r else r


def short(b):
    return "nothing (missing)" if b is None else repr(b if len(b) < 100 else b[:100])


PROP = C16()
