"""C07: independent callers in different threads do not influence each other."""
import io, os

from .. import core, gen, model, ops, osim
from ..core import Invalid, Violation
from .c08 import process_state

__sim_preempt__ = True       # sources below count as preemptible code


def lines_source(lines):
    for x in lines:
        y = x
        yield y


class Text:
    """A cell whose text takes a while to make."""
    def __init__(self, s):
        self.s = s

    def __str__(self):
        s = self.s
        return s


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, s):
        n = len(s)
        self.parts.append(s)
        return n


class C07(core.Property):
    id = "C07"
    quick_runs = 2000
    thorough_runs = 20000
    preload = ("sim.simthreads", "clevercsv.__main__", "clevercsv.console.application", "clevercsv.wrappers", "cchardet", "chardet",
               "encodings.latin_1", "encodings.utf_16", "encodings.ascii", "tempfile", "shutil", "hashlib", "csv", "pandas")
    rule = ("counts distinct interleavings, by the sequence of (thread, function, line) at which the running thread was changed; "
            "non-trivial when at least one switch happened inside clevercsv code while another thread was unfinished")
    real = ["clevercsv detection, encoding detection, readers, writers, standardize; CPython threads and interpreter lock"]
    stub = ["the operating system's thread scheduler: a baton scheduler decides which thread runs, at line or bytecode granularity",
            "locks created by clevercsv are simulated so that waiting is visible to the scheduler"]
    assumptions = ["native code runs atomically between callbacks into Python (it holds the interpreter lock)",
                   "threads work on different files; they may share dialect and detector objects"]

    def gen_thread(self, rng):
        k = rng.choice(["detect", "detect", "detect", "read", "reader", "write", "encoding", "standardize", "header", "limit",
                        "multi", "multi", "sink", "stream", "frame", "frame", "frame", "standardize", "standardize", "output", "table", "streamdicts", "dicts_out", "sniff", "output", "code",
                        "slow", "encoding"])
        t = gen.text(rng, max_rows=5, max_cols=4)[:rng.choice([15, 40, 40, 160])]
        if k == "multi":
            # records that take many lines
            rows = [["\n".join(rng.choice(["", "a", "bb", "ccc,c", 'd"d', "y" * 50]) for _ in range(rng.randint(1, 5)))
                     for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
            t = gen.serialize(rows, ",", '"', "", rng.choice(["\n", "\r\n"]))
            k = rng.choice(["reader", "dicts", "dicts"])
        if k == "limit":
            # cells longer than the default limit would allow if another thread lowered it
            t = gen.serialize([["y" * rng.choice([200, 3000])] * 2] * 2)
            k = rng.choice(["detect", "reader"])
        if k == "frame":
            t = gen.serialize(gen.table(rng, 4, 3, nasty=0, ragged=0, min_rows=2), rng.choice(",;"))
        d = {"k": k, "text": t}
        if rng.random() < 0.5:
            d["opt_enc"] = rng.choice(["latin-1", "utf-16", "utf-8-sig", "cp1252", "utf-16-le"])
        if k == "frame":
            d["kwargs"] = rng.choice([{}, {}, {"sep": "|"}, {"quotechar": "'"}])
        if k == "encoding":
            d["how"] = rng.choice([{}, {"try_cchardet": False}])
            d["text"] = rng.choice(["", "", "é,ü\n", "日本,語\n"]) + t
        if k == "sniff":
            d["delims"] = rng.choice([None, ",;", "|,"])
        if k == "detect":
            d["method"] = rng.choice(["auto", "consistency", "normal"])
            d["shared"] = rng.random() < 0.4
            d["skip"] = rng.random() < 0.7
        if k in ("reader", "read", "table", "streamdicts", "slow") and rng.random() < 0.8:
            d["dialect"] = list(gen.dialect(rng))
        if k in ("write", "sink", "dicts_out"):
            d["table"] = gen.table(rng, 4, 3, ragged=0)
        return d

    def run_seed(self, ctx, rng, st):
        n = rng.choice([2, 2, 2, 3])
        sc = {"threads": [self.gen_thread(rng) for _ in range(n)], "switches": [], "first": 0, "slice": 0,
              "opcodes": rng.random() < 0.35}
        if rng.random() < 0.5:
            # the same work twice finds shared caches
            sc["threads"][1]["k"] = sc["threads"][0]["k"]
            for key in ("method", "shared", "skip", "dialect", "table", "delims", "how"):
                sc["threads"][1].pop(key, None)
                if key in sc["threads"][0]:
                    sc["threads"][1][key] = sc["threads"][0][key]
        solo = self.solo(ctx, sc)
        steps = [x[1] for x in solo]
        for _ in range(5):
            s2 = dict(sc)
            s2["first"] = rng.randrange(n)
            if rng.random() < 0.25:
                s2["slice"] = rng.choice([1, 2, 3, 7, 29, 101])
            elif rng.random() < 0.45:
                # two threads meet: each is stopped at the same place
                t, u = rng.sample(range(n), 2)
                theirs = dict(solo[u][4])
                common = [(x, theirs[name]) for name, x in solo[t][4] if name in theirs]
                if rng.random() < 0.5:
                    common = [c for c in common if len(c[0]) == 1] or common
                s2["first"] = t
                s2["switches"] = []
                for _ in range(rng.choice([1, 3, 6, 10])):
                    if common:
                        x, y = rng.choice(common)
                        s2["switches"] += [[t, rng.choice(x), u], [u, rng.choice(y), t]]
            else:
                s2["switches"] = []
                for _ in range(rng.choice([1, 2, 2, 3, 5, 8])):
                    t = rng.randrange(n)
                    if rng.random() < 0.6 and solo[t][4]:
                        # lines that are rarely reached are as likely as lines of busy loops
                        at = rng.choice(rng.choice(solo[t][4])[1])
                    else:
                        at = rng.randint(1, max(2, steps[t]))
                    s2["switches"].append([t, at, rng.randrange(n)])
            self.case(ctx, s2, st)

    # ------------------------------------------------------------------- work
    def job(self, ctx, i, d, shared):
        import clevercsv
        from clevercsv import wrappers
        from clevercsv.console.application import build_application
        from clevercsv.encoding import get_encoding
        path = ctx.path("fs0/d/t%d.csv" % i)
        k = d["k"]
        enc = d.get("opt_enc", "utf-8")

        def dl():
            return clevercsv.dialect.SimpleDialect(*d["dialect"]) if "dialect" in d else None

        def work():
            if k == "detect":
                det = shared["detector"] if d.get("shared") else clevercsv.Detector()
                return ops.dialect_tuple(det.detect(d["text"], method=d["method"], skip=d["skip"]))
            if k == "header":
                return shared["detector"].has_header(d["text"])
            if k == "reader":
                return list(clevercsv.reader(lines_source(model.lines_of(d["text"])), dl() or shared["dialect"]))
            if k == "read":
                return wrappers.read_dicts(path, dialect=dl())
            if k == "dicts":
                return [dict(x) for x in clevercsv.DictReader(lines_source(model.lines_of(d["text"])), dialect=shared["dialect"])]
            if k == "stream":
                return [row for row in wrappers.stream_table(path, encoding=enc)]
            if k == "frame":
                return wrappers.read_dataframe(path, encoding=enc, **d.get("kwargs", {})).to_csv()
            if k == "table":
                return wrappers.read_table(path, dialect=dl(), encoding=enc)
            if k == "streamdicts":
                return [dict(x) for x in wrappers.stream_dicts(path, dialect=dl(), encoding=enc)]
            if k == "slow":
                out, rd = [], clevercsv.reader(lines_source(model.lines_of(d["text"])), dl() or shared["dialect"])
                for row in rd:
                    n = rd.line_num
                    out.append([n, row])
                return out
            if k == "sniff":
                return ops.dialect_tuple(shared["detector"].sniff(d["text"], delimiters=d.get("delims")))
            if k == "dicts_out":
                wrappers.write_dicts([{"a": Text(r[0]), "b": len(r)} for r in d["table"] if r], path, dialect=shared["dialect"], encoding=enc)
                return None
            if k == "output":
                out = ctx.path("fs0/d/o%d.csv" % i)
                r = build_application().run(["standardize", "-e", enc, "-o", out, path], exit_on_error=False)
                if not os.path.exists(out):
                    return r
                with open(out, newline="", encoding=enc) as f:
                    text = f.read()
                os.unlink(out)
                return r, text
            if k == "code":
                with open(path, newline="", encoding=enc) as f:
                    return ops.dialect_tuple(wrappers.detect_dialect(path, encoding=enc)), clevercsv.Detector().has_header(f.read())
            if k == "sink":
                out = Sink()
                w = clevercsv.writer(out, shared["dialect"])
                w.writerows([Text(c) for c in row] for row in d["table"])
                w2 = clevercsv.DictWriter(out, ["a", "b"], restval=Text("-"))
                w2.writeheader()
                w2.writerows({"a": Text(row[0])} for row in d["table"] if row)
                return "".join(out.parts)
            if k == "encoding":
                return get_encoding(path, **d.get("how", {}))
            if k == "write":
                wrappers.write_table(d["table"], path, dialect=shared["dialect"], encoding=enc)
                return None
            if k == "standardize":
                return build_application().run(["standardize", "-i", "-e", enc, path], exit_on_error=False)
            raise Invalid(k)
        return lambda: ops.capture(work)

    def prepare(self, ctx, sc):
        ctx.clean()
        ctx.os.reset(1)
        for i, d in enumerate(sc["threads"]):
            ctx.put("fs0/d/t%d.csv" % i, d["text"].encode(d.get("opt_enc", "utf-8"), "replace"))
        os.makedirs(ctx.path("fs0/tmp"), exist_ok=True)

    def execute(self, ctx, sc, only=None):
        """Runs in the isolated process: results, step counts, settings, switches."""
        import clevercsv
        import warnings
        from .. import simthreads
        warnings.simplefilter("ignore")
        ops.set_tmp(ctx, "fs0/tmp")
        shared = {"detector": clevercsv.Detector(), "dialect": clevercsv.dialect.SimpleDialect(",", '"', "")}
        fns = [self.job(ctx, i, d, shared) for i, d in enumerate(sc["threads"]) if only is None or i == only]
        with ops.Std(ctx):
            before = process_state()
            if only is None:
                s = simthreads.Scheduler(fns, sc["switches"], sc["first"], sc["slice"], sc["opcodes"])
            else:
                s = simthreads.Scheduler(fns, [], 0, 0, sc["opcodes"], sites={})
            res = s.run()
            after = process_state()
        changed = {k: (repr(before[k])[:300], repr(after[k])[:300]) for k in before if before[k] != after[k]}
        return [norm(r) for r in res], s.steps, changed, s.history[:400], s.switched, sorted((s.sites or {}).items())

    def files(self, ctx):
        return {k: v[1] for k, v in ctx.snapshot().items()}

    def solo(self, ctx, sc):
        """Each thread's work alone, in its own process."""
        out = []
        for i, d in enumerate(sc["threads"]):
            key = repr((i, sorted(d.items(), key=str), sc["opcodes"]))
            if key not in self._solo:
                if len(self._solo) > 100:
                    self._solo.clear()
                self.prepare(ctx, sc)
                o = ctx.run(lambda: self.execute(ctx, sc, only=i), traced=False)
                if o.status != "ok":
                    raise core.Found(sc, [Violation("died", "a single thread ended with %s" % o.status, stderr=o.stderr[-800:])])
                self._solo[key] = (o.value[0][0], o.value[1][0], o.value[2], self.files(ctx).get("fs0/d/t%d.csv" % i), o.value[5])
            out.append(self._solo[key])
        return out

    _solo = {}

    def check(self, ctx, sc, st):
        if not sc["threads"]:
            raise Invalid("no threads")
        solo = self.solo(ctx, sc)
        self.prepare(ctx, sc)
        o = ctx.run(lambda: self.execute(ctx, sc))
        if o.status != "ok":
            return [Violation("died", "the process ended with %s" % o.status, stderr=o.stderr[-800:])]
        res, steps, changed, hist, switched, _ = o.value
        st.add("steps", sum(steps))
        st.add("switches", switched)
        st.add("fault:preemption", len(hist))
        if hist:
            st.seen("nontrivial", hist)
        st.seen("kinds", sorted(d["k"] for d in sc["threads"]))
        files = self.files(ctx)
        for i, d in enumerate(sc["threads"]):
            want = solo[i]
            if res[i] != want[0]:
                return [Violation("influenced", "thread %d (%s) got %s; alone it gets %s" % (i, d["k"], short(res[i]), short(want[0])),
                                  switches=["thread %d at %s:%d -> %d" % h for h in hist[:20]])]
            f = files.get("fs0/d/t%d.csv" % i)
            if f != want[3]:
                return [Violation("file", "the file of thread %d (%s) holds %s; alone it holds %s"
                                  % (i, d["k"], short(f), short(want[3])),
                                  switches=["thread %d at %s:%d -> %d" % h for h in hist[:20]])]
        for what, (a, b) in sorted(changed.items()):
            if not any(what in x[2] for x in solo):
                return [Violation("setting", "%s: %s before, %s after the threads ran; none of them changes it alone" % (what, a, b),
                                  switches=["thread %d at %s:%d -> %d" % h for h in hist[:20]])]
        extra = set(files) - {"fs0/d/t%d.csv" % i for i in range(len(sc["threads"]))}
        if extra:
            return [Violation("residue", "left behind: %s" % sorted(extra))]
        return []


def norm(r):
    """Exceptions compare by type and text."""
    if r and r[0] == "exc":
        return ("exc", r[1], r[3])
    return r


def short(x):
    s = repr(x)
    return s if len(s) < 250 else s[:250] + "..."


PROP = C07()
