"""C35: viewing shows every record or nothing."""
import os

from .. import core, gen, opmix, ops, oracle, osim
from ..core import Violation

NAMES = ["in.csv", "in.csv", "my file.csv", "é日本.csv", "-i.csv", "%s.csv", "{0}"]


class C35(core.Property):
    id = "C35"
    quick_runs = 2000
    thorough_runs = 60000
    preload = opmix.PRELOAD + ("clevercsv.console.commands.view", "tabview")
    rule = ("counts distinct (options, kind of file name, dialect, number of records, operations and faults met); non-trivial when the file "
            "holds at least one record")
    real = ["clevercsv view through the console entry point: detection, reading, transposing"]
    stub = ["libc file calls pass through libsimos", "tabview's screen is replaced by a recorder of the rows it is given"]
    assumptions = ["the reference parser (sim/model.py) defines how a text reads under a dialect",
                   "cells that fill up short rows when transposing may be None or empty"]

    def run_seed(self, ctx, rng, st):
        t = opmix.small_text(rng)
        enc, data = gen.encoded(rng, t)
        nc = None
        if rng.random() < 0.08:
            enc, data, nc = gen.late_trouble(rng)
        sc = {"seed": rng.randrange(1 << 32), "data": data.hex(), "name": rng.choice(NAMES), "opts": [], "faults": [], "knobs": {}}
        if nc:
            sc["opts"] = ["-e", enc, "-n", str(nc)]
        else:
            if rng.random() < 0.6:
                sc["opts"] += ["-e", enc]
            if rng.random() < 0.2:
                sc["opts"] += ["-n", str(rng.choice([1, 3, 20, 200, 9000]))]
        if rng.random() < 0.4:
            sc["opts"].append("-t")
        if rng.random() < 0.1:
            sc["opt_verbose"] = True
        if rng.random() < 0.4:
            sc["knobs"]["rd_max"] = rng.choice([1, 2, 5, 60]) if len(data) < 400 else rng.choice([700, 5000] if len(data) < 20000 else [40000])
        if "-e" in sc["opts"] and rng.random() < 0.12:
            sc["opt_locale"] = "C"
        if rng.random() < 0.03:
            sc["screen"] = rng.choice(["OSError", "KeyboardInterrupt", "ValueError"])
        self.case(ctx, sc, st)
        for _ in range(2):
            r = rng.random()
            if r < 0.6:
                f = gen.error_at(rng, self.log, ("open", "read", "close"))
            elif r < 0.8:
                f = gen.interrupt_at(rng, self.log)
            else:
                f = {"k": rng.randint(0, len(self.log)), "type": "eintr", "sticky": 1, "arg": rng.randint(1, 4)}
            if f:
                self.case(ctx, {**sc, "faults": [f]}, st)

    def check(self, ctx, sc, st):
        data = bytes.fromhex(sc["data"])
        o = sc["opts"]
        if not sc["name"] or "/" in sc["name"] or "\0" in sc["name"]:
            raise core.Invalid("name")
        enc = o[o.index("-e") + 1] if "-e" in o else None
        nc = int(o[o.index("-n") + 1]) if "-n" in o else None
        det = oracle.dialect_of_file(ctx, data, enc, nc)
        ctx.clean()
        ctx.os.reset(sc.get("seed", 0))
        for d in ("fs0/d", "fs0/tmp"):
            os.makedirs(ctx.path(d), exist_ok=True)
        rel = "fs0/d/" + sc["name"]
        ctx.put(rel, data)
        argv = (["-v"] if sc.get("opt_verbose") else []) + ["view"] + o + [ctx.path(rel)]
        what = "clevercsv " + " ".join(argv[:-1]) + " " + repr(sc["name"])

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            shown = []

            def view(rows, *a, **k):
                shown.append([list(r) for r in rows])
                if sc.get("screen"):
                    raise {"OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError}[sc["screen"]]("screen")
            import tabview.tabview
            tabview.view = tabview.tabview.view = view
            with ops.Std(ctx) as std:
                ops.arm(ctx, sc)
                r = ops.capture(lambda: ops.cli(argv))
                ctx.os.arm(False)
                out, err = std.texts()
            return r, shown, out, err
        p = ctx.run(fn)
        log = self.log = ctx.os.log(data=False)
        n = ops.fired(ctx, sc, st)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        if p.status != "ok":
            return [Violation("died", "%s ended with %s" % (what, p.status), stderr=p.stderr[-800:])]
        r, shown, out, err = p.value
        fine = r[0] == "ok" and r[1] in (0, None)
        disturbed = any(y["fault"] in ("err", "sigint", "sigint_after") for y in log)
        readfail = [y for y in log if y["fault"] == "err" and y["kind"] in ("open", "read") and y["path"].endswith(sc["name"])]
        if len(shown) > 1:
            return [Violation("twice", "%s showed %d tables" % (what, len(shown)))]
        if sc.get("screen") and shown and fine:
            return [Violation("false-success", "%s reported success although the viewer failed" % what)]
        if readfail and (shown or fine):
            return [Violation("swallowed", "%s ended with %r and showed %s although %s" % (
                what, r[:2], short(shown), osim.brief(readfail[:1])[0].strip()))]
        if fine and not shown:
            return [Violation("nothing", "%s reported success but showed nothing" % what)]
        if det[0] != "ok" or det[1][1] is None:
            if shown:
                return [Violation("no-dialect", "%s showed %s although detection gives %r" % (what, short(shown), det[:2]))]
            st.add("probe:not_detected")
            return []
        e, d = det[1]
        t = oracle.decode(data, e or "utf-8")
        want = oracle.rows(t, d) if t is not None else ("error", "the file is not valid %s" % e)
        if want[0] != "ok":
            if shown:
                return [Violation("unreadable", "%s showed %s although %s" % (what, short(shown), want[1]), dialect=repr(d))]
            st.add("probe:unreadable")
            return []
        rows = want[1]
        if "-t" in o:
            if not rows:
                return []
            w = max(map(len, rows))
            full = [list(r) + [None] * (w - len(r)) for r in rows]
            rows = [list(c) for c in zip(*full)]
        if not shown:
            if not disturbed:
                return [Violation("spurious", "%s ended with %r and showed nothing" % (what, r[:2]), dialect=repr(d), err=err[-400:])]
            st.add("probe:failed")
            return []
        got = shown[0]
        if len(got) != len(rows) or any(len(a) != len(b) or any(x != y and not (y is None and x == "") for x, y in zip(a, b))
                                        for a, b in zip(got, rows)):
            return [Violation("records", "%s showed %s instead of %s" % (what, short(got), short(rows)), dialect=repr(d))]
        if rows:
            st.seen("nontrivial", (o, NAMES.index(sc["name"]) if sc["name"] in NAMES else -1, d, len(rows),
                                   [(y["kind"], y["fault"]) for y in log if y["kind"] != "read" or y["fault"] != "none"]))
        st.add("probe:records_compared", len(rows))
        return []


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


PROP = C35()
