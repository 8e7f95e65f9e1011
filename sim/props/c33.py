"""C33: generated code reads the file the same way."""
import io, os, sys, types

from .. import core, gen, opmix, ops, oracle, osim
from ..core import Violation

NAMES = ["in.csv", "in.csv", "in.csv", "my file.csv", 'qu"ote.csv', "apo'strophe.csv", "back\\slash.csv", "tab\there.csv", "new\nline.csv",
         "{brace}.csv", "100%s.csv", "é日本.csv", "a\\", "\\n.csv", '"', "'''.csv", "-i.csv", "#.csv", "cr\rx.csv", "\x7f\x01.csv", "😀.csv",
         "blank ", " lead.csv", "line\n", "NUL.csv", "~", "$HOME.csv", "a\u2028b.csv", "\xa0.csv", "in.csv.gz", "{0}{f}", "e\u0301.csv"]


class C33(core.Property):
    id = "C33"
    quick_runs = 900
    thorough_runs = 40000
    preload = opmix.PRELOAD + ("clevercsv.console.commands.explore", "code", "codeop")
    rule = ("counts distinct (command, options, kind of file name, dialect, operations and faults met while the generated code ran); "
            "non-trivial when the file holds at least one record")
    real = ["clevercsv code and explore through the console entry point; the generated program, run by the interpreter on the same library"]
    stub = ["libc file calls pass through libsimos", "standard input of explore is a string; pandas is replaced by a recorder for --pandas"]
    assumptions = ["the reference parser (sim/model.py) defines how a text reads under a dialect",
                   "the program runs in the directory in which the command was given"]
    no_shrink = ("name",)

    def run_seed(self, ctx, rng, st):
        t = opmix.small_text(rng)
        enc, data = gen.encoded(rng, t)
        nc = None
        if rng.random() < 0.06:
            enc, data, nc = gen.late_trouble(rng)
        sc = {"seed": rng.randrange(1 << 32), "data": data.hex(), "name": rng.choice(NAMES), "cmd": rng.choice(["code"] * 4 + ["explore"]),
              "opts": [], "faults": [], "knobs": {}}
        if rng.random() < 0.6:
            sc["opts"] += ["-e", enc]
        if nc:
            sc["opts"] = ["-e", enc, "-n", str(nc)]
        elif rng.random() < 0.2:
            sc["opts"] += ["-n", str(rng.choice([1, 3, 20, 200, 9000]))]
        if rng.random() < 0.15:
            sc["opts"].append("-p")
        if rng.random() < 0.4 and not sc["name"].startswith("-"):
            sc["opt_rel"] = True
        if rng.random() < 0.3:
            sc["knobs"]["rd_max"] = rng.choice([1, 2, 5, 60]) if len(data) < 400 else rng.choice([700, 5000] if len(data) < 20000 else [40000])
        if "-e" in sc["opts"] and rng.random() < 0.15:
            sc["opt_locale"] = "C"
        self.case(ctx, sc, st)
        if "-p" not in sc["opts"] and rng.random() < 0.6:
            for _ in range(2):
                s2 = dict(sc)
                # places in the run of the generated program
                f = {"k": -rng.randint(1, 4), "type": "err", "errno": rng.choice(["EIO", "ESTALE", "EACCES"]), "kinds": ["open", "read"]}
                if rng.random() < 0.3:
                    f = {"k": -rng.randint(1, 4), "type": rng.choice(["sigint", "sigint_after"]), "kinds": ["read"]}
                s2["faults"] = [f]
                self.case(ctx, s2, st)

    def check(self, ctx, sc, st):
        data = bytes.fromhex(sc["data"])
        o = sc["opts"]
        enc = o[o.index("-e") + 1] if "-e" in o else None
        nc = int(o[o.index("-n") + 1]) if "-n" in o else None
        if not sc["name"] or "/" in sc["name"] or "\0" in sc["name"]:
            raise core.Invalid("name")
        det = oracle.dialect_of_file(ctx, data, enc, nc)
        ctx.clean()
        ctx.os.reset(sc.get("seed", 0))
        for d in ("fs0/d", "fs0/tmp"):
            os.makedirs(ctx.path(d), exist_ok=True)
        rel = "fs0/d/" + sc["name"]
        ctx.put(rel, data)
        arg = sc["name"] if sc.get("opt_rel") else ctx.path(rel)
        argv = [sc["cmd"]] + o + [arg]
        quiet = {**sc, "faults": []}
        what = "clevercsv %s %s %r" % (sc["cmd"], " ".join(o), arg)

        def begin():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")

        def recorder(calls):
            import clevercsv
            import clevercsv.wrappers

            def read_dataframe(*a, **k):
                calls.append((a, k))
                return "the frame"
            clevercsv.read_dataframe = clevercsv.wrappers.read_dataframe = read_dataframe

        if sc["cmd"] == "explore":
            got = []

            def fn():
                begin()
                calls = []
                if "-p" in o:
                    recorder(calls)
                probe = types.ModuleType("sim_probe")
                probe.take = got.append
                sys.modules["sim_probe"] = probe
                old = sys.stdin
                sys.stdin = io.StringIO("import sim_probe\nsim_probe.take(%s)\n" % ("df" if "-p" in o else "rows"))
                with ops.Std(ctx) as std:
                    ops.arm(ctx, sc)
                    r = ops.capture(lambda: ops.cli(argv))
                    ctx.os.arm(False)
                    out, err = std.texts()
                sys.stdin = old
                return r, got, calls if "-p" in o else out, err
        else:
            def gencode():
                begin()
                with ops.Std(ctx) as std:
                    ops.arm(ctx, quiet)
                    r = ops.capture(lambda: ops.cli(argv))
                    ctx.os.arm(False)
                    out, err = std.texts()
                return r, out, err
            p = ctx.run(gencode)
            if p.status != "ok":
                return [Violation("died", "%s ended with %s" % (what, p.status), stderr=p.stderr[-800:])]
            r, text, err = p.value
            if r != ("ok", 0):
                st.add("probe:no_code")
                return []
            try:
                prog = compile(text, "<generated>", "exec")
            except (SyntaxError, ValueError) as e:
                return [Violation("invalid", "%s printed invalid Python: %s" % (what, e), code=text)]
            ctx.os.reset(sc.get("seed", 0) + 1)

            def fn():
                begin()
                ns = {"__name__": "__main__"}
                calls = []
                if "-p" in o:
                    recorder(calls)
                with ops.Std(ctx):
                    ops.arm(ctx, sc)
                    r = ops.capture(lambda: exec(prog, ns))
                    ctx.os.arm(False)
                return r, [ns["rows"]] if "rows" in ns else [], calls, ""
        p = ctx.run(fn)
        log = ctx.os.log(data=False)
        n = ops.fired(ctx, sc, st)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        if p.status != "ok":
            return [Violation("died", "%s: running the code ended with %s" % (what, p.status), stderr=p.stderr[-800:])]
        r, got, x, err = p.value
        if "-p" in o:
            code = {} if sc["cmd"] == "explore" else {"code": text}
            if sc["cmd"] == "explore" and (det[0] != "ok" or det[1][1] is None):
                if x:
                    return [Violation("no-dialect", "%s read a data frame although detection gives %r" % (what, det[:2]))]
                return []
            if sc["cmd"] == "explore" and got != ["the frame"]:
                return [Violation("pandas", "%s: the variable df holds %r" % (what, got))]
            if r[0] != "ok" or len(x) != 1 or list(x[0][0][:1]) + [x[0][1].get("filename")] not in ([arg, None], [arg]):
                return [Violation("pandas", "%s: the code called read_dataframe with %r" % (what, x or r), **code)]
            st.seen("nontrivial", ("pandas", sc["name"], det[1][1] if det[0] == "ok" else None))
            return []
        if det[0] != "ok" or det[1][1] is None:
            if got:
                return [Violation("no-dialect", "%s gave records although detection gives %r" % (what, det[:2]))]
            return []
        e, d = det[1]
        t = oracle.decode(data, e or "utf-8")
        want = oracle.rows(t, d) if t is not None else ("error", "the file is not valid %s" % e)
        fault = any(y["fault"] not in ("none", "short") for y in log)
        code = {} if sc["cmd"] == "explore" else {"code": text}
        if not got:
            if want[0] == "ok" and not fault:
                return [Violation("no-rows", "%s: the code gave no rows but %r" % (what, r[:2]), dialect=repr(d), out=repr(x)[-300:], **code)]
            st.add("probe:failed")
            return []
        if want[0] != "ok":
            return [Violation("unreadable", "%s: the code gave %r although %s" % (what, got[0][:5], want[1]), dialect=repr(d), **code)]
        if fault and any(y["fault"].startswith("err") for y in log) and sc["cmd"] == "code":
            return [Violation("false-success", "%s: the code succeeded although a read failed" % what, log=osim.brief(log), **code)]
        if got[0] != want[1]:
            return [Violation("records", "%s: the code gave %r instead of %r" % (what, got[0][:8], want[1][:8]), dialect=repr(d),
                              log=osim.brief(log) if n else [], **code)]
        if want[1]:
            st.seen("nontrivial", (sc["cmd"], o, NAMES.index(sc["name"]) if sc["name"] in NAMES else -1, d, [(y["kind"], y["fault"]) for y in log if y["fault"] != "none"]))
        st.add("probe:records_compared", len(want[1]))
        return []


PROP = C33()
