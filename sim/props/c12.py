"""C12: reported runtimes survive clock changes."""
import json, math, os, re

from .. import core, gen, opmix, ops, osim
from ..core import Violation

S = 10**9
JUMPS = [-3600 * S, 3600 * S, -S, S, -S // 1000, S // 1000, -40 * 365 * 86400 * S, 60 * 365 * 86400 * S, -7 * S, 2 * S]
TOL = 2e-6          # what six printed decimals lose, and the granularity of floats


class C12(core.Property):
    id = "C12"
    quick_runs = 2500
    thorough_runs = 120000
    preload = opmix.PRELOAD
    rule = ("counts distinct (output options, clock changes and delays with the operation or clock reading each hit, "
            "printed runtime); non-trivial when the clock was changed or time passed during detection")
    real = ["clevercsv detect command, detection, CPython time module and io"]
    stub = ["clocks: the simulator decides what every clock reads, sets the system clock at chosen moments and lets time pass in I/O",
            "libc file calls pass through libsimos"]
    assumptions = ["computing takes no simulated time: time passes at clock readings and in file operations"]

    def run_seed(self, ctx, rng, st):
        t = gen.text(rng)
        enc, data = gen.encoded(rng, t)
        a = ["detect", "--add-runtime"] + rng.choice([[], [], ["-j"], ["-p"]]) + rng.choice([[], [], ["-c"], ["--no-skip"], ["-v"]])
        if rng.random() < 0.6:
            a += ["-e", enc]
        if rng.random() < 0.2:
            a += ["-n", str(rng.choice([1, 5, 50, 4000]))]
        sc = {"seed": rng.randrange(1 << 32), "files": {opmix.IN: data.hex()}, "op": {"op": "cli", "argv": a + ["@" + opmix.IN]},
              "faults": [], "knobs": {"clock": 1, "tick_ns": rng.choice([1, 1000, 1000, 10**6, 3 * S]), "op_ns": rng.choice([0, 0, 1000, 10**7, S])}}
        if rng.random() < 0.3:
            sc["knobs"]["advance"] = rng.choice([S, 10**6 * S, 10**8 * S])
        log, how = opmix.profile(ctx, sc)
        n = max(1, len(log))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.6:
                sc["faults"].append({"k": rng.randrange(n), "type": "clockjump", "arg": rng.choice(JUMPS)})
            else:
                sc["faults"].append({"k": rng.randrange(n), "type": "latency", "arg": rng.choice([1000, 10**6, S // 3, 5 * S, 4000 * S])})
        if rng.random() < 0.35:
            sc["knobs"]["read_jump_at"] = rng.randint(1, 3)
            sc["knobs"]["read_jump"] = rng.choice(JUMPS)
        self.case(ctx, sc, st)

    def check(self, ctx, sc, st):
        opmix.layout(ctx, sc)
        op = sc["op"]
        a = op["argv"]

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            with ops.Std(ctx) as std:
                ops.arm(ctx, sc)
                t0 = ctx.os.get("mono")
                r = ops.capture(lambda: opmix.perform(ctx, op))
                t1 = ctx.os.get("mono")
                ctx.os.arm(False)
                out, err = std.texts()
            return r, out, err, t1 - t0
        o = ctx.run(fn)
        log = ctx.os.log(data=False)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * S - sc["knobs"].get("advance", 0))
        n = ops.fired(ctx, sc, st)
        if sc["knobs"].get("read_jump_at") and ctx.os.get("read_jump_at") == 0:
            n += 1
            st.add("fault:clockjump_at_reading")
        if o.status != "ok":
            return [Violation("died", "%s ended with %s" % (" ".join(a), o.status), stderr=o.stderr[-800:])]
        r, out, err, total = o.value
        if r != ("ok", 0):
            st.add("probe:detection_failed")
            plain = dict(op, argv=[x for x in a if x != "--add-runtime"])
            if self.ends_well(ctx, dict(sc, op=plain)):
                return [Violation("failed", "%s ended with %s; without --add-runtime the command succeeds" % (" ".join(a), " ".join(map(str, r))), log=osim.brief(log))]
            return []
        total /= S
        lat = {f["k"]: 0 for f in sc["faults"]}
        for f in sc["faults"]:
            if f["type"] == "latency":
                lat[f["k"]] += f["arg"]
        # time that certainly passed while the file was being read
        inside = sum(v for k, v in lat.items() if 0 < k < len(log) - 1) / S
        if len(log) > 2:
            inside += (len(log) - 2) * sc["knobs"]["op_ns"] / S
        got = self.printed(a, out)
        if isinstance(got, str):
            return [Violation("format", "%s printed %s: %r" % (" ".join(a[:-1]), got, out[-300:]))]
        if n or total > 1e-5:
            st.seen("nontrivial", (a[:-1], [(f["type"], f["k"], f["arg"]) for f in sc["faults"]], sc["knobs"], got))
        if got < 0 or not math.isfinite(got):
            return [Violation("negative", "reported a runtime of %r s; %.6f s had elapsed" % (got, total), log=osim.brief(log))]
        if got > total * (1 + 1e-9) + TOL:
            return [Violation("inflated", "reported a runtime of %r s but only %.6f s had elapsed" % (got, total), log=osim.brief(log))]
        if got < inside * (1 - 1e-9) - TOL:
            return [Violation("deflated", "reported a runtime of %r s but reading the file alone took %.6f s" % (got, inside), log=osim.brief(log))]
        return []

    def ends_well(self, ctx, sc):
        opmix.layout(ctx, sc)

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            with ops.Std(ctx):
                ops.arm(ctx, sc)
                r = ops.capture(lambda: opmix.perform(ctx, sc["op"]))
                ctx.os.arm(False)
            return r
        return ctx.run(fn).value == ("ok", 0)

    def printed(self, a, out):
        """The runtime in the output, or what is wrong with it."""
        if "-j" in a:
            for line in reversed(out.strip().splitlines()):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if isinstance(d, dict) and isinstance(d.get("runtime"), (int, float)) and not isinstance(d["runtime"], bool):
                    return float(d["runtime"])
            return "no runtime"
        m = re.findall(r"runtime\s*[:=]\s*(\S+)", out, re.I)
        if not m:
            return "no runtime"
        try:
            return float(m[-1])
        except ValueError:
            return "an unreadable runtime"


PROP = C12()
