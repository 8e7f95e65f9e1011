"""C01: in-place standardizing is all-or-nothing at every instant."""
from .. import core, fsmodel, gen, inplace, ops
from ..core import Violation


class C01(core.Property):
    id = "C01"
    quick_runs = 900
    thorough_runs = 40000
    preload = inplace.PRELOAD
    rule = ("counts distinct executions by (sequence of operation kinds with the fault each met, how the run ended, file changed "
            "or not, symlinked or not); an execution is non-trivial when a planned fault fired or, fault-free, a "
            "crash image was enumerated from its log")
    real = ["clevercsv (standardize command through the console entry point, detection, reader, writer, C extensions)",
            "CPython io, tempfile, shutil, csv, hashlib, codecs; kernel file system calls on a scratch directory"]
    stub = ["fsync durability, power loss and directory persistence (model file system replaying the operation log)",
            "libc file calls pass through libsimos, which decides errors, short transfers, interrupts and crashes"]
    assumptions = ["rename is atomic and metadata operations persist in order; unsynced file data persists as any prefix",
                   "single reader/writer of the target during the run"]

    # sc: text-derived bytes "data" (hex), argv options, faults, knobs, layout
    def run_seed(self, ctx, rng, st):
        sc = inplace.gen_base(rng)
        sc["kind"] = "inplace"
        prof = inplace.profile(ctx, sc)
        if prof is None:
            st.add("skipped_no_profile")
            return
        log = prof["log"]
        self.case(ctx, sc, st)
        for _ in range(2):
            s2 = dict(sc)
            s2["faults"], k = inplace.gen_faults(rng, log)
            s2["knobs"] = {**sc["knobs"], **k}
            self.case(ctx, s2, st)

    def check(self, ctx, sc, st):
        ref = inplace.reference(ctx, sc)
        files, links, inos, target = inplace.layout(ctx, sc, sc["seed"])
        orig = files[target]
        new = ref["content"] if ref["status"] == ("ok", 2) else orig
        o = ctx.run(lambda: inplace.run(ctx, sc))
        log = ctx.os.log()
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        final = ctx.snapshot()
        now = final.get(target, (None, None))[1]
        out = []
        if o.status == "hang" or (o.status.startswith("signal")):
            return [Violation("died", "standardize --in-place ended with %s" % o.status, stderr=o.stderr[-800:])]
        if ctx.os.get("overflow"):
            raise core.Invalid("log overflow")
        how = "crash" if o.status == "exit:77" else (o.value["res"][0] + ":" + str(o.value["res"][1]))

        def describe(c):
            if c is None:
                return "is missing"
            if len(c) > 120:
                return "holds %d bytes: %r..." % (len(c), c[:120])
            return "holds %r" % c
        if now not in (orig, new):
            out.append(Violation("torn", "after the run (%s) the file %s; neither the original nor the complete new content"
                                 % (how, describe(now)), orig=repr(orig)[:400], new=repr(new)[:400], log=brief(log)))
            return out
        mode = final.get(target, (None, None, None))[2]
        if mode != sc.get("mode", 0o644):
            out.append(Violation("mode", "after the run (%s) the permission bits of the file are %o instead of %o"
                                 % (how, mode, sc.get("mode", 0o644)), log=brief(log)))
            return out
        res = None if o.status == "exit:77" else o.value["res"]
        if res and res[0] == "ok" and res[1] == 2 and now != new:
            out.append(Violation("lost", "exit status 2 but the file %s" % describe(now), log=brief(log)))
            return out
        # every instant, from the log
        st.seen("sequences", tuple((x["kind"], x["fault"]) for x in log))
        if n or not sc.get("faults"):
            st.seen("nontrivial", (tuple((x["kind"], x["fault"]) for x in log), how, now == orig, len(links)))
        bad = []
        power_ok = {"n": 0}

        def visit(kind, i, c):
            if kind == "power":
                power_ok["n"] += 1
            if c != orig and c != new:
                bad.append((kind, i, c))
                return True
            return False
        model = fsmodel.FS(files, links, inos)
        for x in log:
            model.apply(x)
        if model.view(target) != now:
            st.add("model_mismatch")
        else:
            states = fsmodel.explore(files, links, inos, log, target, visit)
            st.add("states_checked", states)
            st.add("probe:power_loss_images", power_ok["n"])
            if bad:
                kind, i, c = bad[0]
                what = "while the command runs" if kind == "live" else "after a power loss"
                at = brief([x for x in log if x["i"] == i]) or ["start"]
                out.append(Violation("visible" if kind == "live" else "powerloss",
                                     "%s at operation %s the file %s" % (what, at[0].strip(), describe(c)), log=brief(log)))
                return out
        if how == "crash":
            st.add("probe:crashed")
            st.add("probe:crashed_after_replace" if now == new and new != orig else "probe:crashed_before_replace")
            if ref["status"][0] == "ok":
                o2 = ctx.run(lambda: inplace.rerun(ctx, sc))
                end = ctx.snapshot().get(target, (None, None))[1]
                want = ref["content"] if now == orig else inplace.reference_of(ctx, sc, now)
                if o2.status != "ok" or end != want:
                    out.append(Violation("rerun", "running the command again after the crash (%s, %s) left a file that %s"
                                         % (o2.status, o2.value and o2.value["res"][:2], describe(end)), log=brief(log)))
        return out


def brief(log):
    from .. import osim
    return osim.brief(log, 80)


PROP = C01()
