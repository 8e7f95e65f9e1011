"""C03: failed, interrupted or abandoned operations leave nothing behind."""
import os, warnings

from .. import core, opmix, ops, osim
from ..core import Violation

KINDS = opmix.READS + opmix.WRITES + opmix.CLI + ["cli_inplace", "cli_inplace", "stream_table", "stream_dicts"]


def handles(ctx):
    """Open descriptors on scratch files, except the harness's own."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(ctx.root) and "/io/" not in t:
            out.append(t[len(ctx.root) + 1:])
    return sorted(out)


class C03(core.Property):
    id = "C03"
    quick_runs = 1300
    thorough_runs = 60000
    preload = opmix.PRELOAD
    rule = ("counts distinct executions by (operation, sequence of operation kinds with the fault each met, how it ended); "
            "non-trivial when a planned fault fired, a stream was abandoned, or a file was converted in place")
    real = ["all file-based operations of clevercsv: detection, encoding, readers, streams, writers, detect/code/standardize commands",
            "CPython io, tempfile, csv; kernel descriptors and directories"]
    stub = ["libc file calls pass through libsimos, which decides errors, short transfers, full disks and interrupts"]
    assumptions = ["interrupts arrive at read and write calls", "removing the temporary file itself does not fail"]

    def run_seed(self, ctx, rng, st):
        sc = opmix.gen_op(rng, KINDS)
        log, how = opmix.profile(ctx, sc)
        self.case(ctx, sc, st)
        for _ in range(2):
            s2 = dict(sc)
            s2["faults"], k = opmix.gen_faults(rng, log)
            s2["knobs"] = {**sc["knobs"], **k}
            if s2["faults"] or k:
                self.case(ctx, s2, st)

    def check(self, ctx, sc, st):
        op = sc["op"]
        opmix.layout(ctx, sc)
        before = ctx.snapshot()

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            h0 = handles(ctx)
            keep = None
            with ops.Std(ctx), warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always", ResourceWarning)
                ops.arm(ctx, sc)
                try:
                    r = ("ok", opmix.perform(ctx, op))
                except BaseException as e:      # the caller may hold on to the exception
                    keep = e
                    r = ops.exc_info(e)
                h1 = handles(ctx)
                ctx.os.arm(False)
            # files nobody closed, that only the garbage collector got rid of
            h1 += [str(w.message).replace(ctx.root + "/", "") for w in warned
                   if issubclass(w.category, ResourceWarning) and "unclosed file" in str(w.message)]
            del keep
            return r[0], (r[1] if r[0] == "exc" or op["op"] == "cli" else None), h0, h1
        o = ctx.run(fn)
        log = ctx.os.log(data=False)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        if o.status != "ok":
            return [Violation("died", "the operation ended with %s" % o.status, stderr=o.stderr[-800:])]
        kind, what, h0, h1 = o.value
        name = op["op"] if op["op"] != "cli" else "cli " + " ".join(op["argv"])
        how = "%s %s" % (kind, what)
        if n or op.get("take") is not None or (op["op"] == "cli" and what == 2):
            st.seen("nontrivial", (name, how, tuple((x["kind"], x["fault"]) for x in log)))
        if kind == "exc":
            st.add("probe:failed")
        if op.get("take") is not None:
            st.add("probe:abandoned")
        out = []
        leaked = list(h1)
        for h in h0:
            if h in leaked:
                leaked.remove(h)
        if leaked:
            out.append(Violation("handle", "%s (%s) left %s open" % (name, how, ", ".join(leaked)), log=osim.brief(log)))
        after = ctx.snapshot()
        unlink_failed = any(x["fault"] == "err" and x["kind"] in ("unlink", "rmdir") for x in log)
        allowed = set(before) | {opmix.OUT if (op["op"] in opmix.WRITES or "-o" in op.get("argv", ())) else None}
        extra = sorted(set(after) - allowed)
        if extra and not unlink_failed:
            out.append(Violation("residue", "%s (%s) left %s behind" % (name, how, ", ".join(extra)), log=osim.brief(log)))
        gone = sorted(set(before) - set(after))
        if gone:
            out.append(Violation("removed", "%s (%s) removed %s" % (name, how, ", ".join(gone)), log=osim.brief(log)))
        if op["op"] == "cli" and "-i" in op["argv"] and kind == "ok" and what == 2 and opmix.IN in after:
            st.add("probe:converted_in_place")
            m0, m1 = before[opmix.IN][2], after[opmix.IN][2]
            if m0 != m1:
                out.append(Violation("mode", "in-place conversion changed the permission bits from %o to %o" % (m0, m1),
                                     log=osim.brief(log)))
        return out


PROP = C03()
