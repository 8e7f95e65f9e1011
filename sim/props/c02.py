"""C02: standardizing conserves every record and reports honestly."""
from itertools import zip_longest

from .. import core, gen, inplace, model, ops, oracle, osim
from ..core import Violation


class C02(core.Property):
    id = "C02"
    quick_runs = 1600
    thorough_runs = 40000
    preload = inplace.PRELOAD
    rule = ("counts distinct executions by (sequence of operation kinds with the fault each met, exit status, mode, transpose); "
            "non-trivial when the command reported success on a non-empty file or a planned fault fired")
    real = ["clevercsv standardize through the console entry point: detection, reader, writer, C extensions",
            "CPython io, csv, codecs, tempfile, hashlib; kernel file system calls on a scratch directory"]
    stub = ["libc file calls pass through libsimos, which decides errors, short transfers, full disks and interrupts"]
    assumptions = ["the reference parser (sim/model.py) defines how a text reads under a dialect",
                   "the fault-free detected dialect and encoding are taken from the library itself (C04 and C09 judge those)"]

    def run_seed(self, ctx, rng, st):
        sc = inplace.gen_base(rng, modes=("inplace", "inplace", "out", "stdout"))
        sc["kind"] = "standardize"
        self.case(ctx, sc, st)
        prof = inplace.profile(ctx, sc)
        log = prof["log"]
        for _ in range(2):
            s2 = dict(sc)
            s2["faults"], k = inplace.gen_faults(rng, log)
            s2["faults"] = [f for f in s2["faults"] if f["type"] not in ("crash", "crash_after", "torn")]
            if not s2["faults"] and not k:
                f = gen.error_at(rng, log)
                s2["faults"] = [f] if f else []
            s2["knobs"] = {**sc["knobs"], **k}
            if s2["faults"] or k:
                self.case(ctx, s2, st)

    def possible(self, o_, data, det):
        """(text, dialect) when the input can be read and the output written."""
        if det[0] != "ok" or det[1][1] is None:
            return None
        enc, dialect = det[1]
        text = oracle.decode(data, enc or "utf-8")
        if text is None or oracle.rows(text, dialect)[0] != "ok":
            return None
        try:
            text.encode(o_.get("target_encoding") or enc or "utf-8")
        except (UnicodeError, LookupError):
            return None
        return text, dialect

    def check(self, ctx, sc, st):
        o_ = sc["opts"]
        mode = o_.get("mode", "inplace")
        files, links, inos, target = inplace.layout(ctx, sc)
        data = files[target]
        det = oracle.dialect_of_file(ctx, data, o_.get("encoding"), o_.get("num_chars"))
        inplace.layout(ctx, sc)
        o = ctx.run(lambda: inplace.run(ctx, sc))
        log = ctx.os.log()
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        if o.status != "ok":
            return [Violation("died", "standardize ended with %s" % o.status, stderr=o.stderr[-800:])]
        res = o.value["res"]
        success = res[0] == "ok" and (res[1] == 0 or (res[1] == 2 and mode == "inplace"))
        snap = ctx.snapshot()
        now = snap.get(target, (None, None))[1]
        if n or (success and data):
            st.seen("nontrivial", (tuple((x["kind"], x["fault"]) for x in log), res[:2], mode, o_.get("transpose")))
        if not success:
            st.add("probe:reported_failure")
            why = None if any(x["fault"] not in ("none", "short") or x["err"] == 28 for x in log) else self.possible(o_, data, det)
            if why:
                return [Violation("spurious", "the command ended with %r although nothing failed and the input is fine" % (res[:2],),
                                  input=why[0][:300], dialect=repr(why[1]), log=osim.brief(log))]
            return []
        st.add("probe:success_" + mode)

        # nothing that read or wrote data may have failed
        written = set()
        for x in log:
            if x["kind"] in ("write", "copy") and x["ret"] > 0:
                written.add(x["ino"])
            if x["fault"] == "err" and x["kind"] == "close" and x["ino"] in written and x["path"] != "io/stdout":
                return [Violation("false-success", "exit status %r although closing the written file failed: %s"
                                  % (res[1], osim.brief([x])[0].strip()), log=osim.brief(log))]
            if x["fault"] in ("err",) and x["kind"] in ("read", "write", "copy", "fsync") or \
               (x["kind"] == "write" and x["ret"] < 0 and x["err"] == 28):
                return [Violation("false-success", "exit status %r although %s failed" % (res[1], osim.brief([x])[0].strip()),
                                  log=osim.brief(log))]
        if mode == "inplace":
            changed = now != data
            if changed != (res[1] == 2):
                return [Violation("status", "exit status %r but the file %s" % (res[1], "changed" if changed else "did not change"),
                                  before=repr(data)[:300], after=repr(now)[:300])]
            result = now
        elif mode == "out":
            out = o_["output"]
            real = target if out in (inplace.TARGET, inplace.LINKOUT) else out
            result = snap.get(real, (None, None))[1]
            if result is None:
                return [Violation("missing", "exit status 0 but there is no output file", log=osim.brief(log))]
        else:
            result = None
        if mode != "inplace" and not (mode == "out" and real == target) and now != data:
            return [Violation("input-changed", "the input file changed", before=repr(data)[:300], after=repr(now)[:300])]

        # the records
        if det[0] != "ok" or det[1][1] is None:
            return [Violation("no-dialect", "exit status %r although detection gives %r" % (res[1], det[:2]))]
        enc, dialect = det[1]
        text = oracle.decode(data, enc or "utf-8")
        if text is None:
            return [Violation("undecodable", "exit status %r although the input is not valid %s" % (res[1], enc))]
        want = oracle.rows(text, dialect)
        if want[0] != "ok":
            return [Violation("unreadable", "exit status %r although the input cannot be parsed: %s" % (res[1], want[1]))]
        rows = want[1]
        if o_.get("transpose"):
            rows = [list(c) for c in zip_longest(*rows, fillvalue="")]
        if result is None:
            got = o.value["out"]
        else:
            got = oracle.decode(result, o_.get("target_encoding") or enc or "utf-8")
            if got is None:
                return [Violation("bad-output", "the output is not valid %s" % (o_.get("target_encoding") or enc),
                                  output=repr(result)[:300])]
        try:
            back = model.parse_rfc4180(got)
        except ValueError as e:
            return [Violation("not-rfc4180", "the output is not RFC-4180: %s" % e, output=got[:300])]
        if back != rows:
            i = next((i for i, (a, b) in enumerate(zip(back + [None], rows + [None])) if a != b), -1)
            return [Violation("records", "output has %d records, input %d; first difference at record %d: %r instead of %r"
                              % (len(back), len(rows), i, (back + [None])[min(i, len(back))], (rows + [None])[min(i, len(rows))]),
                              dialect=repr(dialect), input=text[:300], output=got[:300])]
        st.add("records_conserved", len(rows))
        return []


PROP = C02()
