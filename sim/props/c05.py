"""C05: writes are complete or fail, and read back unchanged."""
import builtins
import os

from .. import core, gen, model, opmix, ops, oracle, osim
from ..core import Invalid, Violation

STD = {"excel": (",", '"', ""), "excel-tab": ("\t", '"', ""), "unix": (",", '"', "")}


def text_of(v):
    return "" if v is None else (v if isinstance(v, str) else (repr(v) if isinstance(v, float) else str(v)))


class Failing:
    """An iterable of rows that ends with an exception after n of them."""

    def __init__(self, rows, n, exc):
        self.rows, self.n, self.exc = iter(rows), n, exc

    def __iter__(self):
        return self

    def __next__(self):
        if self.n <= 0:
            raise getattr(builtins, self.exc)("simulated")
        self.n -= 1
        try:
            return next(self.rows)
        except StopIteration:
            raise getattr(builtins, self.exc)("simulated") from None


class C05(core.Property):
    id = "C05"
    quick_runs = 1500
    thorough_runs = 80000
    preload = opmix.PRELOAD
    rule = ("counts distinct executions by (operation, dialect, sequence of operation kinds with the fault each met, how it ended); "
            "non-trivial when a non-empty table was written or a planned fault fired")
    real = ["clevercsv.write_table, write_dicts, writer, DictWriter, dialect conversion, reader; csv; CPython text I/O"]
    stub = ["libc file calls pass through libsimos, which decides errors, short transfers, full disks and interrupts"]
    assumptions = ["the file is not written by anyone else"]

    def run_seed(self, ctx, rng, st):
        sc = opmix.gen_op(rng, ["write_table", "write_table", "write_dicts"])
        op = sc["op"]
        if rng.random() < 0.3 and op["op"] == "write_table":
            op["op"] = "write_rows"
            op["how"] = rng.choice(["rows", "each", "gen", "mixed"])
            op["transpose"] = False
        elif rng.random() < 0.4 and op["op"] == "write_dicts" and op["items"]:
            op["op"] = "dict_rows"
            op["how"] = rng.choice(["rows", "each", "gen", "mixed"])
            op["header"] = rng.random() < 0.7
            op["fieldnames"] = list(op["items"][0])
            if rng.random() < 0.4:
                rng.shuffle(op["fieldnames"])
            if rng.random() < 0.3:
                op["fieldnames"].insert(rng.randint(0, len(op["fieldnames"])), "new")
            if rng.random() < 0.5:
                op["restval"] = rng.choice(["?", 0, None, "a,b", ""])
            if rng.random() < 0.5:
                op["extrasaction"] = rng.choice(["raise", "ignore", "IGNORE"])
                if rng.random() < 0.5:
                    rng.choice(op["items"])["extra"] = "x"
        if op["op"] in ("write_rows", "dict_rows"):
            op["opt_form"] = rng.choice(["plain", "class", "params"])
        elif op["op"] == "write_dicts":
            op["via"] = rng.choice(["list", "list", "iter"])
        op["encoding"] = op.get("encoding") or "utf-8"
        if rng.random() < 0.15 and "table" in op:
            # larger than the text and byte buffers
            n = rng.choice([200, 1000, 3000])
            if op["table"] and op["table"][0]:
                op["repeat"] = n // (len(op["table"]) * len(op["table"][0])) + 1
        if op["op"] == "write_table":
            op["via"] = rng.choice(["list", "list", "iter", "tuples"])
        if rng.random() < 0.12 and op.get("how") != "mixed" and op.get("table", op.get("items")):
            # the rows come from somewhere that fails
            op["boom"] = [rng.randint(0, len(op.get("table", op.get("items"))) * op.get("repeat", 1)),
                          rng.choice(["OSError", "ValueError", "KeyError", "TypeError", "KeyboardInterrupt", "UnicodeError", "IndexError"])]
        log, how = opmix.profile(ctx, {**sc, "op": {k: v for k, v in op.items() if k != "boom"}})
        self.case(ctx, sc, st)
        for _ in range(2):
            s2 = dict(sc)
            s2["faults"], k = opmix.gen_faults(rng, log)
            s2["knobs"] = {**sc["knobs"], **k}
            if s2["faults"] or k:
                self.case(ctx, s2, st)

    def table(self, op):
        """Rows of text the operation should write, or None if it must not write."""
        if op["op"] == "write_dicts":
            if not op["items"]:
                return None
            keys = list(op["items"][0])
            if any(set(d) - set(keys) for d in op["items"]):
                return None
            return [keys] + [[text_of(d.get(k)) if k in d else "" for k in keys] for d in op["items"]]
        if op["op"] == "dict_rows":
            names = op["fieldnames"]
            if op.get("extrasaction", "raise").lower() == "raise" and any(set(d) - set(names) for d in op["items"]):
                return None
            rest = text_of(op.get("restval", ""))
            return ([names] if op["header"] else []) + [[text_of(d[k]) if k in d else rest for k in names] for d in op["items"]]
        rows = [[text_of(c) for c in r] for r in op["table"] * op.get("repeat", 1)]
        if op["op"] == "write_rows":
            return rows
        if not rows or len(set(map(len, rows))) > 1:
            return None
        if op.get("transpose"):
            rows = [list(r) for r in zip(*rows)]
        return rows or None

    def perform(self, ctx, sc):
        op = dict(sc["op"])
        if "table" in op:
            op["table"] = op["table"] * op.get("repeat", 1)
            if op.get("via") == "iter":
                op["table"] = iter(op["table"])
            elif op.get("via") == "tuples":
                op["table"] = tuple(tuple(r) for r in op["table"])
        elif op.get("via") == "iter":
            op["items"] = iter(op["items"])
        if "boom" in op:
            k = "table" if "table" in op else "items"
            op[k] = Failing(op[k], *op["boom"])

        def fn():
            os.chdir(ctx.path("fs0/d"))
            with ops.Std(ctx):
                ops.arm(ctx, sc)
                r = ops.capture(lambda: opmix.perform(ctx, op))
                ctx.os.arm(False)
            return r
        return ctx.run(fn)

    def check(self, ctx, sc, st):
        op = sc["op"]
        if op.get("path") != opmix.OUT:
            raise Invalid("path")
        rows = self.table(op)
        old = bytes.fromhex(sc["files"][opmix.OUT]) if opmix.OUT in sc["files"] else None
        if "boom" in op and (op.get("how") == "mixed" or op["boom"][1] not in dir(builtins)):
            raise Invalid("boom")
        faulty = bool(sc["faults"] or sc["knobs"] or "boom" in op)
        ref = None
        if faulty:
            opmix.layout(ctx, sc)
            r = self.perform(ctx, {**sc, "faults": [], "knobs": {}, "op": {k: v for k, v in op.items() if k != "boom"}})
            if r.status != "ok":
                return [Violation("died", "the write ended with %s" % r.status, stderr=r.stderr[-800:])]
            if r.value[0] == "ok":
                ref = ctx.snapshot().get(opmix.OUT, (0, None))[1]
        opmix.layout(ctx, sc)
        o = self.perform(ctx, sc)
        log = ctx.os.log(data=False)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        if o.status != "ok":
            return [Violation("died", "the write ended with %s" % o.status, stderr=o.stderr[-800:])]
        res = o.value
        now = ctx.snapshot().get(opmix.OUT, (0, None))[1]
        name = "%s(dialect=%r)" % (op["op"], op["dialect"])
        if rows or n:
            st.seen("nontrivial", (name, res[0], res[1] if res[0] == "exc" else "",
                                   tuple((x["kind"], x["fault"]) for x in log)))
        info = {"log": osim.brief(log, 40)}
        if rows is None:
            st.add("probe:rejected_table")
            touched = now != old
            # dictionaries are checked while they are written, so only empty lists are rejected up front
            if touched and not op.get("items"):
                return [Violation("touched", "%s of a table that is rejected or empty changed the file from %r to %r (%s)"
                                  % (name, old, now and now[:100], res[:2]), **info)]
            if res[0] == "ok" and op.get("items"):
                return [Violation("accepted", "%s accepted dictionaries with unknown keys" % name, **info)]
            if res[0] == "ok" and op["op"] == "write_table" and op["table"] and len(set(map(len, op["table"]))) > 1:
                return [Violation("accepted", "%s accepted rows of different lengths" % name, **info)]
            return []
        if "boom" in op:
            st.add("fault:row_source_raises_" + op["boom"][1])
            if res[0] == "ok":
                return [Violation("swallowed", "%s returned normally although the source of the rows raised %s after %d rows"
                                  % (name, op["boom"][1], op["boom"][0]), **info)]
        if res[0] != "ok":
            st.add("probe:failed")
            if ref is not None and now is not None and now != old and not ref.startswith(now):
                return [Violation("not-prefix", "%s failed with %s and left %r, not a prefix of the full output %r"
                                  % (name, res[1], now[:200], ref[:200]), **info)]
            return []
        st.add("probe:complete")
        for x in log:
            if x["fault"] == "err" and x["kind"] in ("write", "close", "copy") or (x["kind"] == "write" and x["ret"] < 0 and x["err"] == 28):
                return [Violation("swallowed", "%s returned normally although %s" % (name, osim.brief([x])[0].strip()), **info)]
        if now is None:
            return [Violation("missing", "%s returned normally but there is no file" % name, **info)]
        text = oracle.decode(now, op["encoding"])
        d = op["dialect"]
        q = STD[d] if isinstance(d, str) else tuple(d[1:4])
        got = ("error", "undecodable") if text is None else oracle.rows(text, (*q, False))
        if got != ("ok", rows):
            return [Violation("readback", "%s wrote %r, which reads back as %s instead of %s"
                              % (name, now[:200], short(got[1]), short(rows)), **info)]
        # and the library's own reader agrees
        if not faulty:
            def back():
                from clevercsv import wrappers
                return ops.capture(lambda: wrappers.read_table(ctx.path(opmix.OUT), dialect=ops.dialect(["simple", *q, 0]),
                                                               encoding=op["encoding"]))
            b = ctx.run(back)
            if b.status != "ok" or b.value != ("ok", rows):
                return [Violation("readback", "%s wrote %r, which read_table reads back as %s instead of %s"
                                  % (name, now[:200], short(b.value or b.status), short(rows)), **info)]
        return []


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


PROP = C05()
