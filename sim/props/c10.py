"""C10: running out of memory in native code is a clean error."""
import gc
import operator

from .. import core, gen, model
from ..core import Invalid, Violation

FOREVER = 150       # failures in a row; more than any of the calls survives
REPEAT = 6


def attempt(kind, w, mods):
    """The call under test, as a thunk that is armed only around native code."""
    cparser, cabs, read = mods
    if kind == "parse":
        lines, P, (d, q, e), strict, rq = w["lines"], cparser.Parser, w["args"], w["strict"], w["quoted"]

        # keywords written out: merging **kw leaks in CPython when memory runs out
        def go(lines=lines):
            return list(P(lines, delimiter=d, quotechar=q, escapechar=e, strict=strict, return_quoted=rq))
    elif kind == "stepwise":
        lines, P, (d, q, e), strict, rq = w["lines"], cparser.Parser, w["args"], w["strict"], w["quoted"]

        def go(lines=lines):
            p = P(lines, delimiter=d, quotechar=q, escapechar=e, strict=strict, return_quoted=rq)
            out = given
            for row in p:
                out.append(row)
            return out
        given = go.given = []       # what the caller has when memory runs out
    elif kind == "again":
        lines, P, (d, q, e), strict, rq = w["lines"], cparser.Parser, w["args"], w["strict"], w["quoted"]
        room = [None] * (len(lines) + 2)

        def go(lines=lines):
            # the caller goes on with the same parser
            out = room.copy()
            p = P(lines, delimiter=d, quotechar=q, escapechar=e, strict=strict, return_quoted=rq)
            n = errs = 0
            while True:
                try:
                    row = next(p, None)
                except MemoryError:
                    errs += 1
                    if errs > 8:
                        raise
                    continue
                if row is None:
                    return errs, n, out
                out[n] = row
                n += 1
    elif kind == "reader":
        lines, d = w["lines"], w["dialect"]

        def go(it):
            out = given
            for row in it:
                out.append(row)
            return out
        given = go.given = []
        # only the reading: CPython does not survive every failure while objects written in Python are set up
        go.prepare = lambda: iter(read.reader(lines, d))
    elif kind == "base":
        text, args = w["text"], w["args"]

        def go():
            return cabs.base_abstraction(text, *args)
    elif kind == "merge":
        text = w["text"]

        def go():
            return cabs.c_merge_with_quotechar(text)
    else:
        raise Invalid(kind)
    if w["fresh"] and kind in ("parse", "stepwise", "again"):
        # a source (in native code) that makes every line when it is asked for it
        heads, tails = [x[:1] for x in w["lines"]], [x[1:] for x in w["lines"]]
        go.prepare = lambda: map(operator.concat, heads, tails)
    return go


class C10(core.Property):
    id = "C10"
    quick_runs = 4000
    thorough_runs = 60000
    variant = "asan"
    preload = ("clevercsv.read", "clevercsv.cparser", "clevercsv.cabstraction", "clevercsv.detect_pattern", "clevercsv.dialect")
    rule = ("counts distinct (native function, options, allocation that failed, once or for good, outcome); "
            "non-trivial when an allocation failed")
    real = ["clevercsv.cparser, clevercsv.cabstraction, clevercsv.reader; CPython's object allocator"]
    stub = ["the allocator hooks of CPython and the malloc, calloc, realloc and free of the extensions pass through the simulator"]
    assumptions = ["CPython itself handles failed allocations"]

    def setup(self, ctx):
        ctx.os.lib.sim_alloc_install()

    def gen_text(self, rng):
        r = rng.random()
        if r < 0.75:
            t = gen.text(rng, max_rows=6)
            return t[:300]
        if r < 0.85:
            # one long field, so that the field buffer grows
            n = rng.choice([4095, 4096, 4097, 8193, 20000])
            return rng.choice(["", "a,", '"']) + rng.choice(["x", "é", "😀"]) * n + rng.choice(["", '"', ",b", "\n"])
        q = rng.choice(['"', "'"])
        return ",".join(q + "ab"[:rng.randint(0, 2)] + q for _ in range(rng.choice([3, 4, 5, 8, 9, 17, 40]))) + "\n"

    def run_seed(self, ctx, rng, st):
        kind = rng.choice(["parse", "parse", "stepwise", "again", "reader", "base", "merge"])
        sc = {"kind": kind, "text": self.gen_text(rng), "dialect": list(gen.dialect(rng)),
              "quoted": rng.random() < 0.5, "strict": rng.random() < 0.15, "opt_fail_n": rng.choice([1, 1, 1, 2, FOREVER])}
        if kind == "merge":
            if rng.random() < 0.7:
                sc["text"] = "".join(rng.choice("QQQCDRC") for _ in range(rng.choice([0, 3, 9, 40, 120])))
            else:
                sc["text"] = "CQ" * rng.choice([4, 8, 9, 16, 33])
        if kind == "again" and rng.random() < 0.4:
            n = rng.choice([4097, 8193, 9000, 20000])
            sc["text"] = "".join(rng.choice(["a,b\n", "c\n", "x" * n + "\n", "y" * n + ",1\n", "é" * (n // 2) + "\n"]) for _ in range(rng.randint(2, 4)))
        if kind == "base" and rng.random() < 0.4:
            sc["text"] = rng.choice(["a,", "ab\n", ",", 'x"']) * rng.choice([2047, 2048, 2049, 4096, 4100, 9000])
        if kind in ("parse", "stepwise", "again", "reader") and rng.random() < 0.12:
            # the text ends inside a quoted field
            if not sc["dialect"][1]:
                sc["dialect"][1] = '"'
            sc["text"] = sc["text"][:rng.choice([0, 0, 20, 300])] + "\n" + sc["dialect"][1] + rng.choice(["ab", "ab\ncd", "\u65e5\u672c", "a,b;c\td|e"]) * rng.choice([1, 3]) + rng.choice(["", "\n"])
            sc["strict"] = False
        elif kind in ("parse", "stepwise", "again", "reader") and rng.random() < 0.3:
            # the buffer is made, or grows, at a character that means something
            sc["dialect"] = [",", '"', "\\"]
            unit = rng.choice(["\\a", "\\\\", '\\"', "\\,", "\\\n", "\\\r\n", 'a"', '""', '"a', "\n", "a\\"])
            sc["text"] = rng.choice(["", '"', '"', "\\", "a,", '"",', '\\"']) + "x" * rng.choice([0, 0, 1, 2, *range(4088, 4097), 8190]) + unit * rng.randint(1, 5) + rng.choice(["", "b", '"\n', '"x,y\n', ",c\nd"])
            sc["strict"] = rng.random() < 0.1
        if rng.random() < 0.5:
            sc["opt_cold"] = True
        if rng.random() < 0.5:
            sc["opt_fresh"] = True
        if rng.random() < 0.2:
            sc["opt_bare"] = True       # lines without their terminators
        sc["pick"] = rng.randrange(1 << 16)
        self.case(ctx, sc, st)

    def plan(self, sc):
        import clevercsv.cabstraction as a
        import clevercsv.cparser as c
        import clevercsv.read as r
        from clevercsv.dialect import SimpleDialect
        d = sc["dialect"]
        w = {"text": sc["text"], "args": d, "lines": [x.rstrip("\r\n") if sc.get("opt_bare") else x for x in model.lines_of(sc["text"])],
             "fresh": sc.get("opt_fresh", False), "strict": sc["strict"], "quoted": sc["quoted"],
             "dialect": SimpleDialect(d[0], d[1], d[2], strict=sc["strict"])}
        return attempt(sc["kind"], w, (c, a, r))

    def check(self, ctx, sc, st):
        lib = ctx.os.lib
        n = sc.get("opt_fail_n", 1)
        ctx.os.reset(0)
        only = sc.get("opt_at")
        cold, collect = sc.get("opt_cold", False), gc.collect
        arm, disarm = lib.sim_alloc_arm, lib.sim_alloc_disarm

        def once(go, at):
            """(outcome, value, allocations seen, allocations failed)"""
            val = err = None
            pre = getattr(go, "prepare", None)
            args = (pre(),) if pre else ()
            given = getattr(go, "given", None)
            if cold and sc["kind"] != "reader":
                collect()           # empties CPython's free lists, so that more allocations happen
            try:
                if given is not None:
                    given.clear()
                arm(at, n)
                val = go(*args)
                how = "ok"
            except MemoryError:
                how = "MemoryError"
            except BaseException as e:
                how = "raised"
                err = e
            while True:
                try:
                    c = disarm()
                    break
                except MemoryError:
                    pass
            if err is not None:
                how, val = type(err).__name__, str(err)
                err = None          # no cycle through the traceback
            if given is not None:
                val = (val, list(given)) if how != "ok" else list(given)
            return how, val, c, lib.sim_alloc_failed()

        def fn():
            go = self.plan(sc)
            gc.disable()
            gc.freeze()
            collect()               # the same free lists and specialised code whatever ran before
            for _ in range(20):
                base = once(go, -1)
            stepped = sc["kind"] in ("stepwise", "reader")

            def given(r):
                return () if not stepped else r[1] if r[0] == "ok" else r[1][1]
            total = base[2]
            flat = sc["kind"] == "again" and all(c not in sc["text"] for c in sc["dialect"][1] + sc["dialect"][2])
            if only is not None:
                ats = [only]
            elif total <= 60:
                ats = list(range(total))
            else:
                ats = list(range(12)) + sorted({(sc["pick"] * (i + 1) * 40503) % total for i in range(40)}) + list(range(total - 8, total))
            seen = []
            lib.sim_note(0)
            for at in ats:
                lib.sim_note(at)
                r = once(go, at)
                seen.append((at, r[0], r[3]))
                if given(r) != given(base)[:len(given(r))]:
                    return total, seen, ("partial", at, "records %s were handed out before %s; without the failure %s" % (short(given(r)), r[0], short(given(base))))
                msg = r[1][0] if stepped and r[0] != "ok" else r[1]
                if r[3]:
                    if r[0] == "ok" and sc["kind"] == "again":
                        if base[0] == "ok" and not fits(r[1], base[1], flat):
                            return total, seen, ("wrong", at, "going on afterwards gave %s; without the failure %s" % (short(r[1]), short(base[1])))
                    elif sc["kind"] == "again" and r[0] == "Error" and not flat:
                        pass            # what is left of a record that was cut
                    elif r[0] == "ok":
                        if r[1] != base[1] or base[0] != "ok":
                            return total, seen, ("wrong", at, "returned %s; without the failure it %s" % (short(r[1]), short(base[:2])))
                    elif r[0] == "SystemError" and (msg.startswith("<function ") or msg == "error return without exception set"):
                        # CPython 3.12 itself: a failed frame allocation loses the exception
                        # (native functions that return NULL without one are named in the message)
                        pass
                    elif r[0] != "MemoryError" and (r[0], r[1]) != base[:2]:
                        return total, seen, ("not-memoryerror", at, "raised %s(%s)" % (r[0], short(msg)))
                r = once(go, -1)
                if r[:2] != base[:2]:
                    return total, seen, ("retry", at, "a fresh attempt afterwards gave %s instead of %s" % (short(r[:2]), short(base[:2])))
                # leaks: the same failure several times over
                del r
                leak = None
                for warm in (1, 2500):      # the second time with CPython's free lists full
                    for _ in range(warm):
                        once(go, at)
                    b0, l0 = lib.sim_alloc_pylive(), lib.sim_alloc_live()
                    for _ in range(REPEAT):
                        once(go, at)
                    b1, l1 = lib.sim_alloc_pylive(), lib.sim_alloc_live()
                    if b1 - b0 < REPEAT - 2 and l1 - l0 < REPEAT - 2:
                        leak = None
                        break
                    leak = (b1 - b0, l1 - l0)
                if leak:
                    return total, seen, ("leak", at, "%d attempts left %d objects and %d native blocks allocated" % (REPEAT, *leak))
            return total, seen, None
        o = ctx.run(fn)
        name = "%s%s" % (sc["kind"], " with return_quoted" if sc["quoted"] and sc["kind"] in ("parse", "stepwise", "again") else "")
        if o.status != "ok":
            return [Violation("died", "%s: the process ended with %s when allocation %d failed" % (name, o.status, lib.sim_noted()),
                              stderr=o.stderr[-1500:])]
        total, seen, bad = o.value
        st.add("evaluations", max(0, len(seen) - 1))
        for at, how, failed in seen:
            if failed:
                st.add("fault:allocation" if n == 1 else "fault:allocation_repeated", failed)
                st.add("probe:ended_" + how)
                st.seen("nontrivial", (name, at, n, how, total, sc["dialect"], sc["strict"]))
        if bad:
            return [Violation(bad[0], "%s of %s, allocation %d of %d failed%s: %s" % (
                name, short(sc["text"]), bad[1], total, "" if n == 1 else " (and %d more)" % (n - 1) if n < FOREVER else " (and all later ones)", bad[2]))]
        return []


def fits(got, base, flat):
    """Whether records are missing only where memory ran out."""
    errs, n, rows = got
    rows, want = rows[:n], base[2][:base[1]]
    if not errs:
        return rows == want
    if not flat:
        return True         # a record of several lines was cut
    it = iter(want)
    return n >= len(want) - errs and all(any(r == x for x in it) for r in rows)


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


PROP = C10()
