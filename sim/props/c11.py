"""C11: native code stays memory-safe with misbehaving sources."""
import ctypes
import gc
import sys

from .. import core, gen, model
from ..core import Invalid, Violation

CHUNKS = ["a", "b,c", "1", "", ",", ";", '"', "'", "\\", "\n", "\r\n", "\r", '""', '","', "é", "日本", "😀", "\ud800", "\0", "x" * 40, "\\\"", "\\\n", "|", " "]
EXCS = ["boom", "stop", "value", "unicode", "genexit", "kbd", "sysexit", "memory", "attr", "badstr"]
DEAD = ("SystemError",)


class Boom(Exception):
    pass


class BadStr(Exception):
    def __init__(self):
        pass

    def __str__(self):
        raise Boom("no text")

    __repr__ = __str__


class Sub(str):
    """A string subclass with opinions."""

    def __len__(self):
        return 1 << 40

    def __getitem__(self, i):
        raise Boom("indexed")

    def __eq__(self, other):
        raise Boom("compared")

    def __hash__(self):
        raise Boom("hashed")

    def __iter__(self):
        raise Boom("iterated")


class Dying(str):
    """A string that does something when it is freed."""
    end = None

    def __del__(self):
        if self.end:
            self.end()


class NoBool:
    def __bool__(self):
        raise Boom("no truth value")


class Idx:
    def __index__(self):
        return 3

    __int__ = __index__


def make_exc(n):
    return {"boom": Boom, "stop": StopIteration, "value": ValueError, "genexit": GeneratorExit, "kbd": KeyboardInterrupt,
            "sysexit": SystemExit, "memory": MemoryError, "attr": AttributeError, "badstr": BadStr,
            "unicode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "x")}[n]()


VALUES = {"none": lambda: None, "empty": lambda: "", "two": lambda: "ab", "int": lambda: 5, "big": lambda: 1 << 70, "neg": lambda: -1,
          "zero": lambda: 0, "bytes": lambda: b",", "sub": lambda: Sub(";"), "wide": lambda: "😀", "nobool": NoBool, "idx": Idx,
          "true": lambda: True, "false": lambda: False, "float": lambda: 1.5, "list": lambda: [], "comma": lambda: ",", "quote": lambda: '"',
          "nul": lambda: "\0", "sur": lambda: "\udfff", "max": lambda: 2**63 - 1, "min": lambda: -2**63, "three": lambda: 3,
          "newline": lambda: "\n", "bigtext": lambda: "x" * 70000, "class": lambda: Sub, "subempty": lambda: Sub(""), "subpattern": lambda: Sub("CDQCQQRQ"),
          "subline": lambda: Sub('a,"b"\n')}


class World:
    """One execution of a scenario."""

    def __init__(self, sc, P, cabs):
        self.sc, self.P, self.cabs = sc, P, cabs
        self.parsers = []
        self.pulls = self.chars = 0
        self.depth = 0
        self.log = []
        self.fired = {}
        self.sources = []

    def item(self, src, i):
        items = self.sc["items"]
        if i >= len(items):
            raise StopIteration
        x = items[i]
        if isinstance(x, str):
            return x
        k = x[0]
        self.fired[k] = self.fired.get(k, 0) + 1
        if k == "long":
            self.chars += len(x[2]) * x[1]
            return x[2] * x[1] + x[3]
        if k == "sub":
            return Sub(x[1])
        if k == "dying":
            if len(x) != 3:
                raise Invalid("dying")
            s, act = Dying(x[1]), x[2]
            s.end = lambda: self.last(act)
            return s
        if k == "bytes":
            return b"a,b\n"
        if k == "value":
            return VALUES[x[1]]()
        if k == "raise":
            raise make_exc(x[1])
        # side effects while the parser is pulling, then a line
        if self.depth < 3:
            self.depth += 1
            try:
                self.act(x, src)
            finally:
                self.depth -= 1
        return x[-1]

    def act(self, x, src):
        k = x[0]
        if k == "gc":
            gc.collect()
        elif k == "reenter":
            self.guard(lambda: [next(p) for p in list(self.parsers)])
        elif k == "relist":
            self.guard(lambda: [list(p) for p in list(self.parsers)])
        elif k == "other":
            p = self.P(self.fresh(x[1]), delimiter=",", quotechar='"')
            self.guard(lambda: next(p))
        elif k == "same":
            p = self.P(src, delimiter=";")
            self.guard(lambda: next(p))
        elif k == "drop":
            self.parsers.clear()
            gc.collect()
        elif k == "mutate":
            type(src).__next__ = lambda s: "m,n\n" if self.tick() else None
        elif k == "unmake":
            try:
                del type(src).__next__
            except AttributeError:
                pass
        elif k == "reclass":
            src.__class__ = Other
        elif k == "abst":
            self.guard(lambda: self.cabs.base_abstraction("a,b\n", ",", '"', ""))
        else:
            raise Invalid(k)

    def tick(self):
        self.pulls += 1
        if self.pulls > 400 or self.chars > 60000:      # sources that revive must end some day
            raise StopIteration
        return True

    def guard(self, fn):
        try:
            self.log.append(check(fn()))
        except BaseException as e:
            self.log.append(name(e))

    def borrow(self, fn, args):
        """Call a function; it may neither lose nor keep references to its arguments."""
        args = [VALUES[v]() if v in VALUES else "".join(v) for v in args]
        spare = [list(args) for _ in range(8)]
        before = [sys.getrefcount(a) for a in args]
        n = len(self.log)
        self.guard(lambda: fn(*args))
        after = [sys.getrefcount(a) for a in args]
        for a, b, c in zip(args, before, after):
            # a lost reference: give it back before it frees the object under our feet, and report
            if c < b and isinstance(a, str):
                for _ in range(b - c):
                    ctypes.pythonapi.Py_IncRef(ctypes.py_object(a))
                self.log[n:] = [("Ugly", "%s lost a reference to its argument" % fn.__name__)]
        del spare

    def fresh(self, kind):
        w = self
        items = self.sc["items"]
        if kind == "list":
            return [x for x in items if isinstance(x, str)]
        if kind == "gen":
            def g():
                for i in range(len(items)):
                    w.tick()
                    try:
                        yield w.item(None, i)
                    except StopIteration:
                        return
            return g()
        if kind == "getitem":
            class Seq:
                def __getitem__(s, i):
                    w.tick()
                    try:
                        return w.item(s, i)
                    except StopIteration:
                        raise IndexError
            return Seq()
        if kind == "noniter":
            return 5
        if kind == "baditer":
            class B:
                def __iter__(s):
                    return 5
            return B()
        if kind == "raiseiter":
            class R:
                def __iter__(s):
                    raise Boom("iter")
            return R()

        class Src:
            def __init__(s):
                s.i = 0
                s.w = w

            def __iter__(s):
                return s

            def __length_hint__(s):
                return -7

            def __next__(s):
                w.tick()
                i = s.i
                if i >= len(items) and kind == "revive" and w.pulls % 3 == 0:
                    s.i = i = 0
                s.i += 1
                return w.item(s, i)

        class Fin(Src):
            def __del__(s):
                w.last(sc["fin"])
        sc = self.sc
        return Fin() if sc.get("fin") else Src()

    def last(self, act):
        """What an object does when it dies."""
        if self.depth < 2:
            self.depth += 1
            try:
                if act in ("next", "both"):
                    for p in list(self.parsers):
                        next(p)
                if act in ("gc", "both"):
                    gc.collect()
            except BaseException:       # left alone, the interpreter would print it
                pass
            finally:
                self.depth -= 1

    def go(self):
        sc = self.sc
        kw = {}
        for k, v in sc["kw"].items():
            kw[k] = VALUES[v]() if v in VALUES else v
        for s in sc["steps"]:
            k = s[0]
            if k == "new":
                def make():
                    src = self.fresh(s[1]) if s[2] or not self.sources else self.sources[-1]
                    self.sources.append(src)
                    self.parsers.append(self.P(src, **kw))
                    return "made"
                self.guard(make)
            elif k == "args":
                self.guard(lambda: self.P(*[VALUES[v]() for v in s[1]], **kw))
            elif k == "base":
                self.borrow(self.cabs.base_abstraction, s[1])
            elif k == "merge":
                self.borrow(self.cabs.c_merge_with_quotechar, s[1])
            elif k == "gc":
                gc.collect()
            elif k == "forget":
                self.sources.clear()
            elif not self.parsers:
                continue
            elif k == "next":
                p = self.parsers[s[1] % len(self.parsers)]
                for _ in range(s[2]):
                    self.guard(lambda: next(p))
                del p
            elif k == "list":
                self.guard(lambda: list(self.parsers[s[1] % len(self.parsers)]))
            elif k == "pop":
                self.parsers.pop()
            elif k == "cycle":
                self.guard(lambda: setattr(self.sources[-1], "keep", self.parsers[-1]))
            elif k == "attr":
                self.guard(lambda: self.parsers[-1].doublequote)
            elif k == "close":
                self.guard(lambda: self.sources[-1].close())
            else:
                raise Invalid(k)
        # the parser still works for everyone else
        rows = list(self.P(['a,"b,c"\n', "d"], delimiter=",", quotechar='"'))
        self.log.append(rows)
        out = self.log
        self.parsers.clear()
        self.sources.clear()
        return out


class Other:
    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


def name(e):
    try:
        return (type(e).__name__, str(e)[:80])
    except BaseException:
        return (type(e).__name__, "?")


class Ugly(Exception):
    pass


def check(x):
    """What native code handed out must be made of proper, readable objects."""
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, str):
        s = str.__str__(x)
        # canonical: equal to an independently built copy
        c = "".join(map(chr, map(ord, str.__iter__(x))))
        if str.__len__(s) != len(c) or not str.__eq__(s, c) or str.__hash__(s) != hash(c):
            raise Ugly("malformed string %r" % c)
        return c if len(c) < 200 else (len(c), hash(c))
    if isinstance(x, (list, tuple)):
        return [check(y) for y in x]
    return type(x).__name__


class C11(core.BatchProperty):
    id = "C11"
    quick_runs = 800
    thorough_runs = 100000
    variant = "asan"
    batch = 12
    preload = ("clevercsv.cparser", "clevercsv.cabstraction")
    rule = ("counts distinct (parser arguments, behaviours of the source, call history, sequence of outcomes); non-trivial when the source "
            "misbehaved or an error was reported")
    real = ["clevercsv.cparser, clevercsv.cabstraction compiled with address and undefined-behaviour sanitizers"]
    stub = ["the line source: a simulated producer that fails, returns anything, re-enters, revives or rewrites itself"]
    assumptions = ["CPython itself is memory-safe"]

    def setup(self, ctx):
        ctx.os.lib.sim_alloc_install()

    def line(self, rng):
        t = "".join(rng.choice(CHUNKS) for _ in range(rng.randint(0, 5)))
        return t + rng.choice(["", "\n", "\n", "\r\n"])

    def gen(self, ctx, rng):
        items = []
        for _ in range(rng.randint(0, 7)):
            r = rng.random()
            if r < 0.5:
                items.append(self.line(rng))
            elif r < 0.58:
                items.append(["long", rng.choice([1, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 131071, 131072, 131073]),
                              rng.choice(["x", "é", "日", "😀", '"', "\\", "\\x", '""', ",", "a,"]), rng.choice(["", "\n", '"', ",b\n"])])
            elif r < 0.62:
                items.append(["sub", self.line(rng)])
            elif r < 0.64:
                items.append(["dying", self.line(rng), rng.choice(["gc", "next", "both"])])
            elif r < 0.66:
                items.append(["bytes"])
            elif r < 0.71:
                items.append(["value", rng.choice(sorted(VALUES))])
            elif r < 0.81:
                items.append(["raise", rng.choice(EXCS)])
            else:
                k = rng.choice(["gc", "reenter", "reenter", "relist", "other", "same", "drop", "mutate", "unmake", "reclass", "abst"])
                items.append([k] + ([rng.choice(["list", "gen", "getitem", "src", "noniter", "raiseiter"])] if k == "other" else []) + [self.line(rng)])
        kw = {}
        d = gen.dialect(rng)
        for k, v in zip(("delimiter", "quotechar", "escapechar"), d):
            if rng.random() < 0.85:
                kw[k] = v
        if rng.random() < 0.4:
            kw["return_quoted"] = rng.choice(["true", "false"])
        if rng.random() < 0.3:
            kw["strict"] = rng.choice(["true", "false"])
        if rng.random() < 0.15:
            kw["field_limit"] = rng.choice(["max", "three", "zero", "neg", "min", "big"])
        if rng.random() < 0.15:
            kw[rng.choice(["delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted", "nonsense", "csvfile"])] = rng.choice(sorted(VALUES))
        steps = []
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(["new", "new", "next", "next", "next", "list", "args", "base", "merge", "gc", "forget", "pop", "attr", "close", "cycle"])
            if k == "new" or not steps:
                steps.append(["new", rng.choice(["src", "src", "src", "revive", "gen", "list", "getitem", "noniter", "baditer", "raiseiter"]), int(rng.random() < 0.7)])
            elif k == "next":
                steps.append([k, rng.randint(0, 2), rng.randint(1, 5)])
            elif k == "list":
                steps.append([k, rng.randint(0, 2)])
            elif k == "args":
                steps.append([k, [rng.choice(sorted(VALUES)) for _ in range(rng.randint(0, 3))]])
            elif k == "base":
                n = rng.choice([4, 4, 4, 4, 4, 3, 5, 0])
                first = "".join(rng.choice(CHUNKS) for _ in range(rng.randint(0, 30)))
                if rng.random() < 0.2:
                    first = rng.choice([",", "a,", '"', 'a"', "\\,", "é,", "\\\\"]) * rng.choice([2047, 2048, 2049, 4095, 4096, 4097, 9000])
                if rng.random() < 0.2:
                    first = rng.choice(sorted(VALUES))
                a = [first] + [rng.choice([",", '"', "", "\\", "é", "😀"]) if rng.random() < 0.8 else rng.choice(sorted(VALUES)) for _ in range(4)]
                steps.append([k, a[:n]])
            elif k == "merge":
                n = rng.choice([1, 1, 1, 1, 0, 2])
                first = "".join(rng.choice(rng.choice(["CDQR", "CQ", "Q"])) for _ in range(rng.choice([0, 1, 2, 3, 8, 20, 60, 200])))
                if rng.random() < 0.2:
                    first = "".join(rng.choice(CHUNKS + ["Q", "CQ"]) for _ in range(rng.randint(0, 20)))
                if rng.random() < 0.15:
                    first = rng.choice(sorted(VALUES))
                steps.append([k, [first, "Q"][:n]])
            else:
                steps.append([k])
        sc = {"items": items, "kw": kw, "steps": steps}
        if rng.random() < 0.1:
            sc["fin"] = rng.choice(["gc", "gc", "next", "both"])
        return sc

    def one(self, ctx, item, st):
        from clevercsv import cabstraction, cparser
        lib = ctx.os.lib
        lib.sim_note(st.n.get("evaluations", 0))

        def once():
            w = World(item, cparser.Parser, cabstraction)
            r = w.go()
            return r, w.pulls, w.fired
        gc.disable()
        gc.collect()
        gc.freeze()
        first, pulls, fired = once()
        for x in first:
            if isinstance(x, tuple) and x and x[0] in ("SystemError", "Ugly"):
                return [Violation("native-contract", "a native function broke its contract: %s: %s" % x)]
        if first[-1] != [["a", "b,c"], ["d"]]:
            return [Violation("broken", "afterwards a fresh parser returned %r" % (first[-1],))]
        again = once()[0]
        if again != first:
            return [Violation("unstable", "the same calls gave %s and then %s" % (brief(first), brief(again)))]
        for x in first:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                st.add("probe:raised_" + x[0])
        for k in fired:
            st.add("fault:source_" + k, fired[k])
        st.add("pulls", pulls)
        if fired or any(isinstance(x, tuple) for x in first):
            st.seen("nontrivial", (item["kw"], item["steps"], [x[0] if isinstance(x, list) else "s" for x in item["items"]], repr(first)[:500]))
        del first, again
        # leaks
        worst = None
        for warm in (1, 60):
            for _ in range(warm):
                once()
            gc.collect()
            b0, l0 = lib.sim_alloc_pylive(), lib.sim_alloc_live()
            for _ in range(6):
                once()
            gc.collect()
            b1, l1 = lib.sim_alloc_pylive(), lib.sim_alloc_live()
            worst = (b1 - b0, l1 - l0)
            if worst[0] < 5 and worst[1] < 5:
                worst = None
                break
        gc.unfreeze()
        if worst:
            return [Violation("leak", "6 repetitions left %d objects and %d native blocks allocated" % worst)]
        return []

    def check(self, ctx, sc, st):
        v = super().check(ctx, sc, st)
        for x in v:
            if x.cls == "died" and "item" not in x.detail:
                x.detail["item"] = min(max(0, ctx.os.lib.sim_noted() - 1), len(sc["batch"]) - 1)
        return v


def brief(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


PROP = C11()
