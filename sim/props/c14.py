"""C14: missing or broken optional packages degrade gracefully."""
import importlib.abc, importlib.machinery, os, sys

from .. import core, gen, opmix, ops
from ..core import Violation

PKGS = ["cchardet", "pandas", "tabview", "wilderness"]
BAD = ["missing", "importerror", "nested", "none", "old", "older", "broken"]
VERSIONS = {"old": {"cchardet": "2.1.7", "pandas": "0.24.0", "tabview": "1.3.9", "wilderness": "0.1.4"},
            "older": {"cchardet": "2.1.9", "pandas": "0.9.2", "tabview": "1.3", "wilderness": "0.0.20"},
            "newer": {"cchardet": "10.0", "pandas": "0.100.0", "tabview": "1.10", "wilderness": "0.1.10"},
            # the oldest version the library says it accepts
            "exact": {"cchardet": "2.1.18", "pandas": "0.24.1", "tabview": "1.4", "wilderness": "0.1.5"}}
FINE = ("ok", "nover", "newer", "exact")
STALE = ("old", "older", "broken")
PATH = opmix.IN


class Broken(Exception):
    pass


class Gate(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Decides what importing each optional package does."""

    def __init__(self):
        self.state = {}
        self.saved = {p: {k: v for k, v in sys.modules.items() if k == p or k.startswith(p + ".")} for p in PKGS}
        self.version = {p: getattr(self.saved[p][p], "__version__", None) for p in PKGS}
        self.met = {}
        try:
            from clevercsv._optional import OPTIONAL_DEPENDENCIES
            VERSIONS["exact"].update((d.import_name, d.min_version) for d in OPTIONAL_DEPENDENCIES)
        except Exception:
            pass  # the list is kept some other way

    def set(self, pkg, state):
        self.state[pkg] = state
        for k in [k for k in sys.modules if k == pkg or k.startswith(pkg + ".")]:
            del sys.modules[k]
        m = self.saved[pkg][pkg]
        if state in FINE + ("old", "older"):
            sys.modules.update(self.saved[pkg])
        v = VERSIONS[state][pkg] if state in VERSIONS else None if state == "nover" else self.version[pkg]
        if v is None:
            if hasattr(m, "__version__"):
                del m.__version__
        else:
            m.__version__ = v
        if state == "none":
            sys.modules[pkg] = None

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in PKGS or self.state.get(top, "ok") in FINE + ("old", "older"):
            return None
        self.met[top] = self.met.get(top, 0) + 1
        if self.state[top] == "missing":
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        s = self.state[module.__name__.split(".")[0]]
        if s == "importerror":
            raise ImportError("libsimulated.so.1: cannot open shared object file")
        if s == "nested":
            raise ModuleNotFoundError("No module named 'simulated_dep'", name="simulated_dep")
        raise Broken("simulated failure while importing")


def operate(ctx, op):
    """(outcome, standard output)"""
    path = ctx.path(PATH)
    shown = []
    if op["op"] == "cli" and op["argv"][0] == "view":
        tv = sys.modules.get("tabview")
        if tv is not None:
            tv.view = lambda rows, *a, **k: shown.append(rows)
            inner = sys.modules.get("tabview.tabview")
            if inner is not None:
                inner.view = tv.view
    with ops.Std(ctx) as std:
        if op["op"] == "fresh":
            for k in [k for k in sys.modules if k == "clevercsv" or k.startswith("clevercsv.")]:
                del sys.modules[k]

            def fn():
                import clevercsv
                return sorted(x for x in dir(clevercsv) if not x.startswith("_"))[:4]
        else:
            def fn():
                r = opmix.perform(ctx, op)
                return (r, list(shown)) if shown else r
        r = ops.capture(fn)
        out, err = std.texts()
    return r, out, err


class C14(core.Property):
    id = "C14"
    quick_runs = 900
    thorough_runs = 60000
    preload = opmix.PRELOAD + ("pandas", "tabview", "wilderness", "cchardet", "clevercsv.console.commands.view")
    rule = ("counts distinct (state of every optional package, operation, options, outcome); non-trivial when some package was not available")
    real = ["clevercsv as a whole, chardet, cchardet, pandas, wilderness; Python's import system"]
    stub = ["a finder in front of sys.meta_path decides which packages exist and how importing them fails", "tabview's screen: it records the rows it is given"]
    assumptions = ["an outdated fast detector may be refused or ignored", "packages report their version in __version__"]
    no_shrink = ("state", "pkg")

    def setup(self, ctx):
        import tabview  # noqa: F401

    def gen_op(self, rng, enc):
        k = rng.choice(["encoding", "encoding", "detect", "read_table", "read_dataframe", "read_dataframe", "fresh",
                        "cli_detect", "cli_standardize", "cli_code", "cli_view", "cli_view", "cli_pandas"])
        if k == "fresh":
            return {"op": "fresh"}
        if k == "encoding":
            op = {"op": k, "path": PATH}
            if rng.random() < 0.4:
                op["try_cchardet"] = rng.random() < 0.5
            return op
        if k.startswith("cli_"):
            a = {"cli_detect": ["detect"], "cli_standardize": ["standardize"], "cli_code": ["code"], "cli_view": ["view"], "cli_pandas": ["code", "-p"]}[k]
            a = list(a)
            if rng.random() < 0.4:
                a += ["-e", enc]
            return {"op": "cli", "argv": a + ["@" + PATH]}
        op = {"op": k, "path": PATH}
        if rng.random() < 0.4:
            op["encoding"] = enc
        return op

    def run_seed(self, ctx, rng, st):
        t = gen.text(rng, wide=rng.choice([0, 0.4]))
        enc, data = gen.encoded(rng, t)
        steps = []
        for _ in range(rng.randint(2, 7)):
            if rng.random() < 0.6:
                steps.append({"pkg": rng.choice(PKGS), "state": rng.choice(BAD + BAD + ["ok", "ok", "ok", "nover", "newer", "exact"])})
            steps.append(self.gen_op(rng, enc))
        if rng.random() < 0.3:
            steps = [{"pkg": p, "state": rng.choice(BAD)} for p in PKGS] + steps
        self.case(ctx, {"seed": rng.randrange(1 << 32), "files": {PATH: data.hex()}, "steps": steps}, st)

    def references(self, ctx, sc):
        """Each distinct operation with every package available, and with the slow detector's encoding."""
        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            from clevercsv.encoding import get_encoding
            slow = ops.capture(lambda: get_encoding(ctx.path(PATH), try_cchardet=False))
            ref = {}
            for s in sc["steps"]:
                if "op" not in s or repr(s) in ref:
                    continue
                full = operate(ctx, s)[:2]
                # the same with the encoding the slow detector finds
                alt = full
                if s["op"] == "encoding":
                    alt = (slow, "")
                elif s["op"] == "cli" and "-e" not in s["argv"]:
                    alt = self.slowly(ctx, s)
                elif s["op"] not in ("cli", "fresh") and "encoding" not in s:
                    alt = self.slowly(ctx, s)
                ref[repr(s)] = (full, alt)
            return ref
        o = ctx.run(fn)
        if o.status != "ok":
            raise core.Found(sc, [Violation("died", "with every package available the operations ended with %s" % o.status, stderr=o.stderr[-800:])])
        return o.value

    def slowly(self, ctx, s):
        """The operation when the fast detector does not exist, by the plainest route."""
        g = Gate()
        sys.meta_path.insert(0, g)
        try:
            g.set("cchardet", "missing")
            return operate(ctx, s)[:2]
        finally:
            g.set("cchardet", "ok")
            sys.meta_path.remove(g)

    def check(self, ctx, sc, st):
        for s in sc["steps"]:
            if s.get("op") == "cli" and (len(s["argv"]) < 2 or s["argv"][-1] != "@" + PATH or s["argv"][0] not in ("detect", "standardize", "code", "view")):
                raise core.Invalid("argv")
        opmix.layout(ctx, sc)
        ref = self.references(ctx, sc)
        slow_enc = None
        opmix.layout(ctx, sc)

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            g = Gate()
            sys.meta_path.insert(0, g)
            got = []
            ops.arm(ctx, {})
            for s in sc["steps"]:
                if "pkg" in s:
                    g.set(s["pkg"], s["state"])
                    got.append(None)
                else:
                    got.append(operate(ctx, s))
            ctx.os.arm(False)
            return got, g.met
        o = ctx.run(fn)
        if o.status != "ok":
            return [Violation("died", "the process ended with %s" % o.status, stderr=o.stderr[-800:])]
        got, met = o.value
        for p in met:
            st.add("fault:import_of_" + p, met[p])
        state = {p: "ok" for p in PKGS}
        for s, g in zip(sc["steps"], got):
            if "pkg" in s:
                state[s["pkg"]] = s["state"]
                st.add("probe:%s_%s" % (s["pkg"], s["state"]))
                continue
            r, out, err = g
            full, alt = ref[repr(s)]
            need, use = self.needs(s)
            bad = [p for p in need if state[p] not in FINE]
            fast = state["cchardet"] if use else "ok"
            what = "%s with %s" % (s["op"] if s["op"] != "cli" else "clevercsv " + " ".join(s["argv"][:-1]),
                                   ", ".join("%s %s" % (p, state[p]) for p in PKGS if state[p] != "ok") or "every package available")
            if any(v != "ok" for v in state.values()):
                st.seen("nontrivial", (state, s, r[0], repr(r)[:200]))
            want = full if fast in FINE else alt

            def v(cls, msg):
                return [Violation(cls, "%s: %s" % (what, msg))]
            if not bad and fast in STALE:
                # refused or ignored
                if (r, out) == want or self.refused(r, err, ["cchardet"], [fast]):
                    if not (r[0] == "exc" and out and r != want[0]):
                        continue
                    return v("output", "it failed but had already printed %r" % out[-200:])
                return v("result", "gave %s; expected %s or a refusal" % (short((r, out)), short(want)))
            if not bad:
                if (r, out) != want:
                    return v("result", "gave %s; expected %s" % (short((r, out, err[-200:])), short(want)))
                continue
            # the input may be rejected before the package is looked for
            names, states = list(bad), [state[p] for p in bad]
            if fast in STALE:
                names.append("cchardet")
                states.append(fast)
            if self.failed(want[0]) and (r, out) == want:
                continue
            if not self.failed(r) and self.failed(want[0]):
                return v("silent", "gave %s" % short((r, out)))
            if not self.refused(r, err, names, states):
                return v("silent" if not self.failed(r) else "error", "gave %s %s; expected an ImportError naming %s" % (short(r), short(err[-300:]), " or ".join(bad)))
            if out:
                return v("output", "it failed but had already printed %r" % out[-200:])
            st.add("probe:refused_" + bad[0])
        return []

    def failed(self, r):
        return r[0] != "ok" or (type(r[1]) is int and r[1] != 0)

    def refused(self, r, err, names, states):
        if r[0] == "exc":
            if any(s == "broken" for s in states) and r[1] == "Broken":
                return True
            return "ImportError" in r[2] and any(n in r[3] for n in names)
        # a command that reports the problem itself
        return r[0] in ("ok", "exit") and isinstance(r[1], int) and r[1] not in (0, 2) and any(n in err for n in names)

    def needs(self, s):
        """(packages it cannot do without, whether it detects an encoding with the fast detector)"""
        if s["op"] == "fresh":
            return [], False
        if s["op"] == "encoding":
            return [], s.get("try_cchardet", True)
        if s["op"] == "cli":
            need = ["wilderness"]
            if s["argv"][0] == "view":
                need.append("tabview")
            return need, "-e" not in s["argv"]
        if s["op"] == "read_dataframe":
            return ["pandas"], "encoding" not in s
        return [], "encoding" not in s


def short(x):
    t = repr(x)
    return t if len(t) < 260 else t[:260] + "..."


PROP = C14()
