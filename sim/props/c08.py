"""C08: calls leave process-wide and caller-owned state as they found it."""
import builtins, csv, decimal, gc, io, locale, logging, os, random, resource, signal, sys, tempfile, threading, warnings

from .. import core, gen, model, opmix, ops, osim
from ..core import Invalid, Violation

FILE_KINDS = opmix.READS + opmix.WRITES + opmix.CLI
MEM_KINDS = ["reader", "reader", "DictReader", "writer", "writer", "DictWriter", "detect", "detect", "sniff", "has_header", "limit", "app"]
REGISTERED = "sim-user-dialect"


class Boom(Exception):
    pass


# ------------------------------------------------------------------ snapshots

def attrs(d):
    keys = ("delimiter", "quotechar", "escapechar", "doublequote", "skipinitialspace", "lineterminator", "quoting", "strict")
    return tuple((k, getattr(d, k)) for k in keys if hasattr(d, k))


def stream_state(s):
    def val(k):
        try:
            return getattr(s, k)
        except Exception as e:
            return type(e).__name__
    return (type(s).__name__,) + tuple((k, val(k)) for k in ("closed", "encoding", "errors", "line_buffering", "write_through"))


def umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask:"):
                return line.split()[1]
    return None


def pandas_options():
    pd = sys.modules.get("pandas")
    return pd and [pd.get_option(x) for x in ("display.max_rows", "display.width", "mode.chained_assignment")]


def process_state():
    import clevercsv
    out = {"field size limit": clevercsv.field_size_limit(),
           "csv field size limit": csv.field_size_limit(),
           "csv dialect registry": [(n, attrs(csv.get_dialect(n))) for n in sorted(csv.list_dialects())],
           "csv dialect classes": [attrs(c) for c in (csv.excel, csv.excel_tab, csv.unix_dialect, csv.Dialect)],
           "csv functions": [getattr(csv, n) for n in ("reader", "writer", "DictReader", "DictWriter", "Sniffer", "field_size_limit")],
           "warning filters": list(warnings.filters),
           "warning display": (warnings.showwarning, warnings.formatwarning),
           "working directory": os.getcwd(),
           "environment": dict(os.environ),
           "standard streams": (sys.stdin, sys.stdout, sys.stderr),
           "standard stream settings": tuple(map(stream_state, (sys.stdout, sys.stderr))),
           "sys.argv": (id(sys.argv), list(sys.argv)),
           "module search path": list(sys.path),
           "umask": umask(),
           "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
           "locale": locale.setlocale(locale.LC_ALL),
           "recursion limit": sys.getrecursionlimit(),
           "exception hooks": (sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook),
           "random numbers": random.getstate(),
           "decimal context": repr(decimal.getcontext()),
           "garbage collector hooks": list(gc.callbacks),
           "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
           "thread switch interval": sys.getswitchinterval(),
           "running threads": threading.active_count(),
           "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable),
           "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_FSIZE)],
           "timers": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
           "integer digits limit": sys.get_int_max_str_digits(),
           "builtins": [getattr(builtins, n) for n in ("open", "print", "input", "__import__")],
           "temporary directory": tempfile.tempdir,
           "pandas options": pandas_options()}
    return out


def freeze(x):
    """A comparable image of a caller-owned object, following its identity structure one level."""
    from clevercsv.dialect import SimpleDialect
    if isinstance(x, SimpleDialect):
        return ("SimpleDialect", sorted(vars(x).items()))
    if isinstance(x, type) and issubclass(x, csv.Dialect) or isinstance(x, csv.Dialect):
        return ("dialect", attrs(x))
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, set):
        return ("set", sorted(x))
    return x


class Interrupter:
    """KeyboardInterrupt at the n-th line executed inside clevercsv."""

    def __init__(self, n, stage, only=""):
        self.n, self.stage, self.only, self.count, self.hit = n, os.path.join(stage, "clevercsv"), only, 0, False

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.stage):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and frame.f_code.co_filename.endswith(self.only):
            self.count += 1
            if self.count == self.n and not self.hit:
                self.hit = True
                sys.settrace(None)
                raise KeyboardInterrupt
        return self.line

    def __enter__(self):
        if self.n:
            sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Sink(io.StringIO):
    """A text sink that fails at the n-th write."""
    left = None

    def write(self, s):
        if self.left is not None:
            if self.left == 0:
                raise Boom("sink")
            self.left -= 1
        return super().write(s)


def source(lines, fail):
    for i, x in enumerate(lines):
        if fail is not None and i == fail:
            raise Boom("source")
        yield x


class C08(core.Property):
    id = "C08"
    quick_runs = 6000
    thorough_runs = 90000
    preload = opmix.PRELOAD + ("pandas", "cchardet", "clevercsv.console.application")
    rule = ("counts distinct (operation, point of failure or interruption, how it ended); non-trivial when the operation failed, "
            "was interrupted, or was given caller-owned dialect, list or dictionary objects")
    real = ["clevercsv detection, readers, writers, dictionary readers and writers, wrappers, commands; CPython csv, warnings, io"]
    stub = ["libc file calls pass through libsimos (errors, short transfers, interrupts)",
            "interrupts inside computations are raised by the interpreter's trace hook at a chosen line"]
    assumptions = ["optional packages are imported beforehand (importing third-party packages may itself register state)"]

    def gen_dialect(self, rng):
        r = rng.random()
        if r < 0.45:
            return ["simple", *gen.dialect(rng), int(rng.random() < 0.3)]
        if r < 0.7:
            return ["instance", rng.choice(["excel", "excel-tab", "unix"])]
        return rng.choice(["excel", "excel-tab", "unix", REGISTERED])

    def gen_step(self, rng):
        if rng.random() < 0.45:
            s = opmix.gen_op(rng, FILE_KINDS + ["cli_inplace", "cli_inplace"])
            if rng.random() < 0.6:
                k = rng.choice(["err", "err", "sigint", "sigint_after"])
                f = {"k": -rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 15]), "type": k}
                f["kinds"] = ["read", "write"] if k != "err" else ["open", "read", "write", "close", "rename", "fsync", "chmod"]
                if k == "err":
                    f["errno"] = rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"])
                    if rng.random() < 0.5:
                        f["kinds"], f["k"] = [rng.choice(f["kinds"])], -rng.choice([1, 1, 2, 3])
                s["faults"] = [f]
            if s["op"].get("dialect") is None and s["op"]["op"] in ("read_table", "stream_table", "read_dicts", "stream_dicts") and rng.random() < 0.5:
                s["op"]["dialect"] = ["simple", *gen.dialect(rng), 0]
        elif rng.random() < 0.08:
            s = {"seed": 0, "faults": [], "knobs": {}, "files": {}, "op": {"op": "read_dataframe", "path": opmix.IN}}
            s["files"][opmix.IN] = gen.serialize(gen.table(rng, 4, 3, nasty=0, ragged=0, min_rows=2)).encode().hex()
            s["op"]["kwargs"] = rng.choice([{}, {"encoding": "utf-8"}, {"quotechar": "'"}, {"delimiter": ";"}, {"nosuch": 1}])
            return s
        else:
            k = rng.choice(MEM_KINDS)
            m = {"op": k, "text": gen.text(rng, max_rows=5)[:200]}
            if k in ("reader", "DictReader", "writer", "DictWriter"):
                m["dialect"] = self.gen_dialect(rng)
                m["fmt"] = {}
                if rng.random() < 0.5:
                    m["fmt"] = {x: v for x, v in (("delimiter", rng.choice([",", ";", "\t", "long"])), ("quotechar", rng.choice(['"', "'"])),
                                                  ("escapechar", rng.choice(["\\", "~"])), ("strict", rng.random() < 0.5))
                                if rng.random() < 0.5}
                m["src"] = rng.choice(["list", "file", "stringio", "gen", "gen"])
                m["fail"] = rng.choice([None, None, 0, 1, 2])
                m["take"] = rng.choice([None, None, 0, 1, 2])
            if k in ("DictReader", "DictWriter"):
                m["fieldnames"] = rng.choice([None, ["a"], ["a", "b"], ["a", "b", "c", "d"], ["a", "a"]])
                if k == "DictReader" and rng.random() < 0.6:
                    m["more"] = {"restkey": "rest"} if rng.random() < 0.5 else {"restkey": "rest", "restval": "?"}
            if k in ("writer", "DictWriter"):
                m["table"] = opmix.cells(rng, gen.table(rng, 5, 4))
            if k in ("detect", "sniff"):
                m["delims"] = rng.choice([None, [",", ";"], [";"], ["|", "\t", ",", " "], []])
                m["shape"] = rng.choice(["list", "tuple", "set", "str"])
                m["method"] = rng.choice(["auto", "normal", "consistency", "nosuch"])
                m["verbose"] = rng.random() < 0.15
                m["skip"] = rng.random() < 0.7
            if k == "limit":
                m["args"] = rng.choice([["x"], [1, 2], [2.5], [None], []])
            if k == "app":
                m["argv"] = rng.choice([["detect", "nosuchfile"], ["-h"], ["detect", "-j", "-p", "x"], ["nosuch"], ["code", "nosuchfile"],
                                        ["standardize", "-i", "-o", "x", "y"], ["standardize", "-e", "utf-8", "-e", "ascii", "y"], []])
            s = {"seed": 0, "faults": [], "knobs": {}, "files": {}, "op": m}
        r = rng.random()
        if r < 0.2:
            s["at_line"] = 1 + int(10 ** rng.uniform(0, 3.3))
        elif r < 0.4:
            # within one module, so that the few lines around the detection are reached too
            s["at_line"] = 1 + int(10 ** rng.uniform(0, 2))
            s["at_file"] = rng.choice(["standardize.py"] * 4 + ["wrappers.py", "wrappers.py", "read.py", "write.py", "dict_read_write.py", "detect.py", "code.py",
                                      "consistency.py", "normal_form.py", "encoding.py", "cparser_util.py", "application.py", "_optional.py"])
        return s

    def run_seed(self, ctx, rng, st):
        sc = {"steps": [self.gen_step(rng) for _ in range(rng.randint(3, 6))],
              "opt_limit": rng.choice([None, None, 50, 10, 1 << 20]),
              "opt_csvlimit": rng.choice([None, 777]),
              "opt_cwd": rng.choice([None, "fs0", "fs0/tmp", "fs1"]), "opt_rel": rng.random() < 0.5}
        self.case(ctx, sc, st)

    # ------------------------------------------------------------------- steps
    def make_dialect(self, d):
        if isinstance(d, list) and d and d[0] == "instance":
            return type("user", ({"excel": csv.excel, "excel-tab": csv.excel_tab, "unix": csv.unix_dialect}[d[1]],), {})()
        return ops.dialect(d)

    def mem(self, ctx, m, own, fds):
        """Returns a thunk; caller-owned objects are put in own, files in fds."""
        import clevercsv
        k = m["op"]
        if k == "limit":
            args = list(m["args"])
            own["arguments"] = args
            return lambda: clevercsv.field_size_limit(*args)
        if k == "app":
            from clevercsv.console.application import build_application
            argv = list(m["argv"])
            own["argument list"] = argv
            return lambda: build_application().run(argv, exit_on_error=False)
        if k in ("detect", "sniff"):
            ds = m["delims"]
            if ds is not None:
                ds = {"list": list, "tuple": tuple, "set": set, "str": "".join}[m["shape"]](ds)
                own["delimiters"] = ds
            det = clevercsv.Detector()
            if k == "sniff":
                return lambda: det.sniff(m["text"], delimiters=ds, verbose=m["verbose"])
            return lambda: det.detect(m["text"], delimiters=ds, method=m["method"], verbose=m["verbose"], skip=m["skip"])
        if k == "has_header":
            return lambda: clevercsv.Detector().has_header(m["text"])
        d = self.make_dialect(m["dialect"])
        own["dialect"] = d
        fmt = dict(m["fmt"])
        own["format parameters"] = fmt
        fn = list(m["fieldnames"]) if m.get("fieldnames") is not None else None
        own["fieldnames"] = fn
        more = m.get("more", {})
        if k in ("reader", "DictReader"):
            lines = model.lines_of(m["text"])
            if m["src"] == "list":
                src = own["lines"] = lines
            elif m["src"] == "file":
                ctx.put("fs0/d/mem.csv", m["text"].encode("utf-8", "replace"))
                src = open(ctx.path("fs0/d/mem.csv"), newline="", encoding="utf-8")
                fds.append(src)
            elif m["src"] == "stringio":
                src = io.StringIO(m["text"], newline="")
                fds.append(src)
            else:
                src = source(lines, m["fail"])

            def work():
                rd = clevercsv.reader(src, d, **fmt) if k == "reader" else clevercsv.DictReader(src, fn, dialect=d, **more, **fmt)
                it = iter(rd)
                n = 0
                while m["take"] is None or n < m["take"]:
                    try:
                        next(it)
                    except StopIteration:
                        break
                    n += 1
                return n
            return work
        rows = [list(r) for r in m["table"]]
        if m["src"] == "file":
            snk = open(ctx.path("fs0/d/memout.csv"), "w", newline="", encoding="utf-8")
            fds.append(snk)
        elif m["src"] == "gen":
            snk = sys.stdout
        else:
            snk = Sink()
            snk.left = m["fail"]
            fds.append(snk)
        if k == "writer":
            own["rows"] = rows

            def work():
                w = clevercsv.writer(snk, d, **fmt)
                if m["take"] is None:
                    w.writerows(rows)
                else:
                    for r in rows:
                        w.writerow(r)
            return work
        names = fn or ["a", "b"]
        own["fieldnames"] = names
        dicts = [dict(zip(names + ["extra"], r)) for r in rows]
        own["dictionaries"] = dicts

        def work():
            w = clevercsv.DictWriter(snk, names, dialect=d, extrasaction="ignore" if m["take"] == 1 else "raise", **fmt)
            w.writeheader()
            if m["take"] is None:
                w.writerows(dicts)
            else:
                for r in dicts:
                    w.writerow(r)
        return work

    def file_op(self, ctx, op, own, rel):
        from clevercsv import wrappers
        from clevercsv.console.application import build_application

        def where(x):
            p = ctx.path(x)
            return os.path.relpath(p) if rel else p
        if op["op"] == "cli":
            argv = [where(a[1:]) if a.startswith("@") else a for a in op["argv"]]
            own["argument list"] = argv
            return lambda: build_application().run(argv)
        path = where(op["path"])
        if op["op"] == "read_dataframe":
            kw = dict(op["kwargs"])
            own["keyword arguments"] = kw
            return lambda: wrappers.read_dataframe(path, **kw)
        if op["op"] in ("write_table", "write_dicts"):
            d = self.make_dialect(op["dialect"])
            own["dialect"] = d
            kw = {"dialect": d}
            if op.get("encoding"):
                kw["encoding"] = op["encoding"]
            if op["op"] == "write_table":
                t = [list(r) for r in op["table"]]
                own["table"] = t
                return lambda: wrappers.write_table(t, path, transpose=op.get("transpose", False), **kw)
            items = [dict(r) for r in op["items"]]
            own["dictionaries"] = items
            return lambda: wrappers.write_dicts(items, path, **kw)
        if op["op"] in ("read_table", "read_dicts", "stream_table", "stream_dicts"):
            d = self.make_dialect(op.get("dialect"))
            own["dialect"] = d
            kw = {k: op[k] for k in ("encoding", "num_chars") if op.get(k)}

            def work():
                g = iter(getattr(wrappers, op["op"])(path, dialect=d, **kw))
                n = 0
                for _ in g:
                    n += 1
                    if op.get("take") is not None and n >= op["take"]:
                        break
                if hasattr(g, "close"):
                    g.close()
                return n
            return work
        return lambda: ops.perform(ctx, op)

    def step(self, ctx, s, stage, rel):
        op = s["op"]
        own, fds = {}, []
        ctx.os.reset(s.get("seed", 0))
        for rel, h in s["files"].items():
            ctx.put(rel, bytes.fromhex(h))
        try:
            work = self.mem(ctx, op, own, fds) if op["op"] in MEM_KINDS else self.file_op(ctx, op, own, rel)
        except (ValueError, TypeError, csv.Error, KeyError, AttributeError) as e:
            raise Invalid(repr(e))
        ops.set_locale(s)
        before = process_state()
        mine = {k: freeze(v) for k, v in own.items()}
        ids = {k: [id(x) for x in v] for k, v in own.items() if isinstance(v, list)}
        ops.arm(ctx, s)
        with Interrupter(s.get("at_line", 0), stage, s.get("at_file", "")) as intr:
            r = ops.capture(work)
        ctx.os.arm(False)
        del work
        after = process_state()
        out = []
        for k in before:
            if before[k] != after[k]:
                out.append(("process", "%s was %s, is %s" % (k, short(before[k]), short(after[k]))))
        for k, v in mine.items():
            if freeze(own[k]) != v:
                out.append(("argument", "the caller's %s was %s, is %s" % (k, short(v), short(freeze(own[k])))))
            elif k in ids and ids[k] != [id(x) for x in own[k]]:
                out.append(("argument", "elements of the caller's %s were replaced" % k))
        for f in fds:
            if f.closed:
                out.append(("closed", "the caller's %s was closed" % type(f).__name__))
            else:
                f.close()
        # a file object may be among the standard streams; restore it for the next step
        return r[:2] if r[0] == "exc" else (r[0],), out, intr.hit, [x["kind"] for x in ctx.os.log(data=False) if x["fault"] != "none"]

    def check(self, ctx, sc, st):
        import clevercsv
        ctx.clean()
        ctx.os.reset(0)
        stage = os.environ["VERIF_STAGE"]
        for d in ("fs0/d", "fs0/tmp"):
            os.makedirs(ctx.path(d), exist_ok=True)

        def fn():
            res = []
            os.chdir(ctx.path(sc.get("opt_cwd") or "fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            csv.register_dialect(REGISTERED, delimiter=";", quotechar="'", escapechar="~")
            if sc.get("opt_limit") is not None:
                clevercsv.field_size_limit(sc["opt_limit"])
            if sc.get("opt_csvlimit") is not None:
                csv.field_size_limit(sc["opt_csvlimit"])
            for i, s in enumerate(sc["steps"]):
                with ops.Std(ctx):
                    try:
                        x = self.step(ctx, s, stage, sc.get("opt_rel"))
                    except Invalid:
                        if len(sc["steps"]) == 1:
                            raise
                        continue
                res.append((i,) + x)
                if x[1]:
                    break
            return res
        o = ctx.run(fn)
        if o.status != "ok":
            return [Violation("died", "the process ended with %s" % o.status, stderr=o.stderr[-800:])]
        for i, how, bad, hit, faults in o.value:
            op = sc["steps"][i]["op"]
            name = op["op"] + ("" if op["op"] != "cli" else " " + " ".join(op["argv"]))
            st.add("steps")
            if hit:
                st.add("fault:interrupt_at_line")
            for k in faults:
                st.add("fault:io_" + k)
            if how[0] == "exc":
                st.add("probe:raised_" + how[1])
            if how[0] == "exc" or hit or faults or op["op"] in MEM_KINDS:
                st.seen("nontrivial", (name, how, hit, faults, sc["steps"][i].get("at_line") if hit else None))
            if bad:
                return [Violation(c, "%s (ended with %s%s): %s" % (name, " ".join(how), ", interrupted" if hit else "", m)) for c, m in bad]
        return []


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


PROP = C08()
