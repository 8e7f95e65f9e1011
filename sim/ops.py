"""Runs CleverCSV operations inside a simulated run and records how they ended."""
import csv, io, os, pathlib, sys, warnings


def dialect(spec):
    from clevercsv.dialect import SimpleDialect
    if spec is None or isinstance(spec, str):
        return spec
    kind = spec[0]
    if kind == "simple":
        return SimpleDialect(spec[1], spec[2], spec[3], strict=bool(spec[4]) if len(spec) > 4 else False)
    if kind == "csv":
        return csv.get_dialect(spec[1])
    raise ValueError(spec)


def dialect_tuple(d):
    return None if d is None else (d.delimiter, d.quotechar, d.escapechar, d.strict)


def exc_info(e):
    return ("exc", type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e))


def capture(fn):
    """('ok', value) or ('exc', type, mro, message); harness problems pass through."""
    try:
        return ("ok", fn())
    except KeyboardInterrupt as e:
        return exc_info(e)
    except SystemExit as e:
        return ("exit", e.code)
    except Exception as e:
        return exc_info(e)


def perform(ctx, op):
    """Run one operation; returns a picklable value."""
    import clevercsv
    from clevercsv import wrappers
    name = op["op"]
    kw = {}
    for k in ("encoding", "num_chars", "verbose", "method", "skip", "transpose"):
        if op.get(k) is not None:
            kw[k] = op[k]
    path = ctx.path(op["path"]) if "path" in op else None
    if op.get("opt_path") == "object":
        path = pathlib.Path(path)
    elif op.get("opt_path") == "bytes":
        path = os.fsencode(path)
    if name == "detect":
        return dialect_tuple(wrappers.detect_dialect(path, **kw))
    if name == "encoding":
        from clevercsv.encoding import get_encoding
        return get_encoding(path, **({"try_cchardet": op["try_cchardet"]} if "try_cchardet" in op else {}))
    if name in ("read_table", "read_dicts"):
        r = getattr(wrappers, name)(path, dialect=dialect(op.get("dialect")), **kw)
        return [dict(x) for x in r] if name == "read_dicts" else r
    if name in ("stream_table", "stream_dicts"):
        g = getattr(wrappers, name)(path, dialect=dialect(op.get("dialect")), **kw)
        out = []
        take = op.get("take")
        try:
            if take is None:
                for x in g:
                    out.append(dict(x) if name == "stream_dicts" else x)
            else:
                for _ in range(take):
                    x = next(g, None)
                    if x is None:
                        break
                    out.append(dict(x) if name == "stream_dicts" else x)
                how = op.get("abandon", "close")
                if how == "close":
                    g.close()
                del g
        except BaseException as e:
            e.partial = out
            g.close()
            raise
        return out
    if name == "read_dataframe":
        kw = {k: v for k, v in kw.items() if k in ("num_chars", "encoding")}
        df = wrappers.read_dataframe(path, **kw)
        return df.to_csv()
    if name == "write_table":
        return wrappers.write_table(op["table"], path, dialect=dialect(op["dialect"]), **kw)
    if name == "write_dicts":
        return wrappers.write_dicts(op["items"], path, dialect=dialect(op["dialect"]), **kw)
    if name in ("write_rows", "dict_rows"):
        with open(path, "w", newline="", encoding=op.get("encoding") or "utf-8") as fp:
            d, fmt = dialect(op["dialect"]), {}
            if op.get("opt_form") == "class" and isinstance(d, str):
                d = {"excel": csv.excel, "excel-tab": csv.excel_tab, "unix": csv.unix_dialect}[d]
            elif op.get("opt_form") == "params" and not isinstance(d, str):
                d, fmt = "excel", {"delimiter": d.delimiter, "quotechar": d.quotechar or None, "escapechar": d.escapechar or None,
                                   "quoting": csv.QUOTE_MINIMAL if d.quotechar else csv.QUOTE_NONE}
            if name == "write_rows":
                w, rows = clevercsv.writer(fp, d, **fmt), op["table"]
            else:
                w = clevercsv.DictWriter(fp, op["fieldnames"], dialect=d, **{k: op[k] for k in ("restval", "extrasaction") if k in op}, **fmt)
                rows = op["items"]
                if op["header"]:
                    w.writeheader()
            how = op.get("how")
            if how == "rows":
                w.writerows(rows)
            elif how == "gen":
                w.writerows(r if name == "dict_rows" else iter(r) for r in rows)
            elif how == "mixed":
                for i in range(0, len(rows), 3):
                    w.writerows(rows[i:i + 2])
                    for r in rows[i + 2:i + 3]:
                        w.writerow(r)
            else:
                for r in rows:
                    w.writerow(r)
        return None
    if name == "detect_text":
        d = clevercsv.Detector().detect(op["text"], method=op.get("method", "auto"), verbose=bool(op.get("verbose")),
                                        skip=op.get("skip", True), delimiters=op.get("delimiters"))
        return dialect_tuple(d)
    if name == "read_lines":
        rd = clevercsv.reader(op["lines"], dialect(op["dialect"]))
        return list(rd)
    if name == "has_header":
        return clevercsv.Detector().has_header(op["text"])
    raise ValueError(name)


class Std:
    """Replaces sys.stdout/sys.stderr, on simulated files or in memory."""

    def __init__(self, ctx, simulated=False):
        self.ctx, self.simulated = ctx, simulated

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        if self.simulated:
            # opened before the fault plan is armed; writes to it are simulated
            sys.stdout = open(self.ctx.path("io/stdout"), "w", encoding="utf-8", newline="\n")
        else:
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="\n", write_through=True)
        sys.stderr = io.StringIO()
        return self

    def finish(self):
        """What the interpreter does with stdout at exit."""
        sys.stdout.flush()

    def texts(self):
        if self.simulated:
            with open(self.ctx.path("io/stdout"), "rb") as f:
                out = f.read().decode("utf-8", "replace")
        else:
            out = sys.stdout.buffer.getvalue().decode("utf-8", "replace")
        return out, sys.stderr.getvalue()

    def __exit__(self, *a):
        new = sys.stdout
        sys.stdout, sys.stderr = self.old
        try:
            new.close()
        except Exception:
            pass


def cli(argv):
    """`clevercsv argv...` as the console script runs it; returns the exit status."""
    from clevercsv import __main__ as m
    old = sys.argv
    sys.argv = ["clevercsv"] + list(argv)
    try:
        m.main()
        return 0
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old


def set_locale(sc):
    if sc.get("opt_locale"):          # runs are forked, so this ends with the run
        import locale
        locale.setlocale(locale.LC_CTYPE, sc["opt_locale"])


def arm(ctx, sc):
    """Apply the scenario's fault plan and knobs, then switch the simulator on."""
    o = ctx.os
    set_locale(sc)
    for f in sc.get("faults", ()):
        o.fault(f)
    for k, v in sc.get("knobs", {}).items():
        if v or k in ("tick_ns", "op_ns"):
            o.knob(k, v if k != "capacity" else v - 1)   # capacity n means n-1 bytes left
    o.arm(True)


def set_tmp(ctx, sub):
    import tempfile
    d = ctx.path(sub)
    os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d      # skips the probing of candidate directories


def fired(ctx, sc, st):
    """Count the faults that actually fired."""
    fs = sc.get("faults", ())
    n = 0
    for f, k in zip(fs, ctx.os.fired(len(fs))):
        if k:
            n += 1
            st.add("fault:%s%s" % (f["type"], ":" + f["errno"] if "errno" in f else ""), k)
    if ctx.os.get("cap_fired"):
        n += 1
        st.add("fault:disk_full", ctx.os.get("cap_fired"))
    if ctx.os.get("short_fired"):
        n += 1
        st.add("fault:short_transfer", ctx.os.get("short_fired"))
    return n
