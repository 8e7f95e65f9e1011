"""What an operation should yield, computed apart from the code path under test."""
import codecs

from . import core, model, ops

_cache = {}


def cached(ctx, key, fn):
    """Run fn in an isolated process, once per key; Outcome value or HarnessError."""
    k = (key,)
    if k not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        o = ctx.run(fn, traced=False)
        _cache[k] = o
    return _cache[k]


def decode(data, enc):
    """Text as a text file with newline='' yields it, or None if it cannot be decoded."""
    try:
        # as a stream: unlike bytes.decode, it insists on the byte order mark of utf-16
        return codecs.getincrementaldecoder(enc)().decode(data, True)
    except (UnicodeDecodeError, LookupError, UnicodeError):
        return None


def encodings(ctx, data, slow=False):
    """The encodings an incremental detector (the fast one, or the one in Python) may report for these bytes."""
    def fn():
        if slow:
            import chardet as detectors
        else:
            import cchardet as detectors
        out = []
        for size in (len(data) or 1, 65536):
            d = detectors.UniversalDetector()
            for i in range(0, max(len(data), 1), size):
                if d.done:
                    break
                d.feed(data[i:i + size])
            d.close()
            out.append((d.result or {}).get("encoding"))
        return out
    o = cached(ctx, ("enc", data, slow), fn)
    if o.status != "ok":
        raise core.HarnessError("encoding oracle: " + o.status + o.stderr)
    return o.value


def dialect_of_text(ctx, text, **kw):
    """('ok', dialect tuple or None) or ('exc', ...) from the detector itself."""
    def fn():
        import clevercsv

        def f():
            return ops.dialect_tuple(clevercsv.Detector().detect(text, **kw))
        return ops.capture(f)
    o = cached(ctx, ("dial", text, repr(sorted(kw.items()))), fn)
    if o.status != "ok":
        return ("died", o.status)
    return o.value


def dialect_of_file(ctx, data, encoding, num_chars):
    """What detect_dialect(path) says without faults: (encoding, capture of dialect tuple)."""
    def fn():
        import clevercsv
        from clevercsv.encoding import get_encoding
        ctx.put("io/oracle.csv", data)
        p = ctx.path("io/oracle.csv")

        def f():
            e = encoding or get_encoding(p)
            return e, ops.dialect_tuple(clevercsv.detect_dialect(p, encoding=e, num_chars=num_chars))
        return ops.capture(f)
    o = cached(ctx, ("file", data, encoding, num_chars), fn)
    if o.status != "ok":
        return ("died", o.status)
    return o.value


def frame(ctx, data, dialect, encoding):
    """('ok', data frame as text) or ('raises',): pandas with this dialect."""
    def fn():
        import pandas, warnings
        from clevercsv.dialect import SimpleDialect
        warnings.simplefilter("ignore")
        ctx.put("io/oracle.csv", data)

        def f():
            d = SimpleDialect(*dialect[:3], strict=bool(dialect[3])).to_csv_dialect()
            return pandas.read_csv(ctx.path("io/oracle.csv"), dialect=d, encoding=encoding).to_csv()
        return ops.capture(f)
    o = cached(ctx, ("frame", data, dialect, encoding), fn)
    return ("ok", o.value[1]) if o.status == "ok" and o.value[0] == "ok" else ("raises",)


def rows(text, dialect):
    """('ok', rows) or ('error', message) by the reference model."""
    try:
        return ("ok", model.parse(text, dialect[0] or "", dialect[1] or "", dialect[2] or "", bool(dialect[3])))
    except model.ModelError as e:
        return ("error", str(e))
