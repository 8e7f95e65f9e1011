"""C04: reads are complete or fail, however the bytes arrive."""
import codecs, os

from .. import core, gen, model, opmix, ops, oracle, osim
from ..core import Invalid, Violation

KINDS = ["detect", "encoding", "read_table", "read_table", "read_dicts", "stream_table", "stream_dicts"]


def decoded_prefix(data, enc):
    """Text up to the first undecodable byte."""
    try:
        d = codecs.getincrementaldecoder(enc)()
    except LookupError:
        return ""
    out = []
    for i in range(len(data)):
        try:
            out.append(d.decode(data[i:i + 1]))
        except UnicodeError:
            break
    return "".join(out)


def long_text(rng):
    """A file that spans several transfer blocks, with something special late in it."""
    d = rng.choice([",", ";", "\t", "|"])
    rows = gen.table(rng, 6, 4, nasty=rng.choice([0, 0, 0.1]), wide=0, ragged=0, min_rows=2)
    rows = [r for r in rows if any(r)] or [["a", "b"]]
    block = gen.serialize(rows, d, '"', "", rng.choice(["\n", "\r\n"]))
    size = rng.choice([8100, 8192, 16384, 65500, 65536, 66000, 131072])
    text = block * max(1, size // len(block) + 1)
    tail = gen.serialize(gen.table(rng, 3, 4, nasty=0, wide=rng.choice([0, 0.8, 0.8]), ragged=0, min_rows=1), d, '"', "", "\n")
    if rng.random() < 0.5:
        k = size - rng.randint(0, 3) - rng.randint(0, 1) * len(tail)
        text = text[:max(k, 0)]
    return text + tail + (block if rng.random() < 0.3 else "")


def late_text(rng):
    """A file of several blocks whose dialect is only decided by its later part."""
    one, two = rng.sample([",", ";", "|", "\t"], 2)
    head = rng.choice(["word\n", "1\n", "x y\n", "abc%sd\n" % one, "1%s2\n" % one])
    size = rng.choice([8192, 20000, 65536, 65536, 66000, 131072])
    tail = rng.choice(["1%s2%s3\n" % (two, two), "a%sb\n" % two, "2020-01-01%s7%s\"x\"\n" % (two, two)])
    return head * (size // len(head) + rng.choice([0, 1, 30])) + tail * (size * rng.choice([1, 2]) // len(tail))


class C04(core.Property):
    id = "C04"
    quick_runs = 1300
    thorough_runs = 60000
    preload = opmix.PRELOAD
    rule = ("counts distinct executions by (operation, sequence of operation kinds with the fault each met, how it ended); "
            "non-trivial when more than one transfer was needed, a planned fault fired, or a transfer was shortened")
    real = ["clevercsv.wrappers, encoding, detection, readers, C parser; cchardet; CPython text I/O"]
    stub = ["libc file calls pass through libsimos, which decides errors, short transfers, EINTR and interrupts"]
    assumptions = ["the reference parser (sim/model.py) defines how a text reads under a dialect",
                   "Detector().detect on the decoded text defines the dialect; the encoding may be decided on the whole file "
                   "or on 64 KiB blocks"]

    def run_seed(self, ctx, rng, st):
        r = rng.random()
        if r < 0.06:
            return self.frame_seed(ctx, rng, st)
        if r < 0.075:
            return self.huge_seed(ctx, rng, st)
        sc = opmix.gen_op(rng, KINDS)
        if rng.random() < 0.12:
            t = long_text(rng)
            enc, data = gen.encoded(rng, t, ["utf-8", "utf-8", "latin-1", "utf-16", "utf-8-sig"])
            sc["files"][opmix.IN] = data.hex()
            sc["op"].pop("encoding", None)
            if rng.random() < 0.4 and sc["op"]["op"] != "encoding":
                sc["op"]["encoding"] = enc
            if sc["op"]["op"] != "encoding" and "dialect" not in sc["op"] and len(t) > 20000:
                sc["op"]["num_chars"] = rng.choice([200, 2000, 9000])
            if sc["knobs"].get("rd_max"):
                sc["knobs"]["rd_max"] = rng.choice([700, 5000, 40000])
        elif rng.random() < 0.025:
            # the encoding detector that is written in Python
            t = long_text(rng) if rng.random() < 0.4 else opmix.small_text(rng)
            if len(t) > 60000 and rng.random() < 0.4:
                t *= 3
            sc = {"seed": sc["seed"], "faults": [], "knobs": {}, "files": {opmix.IN: gen.encoded(rng, t)[1].hex()},
                  "op": {"op": "encoding", "path": opmix.IN, "try_cchardet": False}}
            if rng.random() < 0.3:
                sc["knobs"]["rd_max"] = rng.choice([700, 5000, 40000])
        elif rng.random() < 0.03:
            sc["files"][opmix.IN] = late_text(rng).encode("ascii").hex()
            for k in ("dialect", "num_chars", "method", "encoding"):
                sc["op"].pop(k, None)
            if rng.random() < 0.2:
                sc["op"]["num_chars"] = rng.choice([2000, 70000])
            if sc["knobs"].get("rd_max"):
                sc["knobs"]["rd_max"] = rng.choice([5000, 40000])
        log, how = opmix.profile(ctx, sc)
        self.case(ctx, sc, st)
        for _ in range(2):
            s2 = dict(sc)
            r = rng.random()
            if r < 0.4:
                f = gen.error_at(rng, log, ("read", "open", "close"))
                s2["faults"] = [f] if f else []
            elif r < 0.55:
                f = gen.interrupt_at(rng, log)
                s2["faults"] = [f] if f else []
            else:
                s2["knobs"] = {"rd_max": rng.choice([1, 2, 3, 17, 64]) if len(sc["files"][opmix.IN]) < 800 else
                               rng.choice([900, 4097, 20000])}
                s2["faults"] = [{"k": rng.randint(0, len(log)), "type": "eintr", "sticky": 1, "arg": rng.randint(1, 4)}]
            self.case(ctx, s2, st)

    def huge_seed(self, ctx, rng, st):
        """Files of hundreds of kilobytes to several megabytes whose last lines matter."""
        d = rng.choice(",;\t|")
        head = rng.choice(["x" * rng.randint(200, 900), "lorem ipsum " * rng.randint(15, 40)]) + d + rng.choice(["2", "y"]) + rng.choice(["\n", "\r\n"])
        sc = {"seed": rng.randrange(1 << 32), "faults": [], "knobs": {}, "files": {}}
        name = rng.choice(["encoding", "encoding", "detect", "read_table", "read_dicts", "stream_table", "stream_dicts"])
        size = rng.choice([250, 500, 1000, 1000, 2000]) * 1024 * (3 if name == "encoding" else 1) + rng.randint(0, 70000)
        end = head[-2:] if head.endswith("\r\n") else "\n"
        enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-8-sig", "utf-16"])
        last = rng.choice(['"a;b"%s1', '"a,b"%s"c"', '"q\n"%s1', '"é€"%s1' if enc[0] == "u" else '"éü"%s1']) % d + end
        if name == "encoding" or rng.random() < 0.2:
            enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16"])
            last = rng.choice(["é%sè%sü ß" % (d, d), "日本%s語" % d if enc[0] == "u" else "ñandú%s1" % d]) + end
        sc["huge"] = [head, size // len(head), last * rng.randint(1, 3), enc]
        sc["op"] = {"op": name, "path": opmix.IN}
        if name != "encoding":
            if enc != "utf-8" or rng.random() < 0.5:
                sc["op"]["encoding"] = enc
            if rng.random() < 0.25 and name != "detect":
                sc["op"]["dialect"] = ["simple", d, '"', "", 0]
        if rng.random() < 0.4:
            sc["knobs"]["rd_max"] = rng.choice([30000, 65536, 300000])
        self.case(ctx, sc, st)
        if rng.random() < 0.3:
            o = rng.randint(8, 60)
            self.case(ctx, {**sc, "faults": [{"k": o, "type": "err", "errno": "EIO", "kinds": ["read"]}]}, st)

    def frame_seed(self, ctx, rng, st):
        late = rng.random() < 0.3
        t = late_text(rng) if late else gen.serialize(gen.table(rng, 8, 4, nasty=0.05, ragged=0, min_rows=1), rng.choice(",;\t|"))
        enc, data = gen.encoded(rng, t, ["utf-8", "latin-1", "utf-16"])
        sc = {"seed": rng.randrange(1 << 32), "faults": [], "knobs": {}, "files": {opmix.IN: data.hex()},
              "op": {"op": "read_dataframe", "path": opmix.IN}}
        if rng.random() < 0.7:
            sc["op"]["encoding"] = enc
        if rng.random() < 0.25:
            sc["op"]["num_chars"] = rng.choice([4, 20, 60000])
        self.case(ctx, sc, st)
        log, how = opmix.profile(ctx, sc)
        if rng.random() < 0.15:
            # bytes that mean nothing in this encoding
            at = len(data) if rng.random() < 0.5 else rng.randint(0, len(data))
            bad = data[:at] + rng.choice([b"\xff", b"\xc3", b"\xe4\xb8,", b"\xd8"]) + data[at:]
            sc["files"] = {opmix.IN: bad.hex()}
            sc["op"]["num_chars"] = rng.choice([4, 20])
            self.case(ctx, sc, st)
            return
        sc["knobs"] = {"rd_max": rng.choice([1, 5, 50]) if len(data) < 2000 else 9000}
        self.case(ctx, sc, st)
        f = gen.error_at(rng, log, ("read", "open"))
        if f:
            self.case(ctx, {**sc, "knobs": {}, "faults": [f]}, st)

    # ------------------------------------------------------------------ oracle
    def expected(self, ctx, sc):
        """List of acceptable results: ('ok', value), ('raises',), ('either', value)."""
        op = sc["op"]
        name = op["op"]
        if op.get("take") == 0 and name.startswith("stream"):
            return [("either", [])]         # nothing was asked for
        data = bytes.fromhex(sc["files"][opmix.IN])
        if name == "encoding":
            return [("ok", e) for e in oracle.encodings(ctx, data, op.get("try_cchardet") is False)]
        out = []
        for enc in ([op["encoding"]] if op.get("encoding") else oracle.encodings(ctx, data)):
            out.append(self.expected_for(ctx, op, name, data, enc or "utf-8"))
        return out

    def expected_for(self, ctx, op, name, data, enc):
        text = oracle.decode(data, enc)
        whole = text is not None
        if not whole:
            text = decoded_prefix(data, enc)
        n = op.get("num_chars")
        given = op.get("dialect")
        if given is not None:
            d = (given[1], given[2], given[3], bool(given[4]))
        else:
            if not whole and not (n and n <= len(text)):
                return ("raises",)
            kw = {k: op[k] for k in ("method", "skip") if k in op}
            r = oracle.dialect_of_text(ctx, text[:n] if n else text, **kw)
            if r[0] == "died":
                return ("raises",)
            if r[0] == "exc":
                return ("raises",)
            d = r[1]
            if name == "detect":
                return ("ok" if whole else "either", d)
            if d is None:
                return ("raises",)
        rows, err = [], None
        try:
            for r in model.records(model.lines_of(text), d[0] or "", d[1] or "", d[2] or "", bool(d[3])):
                rows.append(r)
        except model.ModelError as e:
            err = e
        if name.endswith("dicts"):
            rows = list(model.dicts(rows))
        take = op.get("take") if name.startswith("stream") else None
        if take is not None and len(rows) >= take:
            # a reader may look ahead by one block of text, no further claim
            return ("ok" if whole else "either", rows[:take], rows)
        if not whole or err is not None:
            return ("raises", rows)
        return ("ok", rows, rows)

    def expected_frame(self, ctx, op, data):
        """What pandas itself makes of the file with the dialect detected for its text."""
        out = []
        for enc in ([op["encoding"]] if op.get("encoding") else oracle.encodings(ctx, data)):
            text = oracle.decode(data, enc or "utf-8")
            n = op.get("num_chars")
            if text is None:
                text = decoded_prefix(data, enc or "utf-8")
                if not n or n > len(text):
                    out.append(("raises",))
                    continue
            r = oracle.dialect_of_text(ctx, text[:n] if n else text)
            if r[0] != "ok" or r[1] is None:
                out.append(("raises",))
                continue
            out.append(oracle.frame(ctx, data, r[1], enc))
        return out

    def check(self, ctx, sc, st):
        op = sc["op"]
        if "huge" in sc:
            head, n, tail, enc = sc["huge"]
            if not 0 <= n * len(head) < 1 << 24:
                raise Invalid("size")
            try:
                sc = {**sc, "files": {opmix.IN: (head * n + tail).encode(enc).hex()}}
            except (UnicodeError, LookupError):
                raise Invalid("not encodable") from None
        if opmix.IN not in sc["files"]:
            raise Invalid("no file")
        if op["op"] == "read_dataframe":
            want = None
        else:
            want = self.expected(ctx, sc)
        opmix.layout(ctx, sc)
        if want is None:
            want = self.expected_frame(ctx, op, bytes.fromhex(sc["files"][opmix.IN]))
            opmix.layout(ctx, sc)
        o = self.perform(ctx, sc)
        log = ctx.os.log(data=False)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        n = ops.fired(ctx, sc, st)
        if o.status != "ok":
            return [Violation("died", "the operation ended with %s" % o.status, stderr=o.stderr[-800:])]
        res, partial = o.value
        name = op["op"]
        reads = [x for x in log if x["kind"] == "read"]
        if n or len(reads) > 2:
            st.seen("nontrivial", (name, res[0], res[1] if res[0] == "exc" else len(repr(res)),
                                   tuple((x["kind"], x["fault"]) for x in log)))
        failed = [x for x in log if x["fault"] == "err" and x["kind"] == "read"]
        disturbed = [x for x in log if x["fault"] in ("err", "sigint", "sigint_after")]
        ctxinfo = {"log": osim.brief(log, 40)}
        if res[0] == "ok":
            if failed:
                return [Violation("swallowed", "%s returned %s although %s" % (name, short(res[1]), osim.brief(failed[:1])[0].strip()),
                                  **ctxinfo)]
            if not any(w[0] in ("ok", "either") and same(w[1], res[1]) for w in want):
                return [Violation("wrong", "%s returned %s; expected %s" % (name, short(res[1]), short(want[0])), **ctxinfo)]
            st.add("probe:complete")
        else:
            st.add("probe:raised")
            if not disturbed and not any(w[0] in ("raises", "either") for w in want):
                return [Violation("spurious", "%s raised %s %s; expected %s" % (name, res[1], res[3], short(want[0])), **ctxinfo)]
            if partial:
                st.add("probe:partial_stream")
                full = [w[2] if len(w) > 2 else w[1] for w in want if len(w) > 1]
                if full and not any(partial == list(f[:len(partial)]) for f in full if f is not None):
                    return [Violation("partial", "%s handed out %s before failing; not a prefix of %s"
                                      % (name, short(partial), short(full[0])), **ctxinfo)]
        return []

    def perform(self, ctx, sc):
        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            if sc["op"]["op"] == "read_dataframe":
                import pandas  # noqa: F401  outside the simulated part
            partial = None
            with ops.Std(ctx):
                ops.arm(ctx, sc)
                try:
                    r = ("ok", opmix.perform(ctx, sc["op"]))
                except BaseException as e:
                    partial = getattr(e, "partial", None)
                    r = ops.exc_info(e)
                ctx.os.arm(False)
            return r, partial
        return ctx.run(fn)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return a == b


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "... (%d characters)" % len(s)


PROP = C04()
