"""C06: readers deliver every record exactly once, in order and lazily."""
import itertools
import os

from .. import core, gen, model
from ..core import Invalid, Violation

PIECES = ["a", "b c", "1", "", ",", ";", '"', "'", "\\", "\n", "\r\n", "\r", '""', '","', "é", "x" * 9, "\\\"", "\\\n"]


class Boom(Exception):
    pass


RAISES = {"boom": Boom, "os": OSError, "value": ValueError, "kbd": KeyboardInterrupt, "uni": None, "runtime": RuntimeError}


def make_exc(name):
    if name == "uni":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "simulated")
    return RAISES[name]("simulated")


def make_dialect(d, form):
    """The dialect in one of the ways a caller can give it: (dialect, format parameters)."""
    import csv
    from clevercsv.dialect import SimpleDialect
    if form == "params":
        return "excel", {"delimiter": d[0], "quotechar": d[1], "escapechar": d[2], "strict": bool(d[3])}
    if form == "override":
        return SimpleDialect(";", "~", d[2], strict=bool(d[3])), {"delimiter": d[0], "quotechar": d[1]}
    if form in ("instance", "name") and d[0]:
        a = {"delimiter": d[0], "quotechar": d[1] or None, "escapechar": d[2] or None, "lineterminator": "\n",
             "doublequote": True, "skipinitialspace": False, "quoting": csv.QUOTE_MINIMAL if d[1] else csv.QUOTE_NONE}
        if d[3]:
            a["strict"] = True
        if form == "name":
            csv.register_dialect("sim-c06", **a)
            return "sim-c06", {}
        return type("user", (csv.Dialect,), a)(), {}
    return SimpleDialect(d[0], d[1], d[2], strict=bool(d[3])), {}


class Text(str):
    """Lines may be of a subclass of str."""


class Drained(Exception):
    """The endless source was asked for more lines than any record needs."""


class Source:
    """A line source under control of the scenario."""

    def __init__(self, items, endless):
        self.items, self.endless = items, endless
        self.pulled = 0
        self.given = 0                      # lines handed out, without exceptions
        self.resumes = True
        self.exc = None
        self.fired = None

    def __iter__(self):
        return self

    def __next__(self):
        i = self.pulled
        if i >= len(self.items):
            if not self.endless or not self.items:
                raise StopIteration
            if i > 300:
                self.exc = Drained()
                raise self.exc
            x = "e%d,f\n" % i
        else:
            x = self.items[i]
        self.pulled += 1
        if isinstance(x, list):
            if x[0] == "sub":
                self.given += 1
                return Text(x[1])
            if x[0] == "raise":
                self.exc = make_exc(x[1])
                self.fired = x[1]
                raise self.exc
            self.fired = "non_text"
            self.given += 1
            if x[0] == "bytes":
                return x[1].encode("utf-8")
            if x[0] == "int":
                return x[1]
            if x[0] == "none":
                return None
            raise Invalid("item")
        self.given += 1
        return x


class ModelReader:
    """The reference reader.  `resumable` tells whether the last exception came from a source that can go on, before any
    line of the next record had been consumed: then no data is lost and reading continues with the next record."""

    def __init__(self, src, args):
        self.src, self.args = src, args
        self.gen = None
        self.resumable = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.gen is None:
            self.gen = model.records(self.src, *self.args)
        at = self.src.given
        try:
            return next(self.gen)
        except StopIteration:
            raise
        except BaseException as e:
            self.resumable = e is self.src.exc and self.src.given == at and self.src.resumes
            if self.resumable:
                self.gen = None
            raise


class ModelDicts:
    def __init__(self, rec, names, rest):
        self.rec, self.names, self.rest = rec, names, rest
        self.hdr = 0

    @property
    def resumable(self):
        return self.rec.resumable

    def __iter__(self):
        return self

    def __next__(self):
        if self.names is None:
            self.names = next(self.rec)
            self.hdr += 1
        while True:
            row = next(self.rec)
            self.hdr += 1
            if row != []:
                return next(model.dicts([row], self.names, self.rest[0], self.rest[1]))


def own(x):
    """A record as the caller got it; what the caller does with it afterwards must not matter."""
    if isinstance(x, dict):
        r = dict(x)
        x["mine"] = "mine"
    else:
        r = list(x)
        x.append("mine")
    return r


class NotIterable:
    """A source that fails when it is asked for its iterator."""

    def __init__(self, name):
        self.exc = make_exc(name) if name != "type" else TypeError("simulated")

    def __iter__(self):
        raise self.exc


class C06(core.BatchProperty):
    id = "C06"
    quick_runs = 7000
    thorough_runs = 600000
    batch = 25
    preload = ("clevercsv.read", "clevercsv.dict_read_write", "csv", "warnings")
    rule = ("counts distinct (reader kind, dialect, consumption schedule, way of ending, number of records, records spanning "
            "several lines); non-trivial when at least two records were delivered or an error was reported")
    real = ["clevercsv.reader, clevercsv.DictReader, field_size_limit, C parser"]
    stub = ["the line source: a simulated producer that can fail, misbehave or never end"]
    assumptions = ["the reference parser (sim/model.py) defines records and the lines each one needs",
                   "after an error a reader has to go on only when the source can and no line of the next record had been consumed"]

    def gen(self, ctx, rng):
        d = gen.dialect(rng)
        if rng.random() < 0.0006:
            row = [rng.choice(["a", "12", "x" * 50, "é", "two\nlines", 'q"q', ""]) for _ in range(rng.randint(1, 4))]
            return {"stream": {"fn": rng.choice(["table", "dicts"]), "dialect": [d[0] or ",", '"', "", 0], "row": row,
                               "size": rng.choice([600000, 1000000, 3000000]), "take": rng.choice([1, 1, 2, 7]),
                               "opt_detect": rng.random() < 0.3, "opt_drop": rng.random() < 0.5}}
        n = rng.choice([1, 1, 2])
        readers = []
        for _ in range(n):
            r = rng.random()
            if r < 0.5:
                text = gen.serialize(gen.table(rng, 8, 4), d[0] or ",", d[1], d[2], rng.choice(["\n", "\r\n", "\r"]),
                                     rng.choice(["minimal", "all", "none"]), rng.random() < 0.7)
                if rng.random() < 0.15:
                    text += rng.choice([d[2] or "\\", d[1] or '"', d[0] or ",", "x" + (d[2] or "\\")])
                items = model.lines_of(text)
            elif r < 0.85:
                text = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 25)))
                items = model.lines_of(text)
            else:
                items = ["".join(rng.choice(PIECES) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(0, 6))]
            if rng.random() < 0.2:
                items = list(items)
                if rng.random() < 0.3:
                    items.insert(rng.choice([0, 0, rng.randint(0, len(items))]), ["raise", rng.choice(sorted(RAISES))])
                items.insert(rng.randint(0, len(items)),
                             rng.choice([["raise", rng.choice(sorted(RAISES))], ["raise", rng.choice(sorted(RAISES))],
                                         ["bytes", "a,b\n"], ["int", 3], ["none"], "a\0b\n", "a\nb\n", ["sub", "a,b\n"], ["sub", '"x']]))
            rd = {"kind": rng.choice(["reader", "reader", "dict"]), "dialect": [*d, int(rng.random() < 0.15)],
                  "lines": items, "opt_endless": rng.random() < 0.15}
            rd["src"] = rng.choice(["iter", "iter", "list", "tuple", "gen"])
            rd["opt_form"] = rng.choice(["simple", "simple", "simple", "params", "instance", "name", "override"])
            if rd["kind"] == "dict" and rng.random() < 0.3:
                rd["opt_fieldnames"] = ["f1", "f2", "f3", "f1"][:rng.choice([0, 1, 1, 2, 2, 3, 3, 4])]
            if rd["kind"] == "dict" and rng.random() < 0.3:
                rd["opt_rest"] = rng.choice([["REST", "VAL"], ["REST", "VAL"], ["f1", ""], ["a", None], ["", "VAL"]])
            if rng.random() < 0.02:
                rd["opt_noiter"] = rng.choice(sorted(RAISES) + ["type"])
            readers.append(rd)
        limit = {}
        if rng.random() < 0.25:
            limit = {"opt_limit": rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 9])}
        steps = []
        for _ in range(rng.randint(1, 9)):
            k = rng.choice(["next", "next", "next", "for", "for", "islice", "iter", "names", "names", "setnames"])
            if k == "setnames" and rng.random() < 0.5:
                k = "next"
            steps.append([rng.randrange(n), k, rng.randint(1, 4) if k in ("for", "islice", "setnames") else 0])
        for i in range(n):
            if rng.random() < 0.8:
                steps.append([i, rng.choice(["list", "drain", "drainfor"]), 0])
                if rng.random() < 0.4:
                    steps.append([i, rng.choice(["list", "drain", "drainfor"]), 0])
        return {"readers": readers, "steps": steps, **limit}

    def names(self, s):
        """The header of a dictionary reader, asked for at any time."""
        if s["r"]["kind"] != "dict" or s["over"] == "error":
            return None
        m = s["model"]
        want = None
        try:
            if m.names is None:
                m.names = next(m.rec)
                m.hdr += 1
            want = ("names", list(m.names))
        except StopIteration:
            want = ("names", None)
        except BaseException as e:
            want = ("error", e)
        try:
            got = s["rd"].fieldnames
            got = ("names", got if got is None else list(got))
        except BaseException as e:
            got = ("error", e)
        if want[0] == "error":
            if not (m.resumable and want[1] is s["msrc"].exc):
                s["over"] = "error"
            if got[0] != "error":
                return Violation("no-error", "the header is %r; expected %r" % (got, want[1]))
            if isinstance(want[1], model.ModelError):
                if not isinstance(got[1], Exception) or isinstance(got[1], (SystemError, MemoryError)):
                    return Violation("error-type", "asked for the header the reader raised %r" % (got[1],))
            elif got[1] is not s["src"].exc:
                return Violation("changed-exception", "the source raised %r but the caller got %r" % (s["src"].exc, got[1]))
            return None
        if got != want:
            return Violation("header", "the header is %r; expected %r" % (got[1], want[1]))
        if s["watched"] and s["src"].pulled != s["msrc"].pulled:
            return Violation("not-lazy", "after giving the header the reader had consumed %d lines; %d are needed" % (s["src"].pulled, s["msrc"].pulled))
        if want[1] is not None and s["rd"].line_num != m.hdr:
            return Violation("count", "after %d records line_num is %d" % (m.hdr, s["rd"].line_num))
        return None

    def stream(self, ctx, c, st):
        """Records of a large file arrive while only its beginning has been read."""
        import clevercsv
        import warnings
        warnings.simplefilter("ignore")
        d = c["dialect"]
        if len(d) != 4 or not isinstance(d[2], str) or d[0] in ("", d[1]) or c["take"] > 7 or c["size"] < 300000:
            raise Invalid("stream")
        clevercsv.field_size_limit(128 * 1024)
        one = gen.serialize([c["row"]], d[0], d[1], "", "\n")
        if not one.strip() or not c["size"] <= 1 << 23:
            raise Invalid("row")
        text = "".join("n%d" % i + d[0] for i in range(len(c["row"]))) + "last\n"
        text += ("r" + d[0] + one) * (c["size"] // (len(one) + 2))
        path = os.path.realpath(ctx.path("io"))
        ctx.put("io/stream.csv", text.encode())
        path = os.path.join(path, "stream.csv")
        kw = {"encoding": "utf-8", "dialect": clevercsv.dialect.SimpleDialect(*d[:3])}
        if c.get("opt_detect"):
            kw["num_chars"] = 2000
            del kw["dialect"]
        want = [x for x in itertools.islice(model.records(model.lines_of(text[:5000]), *d[:3], False), 9)]
        if c["fn"] == "dicts":
            want = list(model.dicts(want))
        try:
            it = iter((clevercsv.stream_table if c["fn"] == "table" else clevercsv.stream_dicts)(path, **kw))
        except clevercsv.exceptions.NoDetectionResult:
            return []
        need = 0
        try:
            for i in range(c["take"]):
                try:
                    row = next(it)
                except clevercsv.exceptions.NoDetectionResult:
                    return []
                if "dialect" in kw and (row if c["fn"] == "table" else dict(row)) != want[i]:
                    return [Violation("record", "record %d of a file is %r; expected %r" % (i, row, want[i]))]
                pos = []
                for n in os.listdir("/proc/self/fd"):
                    try:
                        if os.readlink("/proc/self/fd/" + n) == path:
                            pos.append(os.lseek(int(n), 0, os.SEEK_CUR))
                    except OSError:
                        pass
                need = 8 * (len(one) + 50) * (i + 3) + 262144
                if not pos or max(pos) > need:
                    return [Violation("not-lazy", "after %d records of a file of %d bytes %s" % (
                        i + 1, len(text.encode()), "%d bytes had been read" % max(pos) if pos else "the file was read and closed"))]
        finally:
            if c.get("opt_drop"):
                del it
            elif hasattr(it, "close"):
                it.close()
        st.add("probe:streamed_large_file")
        return []

    def one(self, ctx, item, st):
        if "stream" in item:
            return self.stream(ctx, item["stream"], st)
        import clevercsv
        import warnings
        warnings.simplefilter("ignore")
        sims = []
        limit = item.get("opt_limit")
        clevercsv.field_size_limit(128 * 1024 if limit is None else limit)
        for r in item["readers"]:
            d = r["dialect"]
            if r.get("opt_endless") and not any(isinstance(x, list) for x in r["lines"]) and r["kind"] == "reader":
                endless = True
            else:
                endless = False
            src = Source(r["lines"], endless)
            feed = src
            plain = not any(isinstance(x, list) for x in r["lines"])
            if r.get("src") in ("list", "tuple") and plain and not endless:
                feed = list(r["lines"]) if r["src"] == "list" else tuple(r["lines"])
            elif r.get("src") == "gen":
                feed = (x for x in src)
            dialect, fmt = make_dialect(d, r.get("opt_form"))
            if r.get("opt_noiter"):
                bad = NotIterable(r["opt_noiter"])
                try:
                    got = list(clevercsv.reader(bad, dialect, **fmt) if r["kind"] == "reader" else clevercsv.DictReader(bad, dialect=dialect, **fmt))
                except BaseException as e:
                    got = e
                st.add("fault:source_without_iterator")
                if r["opt_noiter"] == "type":
                    if not isinstance(got, TypeError):
                        return [Violation("no-error", "the %s of a source that is not iterable ended with %r" % (r["kind"], got))]
                elif got is not bad.exc:
                    return [Violation("changed-exception", "the source's __iter__ raised %r but the caller got %r" % (bad.exc, got))]
            if r["kind"] == "reader":
                rd = clevercsv.reader(feed, dialect, **fmt)
            else:
                rest = r.get("opt_rest") or [None, None]
                rd = clevercsv.DictReader(feed, fieldnames=r.get("opt_fieldnames"), restkey=rest[0], restval=rest[1], dialect=dialect, **fmt)
            msrc = Source(r["lines"], endless)
            msrc.resumes = r.get("src") != "gen"
            mrec = ModelReader(msrc, (d[0], d[1], d[2], bool(d[3]), 128 * 1024 if limit is None else limit))
            sims.append({"r": r, "rd": rd, "src": src, "watched": not isinstance(feed, (list, tuple)), "msrc": msrc, "mrec": mrec, "n": 0, "over": False})
            sims[-1]["model"] = mrec if r["kind"] == "reader" else ModelDicts(mrec, r.get("opt_fieldnames"), r.get("opt_rest") or [None, None])
        why = []

        def pull(s, nxt):
            """One step of the real reader against one step of the model."""
            if s["over"] == "error":
                return None
            try:
                got = ("row", nxt())
            except StopIteration:
                got = ("end",)
            except BaseException as e:
                got = ("error", e)
            try:
                want = ("row", next(s["model"]))
            except StopIteration:
                want = ("end",)
            except BaseException as e:
                want = ("error", e)
            if got[0] == "error" and isinstance(got[1], Drained) and not (want[0] == "error" and isinstance(want[1], Drained)):
                return Violation("drained", "the reader drained an endless source")
            kind = s["r"]["kind"]
            given = got[1] if got[0] == "row" else None
            if got[0] == "row" and kind == "dict":
                got = ("row", dict(got[1]))
            if want[0] == "error":
                if s["model"].resumable and want[1] is s["msrc"].exc:
                    st.add("probe:resumed")
                else:
                    s["over"] = "error"
                if got[0] != "error":
                    return Violation("no-error", "the %s returned %r; expected %r" % (kind, got, want[1]))
                st.add("probe:error")
                if isinstance(want[1], model.ModelError):
                    if not isinstance(got[1], Exception) or isinstance(got[1], (SystemError, MemoryError)):
                        return Violation("error-type", "the %s raised %r" % (kind, got[1]))
                elif got[1] is not s["src"].exc:
                    return Violation("changed-exception", "the source raised %r but the caller got %r" % (s["src"].exc, got[1]))
                return "error"
            if got[0] == "error":
                return Violation("spurious", "the %s raised %r; expected %r" % (kind, got[1], want))
            if got != want:
                return Violation("record", "record %d: the %s returned %r; expected %r" % (s["n"], kind, got, want))
            if s["watched"] and s["src"].pulled != s["msrc"].pulled:
                return Violation("not-lazy", "after record %d the %s had consumed %d lines; %d are needed"
                                 % (s["n"], kind, s["src"].pulled, s["msrc"].pulled))
            if got[0] == "end":
                s["over"] = "end"
                return StopIteration
            # a record belongs to the caller
            given.append("mine") if kind == "reader" else given.update({"mine": "mine"})
            s["n"] += 1
            count = s["rd"].line_num
            need = s["n"] if kind == "reader" else s["model"].hdr
            if count != need:
                return Violation("count", "after %d records line_num of the %s is %d" % (need, kind, count))
            return None

        for who, how, k in item["steps"]:
            if who >= len(sims):
                raise Invalid("step")
            s = sims[who]
            rd = s["rd"]
            if how == "iter":
                iter(rd)
                continue
            if how == "setnames":
                if s["r"]["kind"] == "dict" and s["over"] != "error":
                    names = ["s%d" % j for j in range(k or 2)]
                    rd.fieldnames = names
                    s["model"].names = list(names)
                    st.add("probe:header_assigned")
                continue
            if how == "names":
                v = self.names(s)
                if isinstance(v, Violation):
                    return [v]
                continue
            if how in ("list", "drain", "drainfor") and s["src"].endless:
                k, how = 6, "for"
            if how == "next":
                v = pull(s, lambda: next(rd))
                if isinstance(v, Violation):
                    return [v]
            elif how == "for":
                it = iter(rd)
                for _ in range(k):
                    v = pull(s, lambda: next(it))
                    if isinstance(v, Violation):
                        return [v]
                    if v:
                        break
            elif how == "islice":
                sl = itertools.islice(rd, k)
                for _ in range(k):
                    v = pull(s, lambda: next(sl))
                    if isinstance(v, Violation):
                        return [v]
                    if v:
                        break
            elif s["over"] != "error":
                if how == "list":
                    try:
                        got = [("row", own(x)) for x in rd]
                        got.append(("end",))
                        it = iter(got)

                        def step():
                            x = next(it)
                            if x[0] == "end":
                                raise StopIteration
                            return x[1]
                        bulk = True
                    except BaseException as e:
                        # records before the error are lost to list(); only the error counts
                        while True:
                            try:
                                next(s["model"])
                                s["n"] += 1
                            except StopIteration:
                                return [Violation("spurious", "list() raised %r" % e)]
                            except BaseException as m:
                                if not (s["model"].resumable and m is s["msrc"].exc):
                                    s["over"] = "error"
                                if not isinstance(m, model.ModelError) and e is not s["src"].exc:
                                    return [Violation("changed-exception", "the source raised %r but the caller got %r" % (s["src"].exc, e))]
                                st.add("probe:error")
                                break
                        continue
                    want = []
                    try:
                        for x in s["model"]:
                            want.append(("row", x))
                        want.append(("end",))
                    except BaseException as m:
                        want.append(("error", repr(m)))
                    if got != want:
                        return [Violation("record", "list() returned %r; expected %r" % (got, want))]
                    s["n"] += len(want) - 1
                    s["over"] = "end"
                else:
                    it = iter(rd) if how == "drainfor" else rd
                    for _ in range(400):
                        v = pull(s, lambda: next(it))
                        if isinstance(v, Violation):
                            return [v]
                        if v is StopIteration or s["over"]:
                            break
        for s in sims:
            if s["n"] > 1 or s["over"] == "error":
                st.seen("nontrivial", (s["r"]["kind"], s["r"]["dialect"], [x[1] for x in item["steps"]], s["over"], s["n"], s["src"].pulled))
            st.add("records", s["n"])
            if s["src"].fired:
                st.add("fault:source_raises_" + s["src"].fired)
            if s["src"].endless:
                st.add("probe:endless_source")
            if s["over"] == "end":
                st.add("probe:exhausted")
        return []


PROP = C06()
