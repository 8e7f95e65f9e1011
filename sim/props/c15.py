"""C15: commands print a complete answer or fail."""
import io, json, os, sys
from itertools import zip_longest

from .. import core, gen, model, opmix, ops, oracle, osim
from ..core import Violation

OUT = "io/stdout"


class Raw(io.FileIO):
    pass


class Buf(io.BufferedWriter):
    touched = False

    def write(self, b):
        self.touched = True
        return super().write(b)


class Text(io.TextIOWrapper):
    touched = False

    def write(self, s):
        self.touched = True
        return super().write(s)


class Memory:
    """MemoryError at the n-th line executed in clevercsv, unless printing has begun."""

    def __init__(self, ctx, at, stdout):
        self.ctx, self.at, self.stdout, self.n, self.fired = ctx, at, stdout, 0, False
        self.base = os.path.join(os.environ["VERIF_STAGE"], "clevercsv") + os.sep

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.base):
            return None
        if event == "line":
            self.n += 1
            if self.n == self.at and not self.printing():
                self.fired = True
                raise MemoryError("simulated")
        return self

    def printing(self):
        return self.stdout.touched or self.stdout.buffer.touched or \
            any(o["path"] == OUT and o["kind"] in ("write", "copy") for o in self.ctx.os.log(data=False))


class C15(core.Property):
    id = "C15"
    quick_runs = 700
    thorough_runs = 30000
    preload = opmix.PRELOAD
    rule = ("counts distinct (command and options, sequence of operation kinds with the fault each met, line or allocation where "
            "memory ran out, exit status); non-trivial when a planned fault fired or the answer is not empty")
    real = ["clevercsv detect, code and standardize through the console entry point; detection, reader, writer, C extensions",
            "CPython io with standard output on a simulated file, flushed as the interpreter does when it exits"]
    stub = ["libc file calls pass through libsimos", "MemoryError is raised at chosen lines by the trace hook, malloc of the extensions by the linker's wrap"]
    assumptions = ["memory runs out while the answer is computed, not between the lines in which it is printed",
                   "the answer without faults is judged by the reference parser and by running the generated code"]

    # -------------------------------------------------------------- scenarios
    def gen_files(self, rng, n):
        files, encs = {}, []
        for i in range(n):
            t = opmix.small_text(rng)
            if rng.random() < 0.06:
                t = gen.serialize(gen.table(rng, 8, 4, min_rows=3) * rng.choice([40, 300, 1000]), rng.choice(";|\t"), '"')[:60000]
            enc, data = gen.encoded(rng, t)
            if rng.random() < 0.1:
                k = rng.choice([rng.randint(0, len(data)), len(data)])
                data = data[:k] + rng.choice([b"\xff\xfe", b"\xc3\x28", b"\x81", b"\0"]) + data[k:]
            files["fs0/d/in%d.csv" % i] = data.hex()
            encs.append(enc)
        return files, encs

    def run_seed(self, ctx, rng, st):
        cmd = rng.choice(["detect", "detect", "code", "standardize", "standardize"])
        n = 1 if cmd != "standardize" or rng.random() < 0.75 else rng.randint(2, 3)
        files, encs = self.gen_files(rng, n)
        a = [cmd]
        if cmd == "detect":
            a += rng.choice([[], ["-j"], ["-p"], ["-c"], ["--no-skip"], ["-c", "-j"], ["-p", "--no-skip"]])
        elif cmd == "code":
            a += rng.choice([[], [], ["-p"]])
        elif rng.random() < 0.25:
            a.append("-t")
        r = rng.random()
        if r < 0.6:
            if n == 1 or rng.random() < 0.8:
                for e in encs:
                    a += ["-e", e]
            else:
                a += ["-e", encs[0]]
        if rng.random() < 0.15:
            a += ["-n", str(rng.choice([1, 3, 20, 200, 9000]))]
        if cmd == "standardize" and rng.random() < 0.05:
            a += ["-E", rng.choice(["utf-8", "utf-16", "latin-1"])]
        sc = {"seed": rng.randrange(1 << 32), "files": files, "argv": a + ["@" + f for f in sorted(files)], "faults": [], "knobs": {},
              "stdout": rng.choice(["utf-8"] * 6 + ["ascii", "latin-1", "utf-16"])}
        if rng.random() < 0.12:
            sc["opt_verbose"] = True
        if rng.random() < 0.15:
            sc["opt_line"] = True
        if rng.random() < 0.04:
            del files[rng.choice(sorted(files))]       # a name that does not exist
        if rng.random() < 0.015:
            t = gen.serialize([[gen.cell(rng, 0.05, 0) for _ in range(4)] for _ in range(50)] * rng.choice([150, 300]), rng.choice(";|\t"), '"')
            sc["files"] = files = {"fs0/d/in0.csv": t.encode().hex()}
            sc["argv"] = [cmd] + ([] if cmd != "standardize" or rng.random() < 0.7 else ["-t"]) + ["-e", "utf-8", "-n", "3000", "@fs0/d/in0.csv"]
        if "-e" in sc["argv"] and rng.random() < 0.1:
            sc["opt_locale"] = "C"
        total = sum(len(v) // 2 for v in files.values())
        if rng.random() < 0.2:
            sc["knobs"]["rd_max"] = rng.choice([1, 5, 60]) if total < 400 else (rng.choice([700, 5000]) if total < 100000 else 40000)
        if rng.random() < 0.3:
            sc["knobs"]["wr_max"] = rng.choice([1, 5, 60]) if total < 400 else (rng.choice([700, 5000]) if total < 100000 else 40000)
        ref = self.reference(ctx, sc)
        self.case(ctx, sc, st)
        log = ref["log"]
        for _ in range(3):
            s2 = dict(sc)
            s2["faults"], s2["knobs"] = [], dict(sc["knobs"])
            r = rng.random()
            if r < 0.3:
                f = gen.error_at(rng, log, where=lambda o: o["path"] != OUT)
                if f:
                    s2["faults"] = [f]
            elif r < 0.37:
                f = gen.interrupt_at(rng, log)
                if f:
                    s2["faults"] = [f]
            elif r < 0.6:
                f = gen.error_at(rng, log, where=lambda o: o["path"] == OUT)
                if f:
                    if rng.random() < 0.3 and f["kinds"] == ["write"]:
                        f["errno"] = "EPIPE"
                    s2["faults"] = [f]
            elif r < 0.7:
                w = sum(o["ret"] for o in log if o["kind"] == "write" and o["ret"] > 0)
                if w:
                    s2["knobs"]["capacity"] = 1 + rng.randrange(w)
            elif r < 0.82 and ref["allocs"]:
                s2["alloc"] = 1 + rng.randrange(ref["allocs"])
            elif not sc.get("opt_verbose") and ref["lines"]:
                x = rng.random()
                s2["line"] = 1 + (rng.randrange(ref["lines"]) if x < 0.5 else max(0, ref["lines"] - 1 - rng.randrange(min(60, ref["lines"]))))
            if s2["faults"] or s2["knobs"] != sc["knobs"] or s2.get("alloc") or s2.get("line"):
                self.case(ctx, s2, st)

    # ------------------------------------------------------------------- runs
    def execute(self, ctx, sc, argv):
        ctx.clean()
        ctx.os.reset(sc.get("seed", 0))
        for d in ("fs0/d", "fs0/tmp"):
            os.makedirs(ctx.path(d), exist_ok=True)
        for rel, h in sc["files"].items():
            ctx.put(rel, bytes.fromhex(h))
        av = (["-v"] if sc.get("opt_verbose") else []) + [ctx.path(x[1:]) if x.startswith("@") else x for x in argv]

        def fn():
            os.chdir(ctx.path("fs0/d"))
            ops.set_tmp(ctx, "fs0/tmp")
            old = sys.stdout, sys.stderr
            raw = Raw(ctx.path(OUT), "w")
            out = Text(Buf(raw), encoding=sc.get("stdout", "utf-8"), newline="\n", line_buffering=bool(sc.get("opt_line")))
            mem = Memory(ctx, sc.get("line", 0), out)
            sys.stdout, sys.stderr = out, io.StringIO()
            ops.arm(ctx, sc)
            L = ctx.os.lib
            L.sim_alloc_arm_ext(sc.get("alloc", 0) - 1, 1)
            if sc.get("line") or sc.get("count"):
                sys.settrace(mem)
            try:
                res = ops.capture(lambda: ops.cli(av))
            finally:
                sys.settrace(None)
                allocs = L.sim_alloc_disarm()
            res = res[:2] if res[0] != "exc" else (res[0], res[1], res[3])
            # what the interpreter does when it exits, with whatever is standard output by now
            flush = ops.capture(sys.stdout.flush) if sys.stdout is not None and not sys.stdout.closed else ("ok",)
            flush = flush[:2] if flush[0] == "exc" else "ok"
            ctx.os.arm(False)
            err = sys.stderr.getvalue() if isinstance(sys.stderr, io.StringIO) else ""
            sys.stdout, sys.stderr = old
            return {"res": res, "flush": flush, "err": err[-800:], "allocs": allocs, "lines": mem.n,
                    "memfired": mem.fired, "allocfired": L.sim_alloc_failed()}
        o = ctx.run(fn, cpu=60)
        if o.status != "ok":
            raise core.Found(sc, [Violation("died", "clevercsv %s ended with %s" % (" ".join(argv), o.status), stderr=o.stderr[-800:])])
        with open(ctx.path(OUT), "rb") as f:
            o.value["out"] = f.read()
        return o.value

    _cache = {}

    def plain(self, ctx, sc, argv, count=False):
        """The same command without faults."""
        s = {k: v for k, v in sc.items() if k not in ("faults", "knobs", "alloc", "line", "opt_locale")}
        if count:
            s["knobs"] = sc["knobs"]
            s["count"] = 1
        k = json.dumps([s, argv], sort_keys=True)
        if k not in self._cache:
            if len(self._cache) > 40:
                self._cache.clear()
            keep = ctx.trace.copy()
            r = self.execute(ctx, s, argv)
            r["log"] = ctx.os.log(data=False)
            ctx.trace = keep
            self._cache[k] = r
        return self._cache[k]

    def reference(self, ctx, sc):
        return self.plain(ctx, sc, sc["argv"], count=True)

    def split(self, argv):
        """One command line per file."""
        names = [x for x in argv if x.startswith("@")]
        if argv[0] != "standardize" or len(names) < 2:
            return [argv]
        encs = [argv[i + 1] for i, x in enumerate(argv) if x == "-e"]
        rest = []
        skip = False
        for x in argv:
            if skip or x == "-e" or x.startswith("@"):
                skip = x == "-e"
                continue
            rest.append(x)
        if encs and len(encs) not in (1, len(names)):
            raise core.Invalid("encodings")
        out = []
        for i, n in enumerate(names):
            e = ["-e", encs[i if len(encs) > 1 else 0]] if encs else []
            out.append(rest + e + [n])
        return out

    # ------------------------------------------------------------------ judge
    def check(self, ctx, sc, st):
        argv = sc["argv"]
        cmd = " ".join(x.replace("@fs0/d/", "") for x in argv)
        parts = []
        complete = True
        for a in self.split(argv):
            r = self.plain(ctx, sc, a)
            ok = r["res"] == ("ok", 0) and r["flush"] == "ok"
            if not ok:
                complete, r0 = False, r
                if r["out"] and not sc.get("opt_verbose") and "Encode" not in r["res"][1:2] and not self.print_failed(r):
                    return [Violation("partial", "clevercsv %s failed with %r but printed %r" % (" ".join(a), r["res"], r["out"][:200]))]
                break
            parts.append(r["out"])
            v = self.answer(ctx, sc, a, r["out"])
            if v:
                return [v]
        full = b"".join(parts)
        if sc.get("stdout") == "utf-16":
            # one byte order mark, at the start
            parts = [p if i == 0 else p[2:] for i, p in enumerate(parts)]
            full = b"".join(parts)
        r = self.execute(ctx, sc, argv)
        log = ctx.os.log(data=False)
        n = ops.fired(ctx, sc, st)
        st.add("sim_ns", ctx.os.get("mono") - 5000 * 10**9)
        if r["memfired"]:
            st.add("fault:memory_line")
        if r["allocfired"]:
            st.add("fault:memory_native")
        n += r["memfired"] + (r["allocfired"] > 0)
        if n or full:
            st.seen("nontrivial", (argv[:-1], tuple((x["kind"], x["fault"]) for x in log if x["kind"] != "read" or x["fault"] != "none"),
                                   sc.get("line") if r["memfired"] else 0, sc.get("alloc"), r["res"][:2]))
        success = r["res"] == ("ok", 0) and r["flush"] == "ok"
        what = "clevercsv %s%s" % ("-v " if sc.get("opt_verbose") else "", cmd)
        how = "; failing: " + "; ".join(x.strip() for x in osim.brief([x for x in log if x["err"] or x["fault"] != "none"], 4))
        if success:
            st.add("probe:success")
            if not complete and "-n" in argv and "rd_max" in sc["knobs"] and "Unicode" in repr(r0["res"]):
                return []          # shorter reads never got to the bad bytes behind the first characters
            if not complete:
                return [Violation("false-success", "%s reported success but without faults it fails%s" % (what, how),
                                  stdout=repr(r["out"][:300]))]
            if r["out"] != full:
                return [Violation("incomplete", "%s reported success but printed %r instead of %r%s"
                                  % (what, r["out"][:160], full[:160], how), lengths=[len(r["out"]), len(full)])]
            return []
        st.add("probe:failure")
        if r["res"][0] == "ok" and r["flush"] == "ok" and r["res"][1] in (0, None, False):
            return [Violation("false-success", "%s reported %r" % (what, r["res"]))]
        wrote_badly = self.print_failed(r) or any(x["path"] == OUT and (x["err"] or x["fault"] not in ("none", "short")) for x in log)
        if wrote_badly:
            return []
        out = r["out"]
        if sc.get("opt_verbose"):
            if complete and full and len(parts) == 1 and out != b"":
                # the progress messages come first; nothing of the answer may follow them
                quiet = self.plain(ctx, {k: v for k, v in sc.items() if k != "opt_verbose"}, argv)
                if full.endswith(quiet["out"]):
                    head = full[:len(full) - len(quiet["out"])]
                    if not head.startswith(out):
                        return [Violation("partial", "%s failed with %r but printed part of its answer%s" % (what, r["res"], how),
                                          stdout=repr(out[-300:]))]
            return []
        allowed = [b"".join(parts[:i]) for i in range(len(parts) + 1)]
        if n and len(parts) == 1 and complete:
            allowed = [b""]
        if r["memfired"] or any(x["fault"].startswith("sigint") for x in log):
            allowed.append(full)       # it can arrive when everything is printed
        if out not in allowed:
            return [Violation("partial", "%s failed with %r but printed %r (%d bytes), part of the answer%s"
                              % (what, r["res"], out[:160], len(out), how))]
        return []

    def print_failed(self, r):
        return r["flush"] != "ok" or (r["res"][0] == "exc" and "Encode" in r["res"][1])

    def answer(self, ctx, sc, argv, out):
        """Whether the answer given without faults is complete."""
        if sc.get("opt_verbose") or sc.get("stdout") == "utf-16":
            return None
        try:
            text = out.decode(sc.get("stdout", "utf-8"))
        except UnicodeDecodeError:
            return Violation("garbled", "clevercsv %s printed bytes that are not %s" % (" ".join(argv), sc.get("stdout")), out=repr(out[:300]))
        rel = argv[-1][1:]
        data = bytes.fromhex(sc["files"].get(rel, ""))
        enc = argv[argv.index("-e") + 1] if "-e" in argv else None
        nc = int(argv[argv.index("-n") + 1]) if "-n" in argv else None
        kw = {"method": "consistency"} if "-c" in argv else {}
        if "--no-skip" in argv:
            kw["skip"] = False
        k = ("answer", data, enc, nc, repr(kw))

        def fn():
            import clevercsv
            from clevercsv.encoding import get_encoding
            ctx.put("io/oracle.csv", data)
            p = ctx.path("io/oracle.csv")

            def f():
                e = enc or get_encoding(p)
                return e, ops.dialect_tuple(clevercsv.detect_dialect(p, encoding=e, num_chars=nc, **kw))
            return ops.capture(f)
        o = oracle.cached(ctx, k, fn)
        if o.status != "ok":
            return None
        if o.value[0] != "ok" or o.value[1][1] is None:
            return Violation("false-success", "clevercsv %s reported success although detection gives %r" % (" ".join(argv), o.value[:2]))
        e, d = o.value[1]
        cmd = argv[0]
        bad = None
        if cmd == "standardize":
            t = oracle.decode(data, e or "utf-8")
            want = oracle.rows(t, d) if t is not None else ("error", "undecodable")
            if want[0] != "ok":
                bad = "although the input cannot be read: %s" % want[1]
            else:
                rows = want[1]
                if "-t" in argv:
                    rows = [list(c) for c in zip_longest(*rows, fillvalue="")]
                try:
                    back = model.parse_rfc4180(text)
                except ValueError as x:
                    back = x
                if back != rows:
                    bad = "that does not hold the records of the input"
        elif cmd == "detect":
            want = {"delimiter": d[0], "quotechar": d[1], "escapechar": d[2]}
            if "-j" in argv:
                try:
                    got = json.loads(text)
                except ValueError:
                    got = None
                if not isinstance(got, dict) or any(got.get(k) != v for k, v in want.items()):
                    bad = "that is not the dialect %r" % (want,)
            elif "-p" in argv:
                if text.splitlines() != ("delimiter = %s".strip() % d[0] + "\n").splitlines() and \
                   any((("%s = %s" % (k, v)).strip()) not in text for k, v in want.items()):
                    bad = "that is not the dialect %r" % (want,)
            elif any(repr(v) not in text for v in want.values()):
                bad = "that is not the dialect %r" % (want,)
        else:
            try:
                code = compile(text, "<generated>", "exec")
            except (SyntaxError, ValueError) as x:
                code = None
                bad = "that is not Python: %s" % x
            if code is not None and "-p" not in argv:
                t = oracle.decode(data, e or "utf-8")
                want = oracle.rows(t, d) if t is not None else ("error", "undecodable")

                def ex():
                    ns = {}

                    def f():
                        exec(code, ns)
                        return ns.get("rows")
                    return ops.capture(f)
                if want[0] == "ok":
                    keep = ctx.trace.copy()
                    # the file may have been removed by a later layout
                    ctx.put(rel, data)
                    o = ctx.run(ex)
                    ctx.trace = keep
                    if o.status != "ok" or o.value[:2] != ("ok", want[1]):
                        bad = "that gives %r instead of the records of the file" % ((o.status, o.value and o.value[:2]),)
        if bad:
            return Violation("answer", "clevercsv %s printed an answer %s" % (" ".join(argv), bad), out=text[:400], dialect=repr(d))
        return None


PROP = C15()
