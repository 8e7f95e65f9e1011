"""C09: detection is deterministic."""
import json, os, random, subprocess, sys

from .. import core, gen
from ..core import HarnessError, Invalid, Violation

FILE_JOBS = ("encoding", "file", "cli")


class Interpreter:
    def __init__(self, hash_seed, verif):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        self.p = subprocess.Popen([sys.executable, os.path.join(verif, "sim", "hashserver.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("interpreter ended")
        return json.loads(line)


class C09(core.Property):
    id = "C09"
    quick_runs = 9000
    thorough_runs = 60000
    no_shrink = ("hash",)
    preload = ("subprocess", "json")
    rule = ("counts distinct (kind of job, method, result, number of views); non-trivial when the views used at least two interpreter hash seeds "
            "or two different histories")
    real = ["clevercsv detector, normal form, consistency measure, tie breaking, encoding detection, detect and code commands"]
    stub = ["the interpreter's hash randomisation is chosen by the scenario (one process per hash seed)",
            "clocks (date and speed of the machine), the random module, the layout of memory and the field size limit are set by the scenario"]
    assumptions = ["the order of offered delimiters is varied for the consistency measure only; the normal form check honours the given order"]

    _pool = {}

    def interpreter(self, h):
        if h not in self._pool:
            self._pool[h] = Interpreter(h, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        return self._pool[h]

    # ---------------------------------------------------------------- scenarios
    def gen_text(self, rng):
        r = rng.random()
        if r < 0.12:
            # few cell texts that occur again and again, with and without quotes
            cells = [rng.choice(["a, b", "x,y", "1,2", "k, l m", "a-b", "{}", "a:b", "1;2", "nan", "", "a\nb", "é, ü"]) for _ in range(rng.randint(1, 3))]
            d, q = rng.choice([";", "|", "\t", ",", " "]), rng.choice(['"', '"', "'"])
            rows = [[rng.choice(["%s", q + "%s" + q]) % rng.choice(cells) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.randint(1, 4))]
            return "\n".join(d.join(x) for x in rows) + rng.choice(["", "\n"])
        if r < 0.35:
            # several characters that may be escapes, in front of quotes: ties between three or more dialects
            q = rng.choice([["'"], ['"'], ["'", '"']])
            e = rng.sample(["\\", "@", "~", "^", "`", "/", "#", "&", "*"], rng.randint(1, 3))
            toks = [rng.choice(e) + rng.choice(q) for _ in range(3)] + q + [rng.choice(q) * 2, rng.choice(["a", "1", "\n", "|", ","])]
            return "".join(rng.choice(toks) for _ in range(rng.randint(2, 9)))
        if r < 0.55:
            # few symbols: ties between dialects
            syms = rng.sample([",", ";", "|", "\t", " ", ":", "@", "`", "~", "-", "^", "*", "#", "%", "/"], rng.randint(1, 3))
            syms += rng.sample(["'", '"', "\\", "a", "1", "x1", "\n", "\n", "\r\n", "'", '"', "\\'", '\\"', '""', "é"], rng.randint(3, 6))
            return "".join(rng.choice(syms) for _ in range(rng.randint(4, 40)))
        if r < 0.7:
            # the same cells with one delimiter inside cells of the other
            a, b = rng.sample([",", ";", "|", "\t", " ", ":", "-", "."], 2)
            rows = [[b.join(rng.choice(gen.TYPED + gen.WORDS) for _ in range(rng.choice([1, 2, 2]))) for _ in range(3)]
                    for _ in range(rng.randint(1, 5))]
            return gen.serialize(rows, a, rng.choice(['"', "'", ""]), rng.choice(["", "\\"]), "\n", rng.choice(["minimal", "all", "none"]))
        return gen.text(rng)[:400]

    def gen_delims(self, rng):
        if rng.random() < 0.7:
            return None
        ds = rng.sample([",", ";", "|", "\t", " ", ":", "@", "-"], rng.randint(1, 5))
        return [rng.choice(["list", "tuple", "str", "iter"]), ds]

    def gen_job(self, rng):
        k = rng.choice(["detect"] * 6 + ["scores", "scores", "sniff", "header", "encoding", "file", "cli"])
        j = {"kind": k}
        if k in ("detect", "sniff", "header", "scores"):
            j["text"] = self.gen_text(rng)
            if k != "header":
                j["delims"] = self.gen_delims(rng)
            if k == "detect":
                j["method"] = rng.choice(["auto", "consistency", "consistency", "normal"])
        else:
            enc, data = gen.encoded(rng, self.gen_text(rng))
            j["data"] = data.hex()
            if k == "encoding":
                if rng.random() < 0.3:
                    j["data"] = (data * rng.randint(1, 30) + bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))).hex()
                j["fast"] = rng.random() < 0.5
            if k == "file":
                j["encoding"] = rng.choice([enc, None])
                j["num_chars"] = rng.choice([None, 5, 100])
                j["method"] = rng.choice(["auto", "consistency", "normal"])
            if k == "cli":
                j["argv"] = rng.choice([["detect", "-j"], ["detect", "-c"], ["detect", "-p"], ["code"], ["code", "-p"]])
                if rng.random() < 0.7:
                    j["argv"] = j["argv"] + ["-e", enc]
        return j

    def related(self, rng, j):
        """A job that a careless cache would confuse with j."""
        j = dict(j)
        if "text" in j:
            r = rng.random()
            t = j["text"]
            if r < 0.25 and t:
                i = rng.randrange(len(t))
                j["text"] = t[:i] + rng.choice([",", ";", "|", "'", '"', "a", "1"]) + t[i + 1:]
            elif r < 0.4:
                j["text"] = t + rng.choice(["\n", "x", "a,b\n", "1;2\n"])
            elif r < 0.5:
                j["text"] = t[::-1]
            elif r < 0.8 and "delims" in j:
                j["delims"] = self.gen_delims(rng)
            elif j["kind"] == "detect":
                j["method"] = rng.choice(["auto", "consistency", "normal"])
        return j

    def run_seed(self, ctx, rng, st):
        jobs = [self.gen_job(rng) for _ in range(rng.randint(1, 3))]
        for _ in range(rng.randint(0, 3)):
            jobs.insert(rng.randint(0, len(jobs)), self.related(rng, rng.choice(jobs)))
        pool = random.Random(core.seed_for(ctx.seed, "hashes"))
        hashes = [0] + [pool.randrange(1, 2**32 - 1) for _ in range(7 if ctx.tier == "quick" else 15)]
        views = []
        for i in range(rng.randint(3, 5)):
            order = list(range(len(jobs)))
            if rng.random() < 0.6:
                rng.shuffle(order)
            if rng.random() < 0.3:
                order = order + [rng.choice(order)]
            if rng.random() < 0.2:
                order = [rng.choice(order)]      # no history at all
            views.append({"hash": rng.choice(hashes), "order": order, "shared": rng.random() < 0.5,
                          "skip": rng.random() < 0.5, "verbose": rng.random() < 0.25,
                          "capacity": rng.choice([None, None, 0, 1, 2, 17, 100000]), "perm": rng.randrange(4)})
            if rng.random() < 0.5:
                views[-1].update({"opt_tick": rng.choice([1, 10**6, 3 * 10**9, 10**13]), "opt_random": rng.randrange(1 << 20),
                                  "opt_date": rng.choice([0, 0, 86400 * 10**9 * 3650, 86400 * 10**9 * 20000])})
            if rng.random() < 0.25:
                views[-1]["opt_limit"] = rng.choice([0, 1, 2, 5, 10**9])
            if rng.random() < 0.5:
                views[-1]["opt_noise"] = rng.choice([1, 10, 300, 3001])
        self.case(ctx, {"jobs": jobs, "views": views}, st)

    def check(self, ctx, sc, st):
        jobs, views = sc["jobs"], sc["views"]
        n = len(jobs)
        if not views or any(i >= n for v in views for i in v["order"]):
            raise Invalid("views")
        got = {}
        ctx.clean()
        for vi, v in enumerate(views):
            js = []
            for j in jobs:
                j = dict(j)
                if j.get("delims") and (j["kind"] == "scores" or j.get("method") == "consistency") and v["perm"]:
                    ds = list(j["delims"][1])
                    random.Random(v["perm"]).shuffle(ds)
                    j["delims"] = ["set" if v["perm"] == 2 else j["delims"][0], ds]
                js.append(j)
            ctx.forks += 1
            r = self.interpreter(v["hash"]).ask({"jobs": js, "view": v, "path": ctx.path("fs0/in.csv"), "root": ctx.root})
            if "error" in r:
                raise HarnessError(r["error"])
            if "died" in r:
                return [Violation("died", "detection ended the process with status %s" % r["died"])]
            ctx.trace.update(json.dumps(r, sort_keys=True).encode())
            for i, rs in r.items():
                for k, x in enumerate(rs):
                    got.setdefault(int(i), []).append((vi, k, x))
        hs = len({v["hash"] for v in views})
        st.add("fault:hash_seed_change", hs - 1)
        for i, results in sorted(got.items()):
            j = jobs[i]
            st.add("probe:result_" + results[0][2][0])
            if len(results) > 1:
                st.seen("nontrivial", (j["kind"], j.get("method"), results[0][2], j.get("text"), j.get("data"), len(results)))
            base = results[0]
            for x in results[1:]:
                d = differ(j, base[2], x[2])
                if d:
                    a, b = views[base[0]], views[x[0]]
                    return [Violation("nondeterministic", "%s %s of %r: %s; difference of the two executions: %s" % (
                        j["kind"], j.get("method", ""), j.get("text", j.get("data"))[:120], d,
                        ", ".join("%s %s/%s" % (k, a.get(k), b.get(k)) for k in sorted({**a, **b}) if a.get(k) != b.get(k)) or "repetition"))]
        return []


def differ(j, a, b):
    if j["kind"] == "scores" and a[0] == b[0] == "ok":
        da, db = ({json.dumps(x[0]): x[1:] for x in y[1]} for y in (a, b))
        if set(da) != set(db):
            return "different dialects considered: %s" % sorted(set(da) ^ set(db))[:4]
        for k in da:
            for name, x, y in zip("PTQ", da[k], db[k]):
                if x is not None and y is not None and x != y:
                    return "%s of %s is %r or %r" % (name, k, x, y)
        return None
    if a != b:
        return "%r or %r" % (a, b)
    return None


PROP = C09()
