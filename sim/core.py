"""Seeds, isolated runs, shrinking: the part of the simulator every property shares."""
import hashlib, json, os, pickle, random, resource, select, shutil, signal, stat, sys, time, traceback

CPU_LIMIT = 20      # seconds of CPU per run; a run normally takes milliseconds
WALL_LIMIT = 150


class Invalid(Exception):
    """The scenario is outside the property's domain (shrinking produces these)."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class Violation:
    def __init__(self, cls, msg, **detail):
        self.cls, self.msg, self.detail = cls, msg, detail

    def to_json(self):
        return {"class": self.cls, "message": self.msg, **({"detail": self.detail} if self.detail else {})}


class Found(Exception):
    def __init__(self, scenario, violations):
        self.scenario, self.violations = scenario, violations


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def from_stage(e):
    """Whether exception e was raised in code of the tree under test."""
    stage = os.environ.get("VERIF_STAGE", "\0")
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(stage):
            return True
        tb = tb.tb_next
    return False


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


def interrupted(sig, frame):
    """SIGINT in a simulated run.  The interpreter may act on it only after the operation under test is over and the
    harness looks at the outcome; it has no effect then."""
    handling = sys.exc_info()[0] is not None
    while frame is not None:
        name = frame.f_code.co_filename
        if not name.startswith(HERE):
            if name.startswith("<generated") or os.sep + "clevercsv" + os.sep in name:
                raise KeyboardInterrupt
        elif frame.f_code.co_name == "perform" and not handling:
            raise KeyboardInterrupt
        frame = frame.f_back


class Outcome:
    """How an isolated run ended: status 'ok' (value holds what it returned),
    'exit:N', 'signal:N', 'hang' or 'exception: ...'."""

    def __init__(self, status, value=None, stderr=""):
        self.status, self.value, self.stderr = status, value, stderr


class Ctx:
    def __init__(self, root, osim, tier="quick"):
        self.root, self.os, self.tier = root, osim, tier
        self.forks = 0
        self.trace = hashlib.sha256()

    # ------------------------------------------------------------ scratch tree
    def path(self, rel):
        return os.path.join(self.root, rel)

    def clean(self):
        for name in os.listdir(self.root):
            p = os.path.join(self.root, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for d in ("fs0", "fs1", "io"):
            os.mkdir(os.path.join(self.root, d))

    def put(self, rel, data, mode=None):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)

    def snapshot(self, sub=("fs0", "fs1")):
        """{relative path: (kind, bytes or link target, mode)}"""
        out = {}
        for s in sub:
            for d, dirs, files in os.walk(self.path(s)):
                dirs.sort()
                for n in sorted(files) + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
                    p = os.path.join(d, n)
                    rel = os.path.relpath(p, self.root)
                    st = os.lstat(p)
                    if stat.S_ISLNK(st.st_mode):
                        out[rel] = ("link", os.readlink(p), 0)
                    elif stat.S_ISREG(st.st_mode):
                        with open(p, "rb") as f:
                            out[rel] = ("file", f.read(), stat.S_IMODE(st.st_mode))
                    else:
                        out[rel] = ("other", "", 0)
        return out

    # ---------------------------------------------------------- isolated runs
    def run(self, fn, cpu=CPU_LIMIT, wall=WALL_LIMIT, traced=True):
        """traced=False for executions whose results are cached: they may happen in any seed."""
        o = self._run(fn, cpu, wall)
        if not traced:
            return o
        val = repr(o.value).replace(self.root, "@").encode("utf-8", "replace")
        self.trace.update(repr((o.status, self.os.get("nops"))).encode() + val)
        return o

    def _run(self, fn, cpu, wall):
        """Fork, call fn() in the child, return an Outcome.  The child starts from
        the same warm interpreter state every time."""
        self.forks += 1
        r, w = os.pipe()
        errp = os.path.join(self.root, "..", os.path.basename(self.root) + ".stderr")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.signal(signal.SIGINT, interrupted)
                fd = os.open(errp, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o600)
                os.dup2(fd, 2)
                os.close(fd)
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                try:
                    res = ("value", fn())
                except Invalid as e:
                    res = ("invalid", str(e))
                except BaseException as e:
                    self.os.arm(False)
                    res = ("escaped" if from_stage(e) else "harness", traceback.format_exc())
                self.os.arm(False)
                data = pickle.dumps(res, protocol=4)
                view = memoryview(data)
                while view:
                    view = view[os.write(w, view):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = bytearray()
        end = time.monotonic() + wall
        hang = False
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                hang = True
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        self.os.arm(False)       # a crashed run leaves the shared state armed
        err = ""
        if st != 0:
            try:
                with open(errp, errors="replace") as f:
                    err = f.read()[-6000:]
            except OSError:
                pass
        if hang or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,)):
            return Outcome("hang", stderr=err)
        if os.WIFSIGNALED(st):
            return Outcome("signal:%d" % os.WTERMSIG(st), stderr=err)
        code = os.WEXITSTATUS(st)
        if code == 0 and buf:
            kind, val = pickle.loads(bytes(buf))
            if kind == "value":
                return Outcome("ok", val)
            if kind == "invalid":
                raise Invalid(val)
            if kind == "escaped":
                # clevercsv raised where every outcome the harness knows was provided for
                return Outcome("exception: " + val.strip().splitlines()[-1][:200], stderr=val[-6000:])
            raise HarnessError("exception in simulated run:\n" + val)
        if code == 3:
            raise HarnessError("run ended without result (exit 3)\n" + err)
        return Outcome("exit:%d" % code, stderr=err)


class Stats:
    def __init__(self):
        self.n = {}
        self.sets = {}
        self.samples = []

    def add(self, key, by=1):
        self.n[key] = self.n.get(key, 0) + by

    def seen(self, key, value):
        self.sets.setdefault(key, set()).add(hashlib.sha1(repr(value).encode()).hexdigest()[:12])

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def merge(self, other):
        for k, v in other["n"].items():
            self.add(k, v)
        for k, v in other["sets"].items():
            self.sets.setdefault(k, set()).update(v)
        for s in other["samples"]:
            self.sample(s, 6)

    def dump(self):
        return {"n": self.n, "sets": {k: sorted(v) for k, v in self.sets.items()}, "samples": self.samples}


def sample_of(st, sc):
    if len(st.samples) < 3:
        t = json.dumps(sc, sort_keys=True)
        if len(t) < 1500:
            st.sample(t)


class Property:
    """One property: generates scenarios from a seed and judges their runs."""
    id = None
    quick_runs = 100
    thorough_runs = 2000
    variant = "plain"       # which build of the extensions
    preload = ()            # modules imported before the first run
    rule = ""
    real = []
    stub = []
    hash_seed = "0"
    no_shrink = ()          # keys the shrinker leaves alone
    env = {}

    def setup(self, ctx):
        pass

    def run_seed(self, ctx, rng, st):
        """Generate scenarios and call self.case() on each."""
        raise NotImplementedError

    def check(self, ctx, sc, st):
        """Run scenario sc; return a list of Violations.  Must be a pure function of sc."""
        raise NotImplementedError

    def judge(self, ctx, sc, st):
        """check(), with violations found on the way by helpers."""
        try:
            return self.check(ctx, sc, st)
        except Found as f:
            return f.violations

    def case(self, ctx, sc, st):
        st.add("evaluations")
        ctx.trace.update(json.dumps(sc, sort_keys=True).encode())
        sample_of(st, sc)
        v = self.judge(ctx, sc, st)
        if v:
            raise Found(sc, v)
        return None


class BatchProperty(Property):
    """For cheap scenarios: several share one isolated process.  A scenario is
    {"batch": [...]}; subclasses provide gen(rng) and one(ctx, item, st), which runs
    in the isolated process and returns a list of Violations."""
    batch = 20

    def gen(self, ctx, rng):
        raise NotImplementedError

    def one(self, ctx, item, st):
        raise NotImplementedError

    def run_seed(self, ctx, rng, st):
        self.case(ctx, {"batch": [self.gen(ctx, rng) for _ in range(self.batch)]}, st)

    def case(self, ctx, sc, st):
        ctx.trace.update(json.dumps(sc, sort_keys=True).encode())
        v = self.judge(ctx, sc, st)
        if v:
            i = v[0].detail.get("item")
            if i is not None and len(sc["batch"]) > 1:
                alone = {"batch": [sc["batch"][i]]}
                v1 = [x for x in self.judge(ctx, alone, Stats()) if x.cls == v[0].cls]
                if v1:
                    raise Found(alone, v1)
            raise Found(sc, v)

    def check(self, ctx, sc, st):
        ctx.os.reset(sc.get("seed", 0))

        def fn():
            s = Stats()
            for i, item in enumerate(sc["batch"]):
                s.add("evaluations")
                sample_of(s, item)
                try:
                    v = self.one(ctx, item, s)
                except Invalid:
                    if len(sc["batch"]) == 1:
                        raise
                    continue
                if v:
                    for x in v:
                        x.detail["item"] = i
                    return v, s.dump()
            return [], s.dump()
        o = ctx.run(fn, cpu=3 * CPU_LIMIT)
        if o.status != "ok":
            return [Violation("died", "the simulated process ended with %s" % o.status, stderr=o.stderr[-1500:])]
        v, d = o.value
        st.merge(d)
        return v


# ------------------------------------------------------------------ shrinking

def _variants(x, key, skip):
    """Smaller variants of a JSON value, biggest reductions first."""
    if key in skip and not isinstance(x, (dict, list)):
        return
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if size < n or n:
                    yield x[:i] + x[i + size:]
            size //= 2
        for i, v in enumerate(x):
            for w in _variants(v, key, skip):
                yield x[:i] + [w] + x[i + 1:]
    elif isinstance(x, dict):
        for k in list(x):
            if k.startswith("opt_") and k not in skip:
                y = dict(x)
                del y[k]
                yield y
        for k, v in x.items():
            for w in _variants(v, k, skip):
                y = dict(x)
                y[k] = w
                yield y
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x > 0:
            yield 0
            if x > 1:
                yield x // 2
                yield x - 1
    elif isinstance(x, str):
        if key in ("text", "cell", "cells", "table", "lines", "s", "rows", "prefix"):
            n = len(x)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    yield x[:i] + x[i + size:]
                size //= 2
            for i, c in enumerate(x):
                if c not in "a\n":
                    yield x[:i] + "a" + x[i + 1:]


def shrink(prop, ctx, sc, cls, budget=250, seconds=45):
    """Greedy minimisation that keeps the violation class."""
    st = Stats()
    used = 0
    end = time.monotonic() + seconds
    skip = set(prop.no_shrink) | {"kind", "op", "type", "errno", "kinds", "seed"}
    best = sc
    best_v = None
    progress = True
    while progress and used < budget and time.monotonic() < end:
        progress = False
        for cand in _variants(best, "", skip):
            if used >= budget or time.monotonic() > end:
                break
            if len(json.dumps(cand)) > len(json.dumps(best)):
                continue
            used += 1
            try:
                v = prop.judge(ctx, cand, st)
            except (Invalid, HarnessError, KeyError, IndexError, ValueError, TypeError):
                continue
            hit = [x for x in v if x.cls == cls]
            if hit:
                best, best_v, progress = cand, hit, True
                break
    return best, best_v, used
