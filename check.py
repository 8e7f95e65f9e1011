#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py --replay FILE
  check.py C01 --digests OUT     write per-seed trace digests (determinism test)

Exit 0: held on everything explored.  Exit 1 with a line
'VIOLATION property=<id> replay=<path>': broken.  Anything else: error.
"""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from sim import stage  # noqa: E402

CAP = {"quick": 840, "thorough": 6 * 3600}


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR", ""), "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="ccsvsim-", dir=d)
            except OSError:
                pass
    raise SystemExit("no scratch directory")


def child_env(prop, stage_dir, hash_seed=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "LD_", "ASAN", "UBSAN")) and k not in ("TMPDIR",)}
    pre = [stage.shim()]
    if prop.variant == "asan":
        asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ubsan = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        pre = [asan, ubsan] + pre
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:symbolize=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
        env["PYTHONMALLOC"] = "malloc"
    env["LD_PRELOAD"] = ":".join(pre)
    env["PYTHONPATH"] = stage_dir + ":" + VERIF
    env["PYTHONHASHSEED"] = hash_seed or prop.hash_seed
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONUTF8"] = "0"
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["VERIF_STAGE"] = stage_dir
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = env["MKL_NUM_THREADS"] = "1"
    env.update(prop.env)
    return env


def start(prop, tier, seed, base, w, args, stage_dir, hash_seed=None):
    root = os.path.join(base, "w%02d" % w)
    os.mkdir(root)
    return subprocess.Popen(
        [stage.PY, "-X", "faulthandler", os.path.join(VERIF, "sim", "worker.py"), prop.id, root, tier, str(seed)] + [str(a) for a in args],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(prop, stage_dir, hash_seed), text=True,
        cwd=base, start_new_session=True)


def load(propid):
    return importlib.import_module("sim.props." + propid.lower()).PROP


def known_findings(propid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("known: property=%s " % propid):
                    out.append(line[len("known: "):].strip())
    return out


def replay(path, quiet=False):
    with open(path) as f:
        rep = json.load(f)
    prop = load(rep["property"])
    base = scratch_base()
    try:
        p = start(prop, rep.get("tier", "quick"), rep.get("seed", 1), base, 0, ["replay", os.path.abspath(path)],
                  stage.stage(prop.variant))
        out, err = p.communicate(timeout=600)
        for line in out.splitlines():
            d = json.loads(line)
            if d["kind"] == "replay":
                return d["violations"], ""
            if d["kind"] == "error":
                return None, d["text"]
        return None, "worker ended without result, status %s\n%s" % (p.returncode, err[-3000:])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--hashseed")
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    if a.replay:
        v, err = replay(a.replay)
        if v is None:
            print("ERROR", err)
            return 3
        with open(a.replay) as f:
            pid = json.load(f)["property"]
        for x in v:
            print("%s: %s" % (x["class"], x["message"]))
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay: no violation")
        return 0

    prop = load(a.prop)
    t0 = time.time()
    try:
        stage_dir = stage.stage(prop.variant)
    except stage.StageError as e:
        print("ERROR: cannot build /repo:", e)
        return 3
    runs = a.runs or (prop.quick_runs if a.tier == "quick" else prop.thorough_runs)
    base = scratch_base()
    procs, threads, results = [], [], []
    lock = threading.Lock()
    stop = threading.Event()

    def pump(p, w):
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            with lock:
                results.append((w, d))
            if d["kind"] in ("violation", "error"):
                stop.set()

    errs = {}

    def pump_err(p, w):
        errs[w] = p.stderr.read()[-4000:]

    try:
        n = max(1, min(a.workers, runs))
        for w in range(n):
            p = start(prop, a.tier, a.seed, base, w, ["seeds", w, a.start + runs, n, a.start], stage_dir, a.hashseed)
            procs.append(p)
            for f in (pump, pump_err):
                t = threading.Thread(target=f, args=(p, w), daemon=True)
                t.start()
                threads.append(t)
        deadline = t0 + CAP[a.tier]
        timed_out = False
        grace = None
        while any(p.poll() is None for p in procs):
            if time.time() > deadline:
                timed_out = True
                break
            if stop.is_set():
                # let workers that are shrinking finish; end the rest soon
                if grace is None:
                    grace = time.time() + 3
                with lock:
                    done = {w for w, d in results if d["kind"] in ("violation", "error")}
                if time.time() > grace and done:
                    break
            time.sleep(0.02)
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
        for t in threads:
            t.join(5)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(base, ignore_errors=True)

    wall = time.time() - t0
    violations = sorted((d for _, d in results if d["kind"] == "violation"), key=lambda d: d["index"])
    errors = [d for _, d in results if d["kind"] == "error"]
    for w, p in enumerate(procs):
        if p.returncode not in (0, 3) and not stop.is_set() and not timed_out:
            errors.append({"text": "worker %d died with status %s\n%s" % (w, p.returncode, errs.get(w, ""))})
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(d["index"]): d["digest"] for _, d in results if d["kind"] == "digest"}, f, sort_keys=True)

    from sim import evidence
    stats = [d for _, d in results if d["kind"] == "stats"]
    nseeds = sum(1 for _, d in results if d["kind"] == "digest")
    if not a.no_evidence:
        evidence.write(VERIF, prop, a.tier, a.seed, stats, nseeds, wall, len(violations))

    for k in known_findings(prop.id):
        print("KNOWN-FINDING: " + k)

    for d in violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-s%d-i%d.json" % (prop.id, a.seed, d["index"]))

        def save(sc, v):
            with open(path, "w") as f:
                json.dump({"property": prop.id, "seed": a.seed, "index": d["index"], "tier": a.tier,
                           "scenario": sc, "violation": v, "shrink_steps": d["shrink_steps"],
                           "unshrunk": d["original"]}, f, indent=1)
        confirmed = False
        note = ""
        for sc, v in ((d["scenario"], d["violation"]), (d["original"], d["original_violation"])):
            save(sc, v)
            for _ in range(3):
                got, note = replay(path)
                if got and any(x["class"] == v["class"] for x in got):
                    confirmed = True
                    break
            if confirmed:
                break
        print("%s: %s" % (v["class"], v["message"]))
        print("  (seed %d, run %d, %d shrink steps%s)" % (a.seed, d["index"], d["shrink_steps"],
                                                       "" if confirmed else ", NOT reproduced in a fresh process"))
        if confirmed:
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
        errors.append({"text": "violation did not reproduce from %s %s" % (path, note)})
    if errors:
        for e in errors[:1]:
            print("ERROR:", e["text"])
        return 3
    if timed_out:
        print("ERROR: out of time after %d of %d runs" % (nseeds, runs))
        return 4
    if nseeds != runs:
        print("ERROR: only %d of %d runs finished" % (nseeds, runs))
        return 5
    print("%s held: %d seeds, %d evaluations, %.1f s" % (
        prop.id, nseeds, sum(s["stats"]["n"].get("evaluations", 0) for s in stats), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
