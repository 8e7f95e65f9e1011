"""Runs the seeds of one worker; started by check.py with libsimos preloaded.

usage: worker.py PROP ROOT TIER SEED mode args...
  mode 'seeds W N STEP [START]'   run indices W, W+STEP, ... < N
  mode 'replay FILE'      check one scenario
Writes JSON lines to the original standard output.
"""
import gc, hashlib, importlib, json, os, random, sys, time, traceback


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    propid, root, tier, seed, mode = sys.argv[1:6]
    seed = int(seed)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    try:
        from sim import core, osim
        o = osim.OS(root)
        ctx = core.Ctx(root, o, tier)
        ctx.seed = seed
        mod = importlib.import_module("sim.props." + propid.lower())
        prop = mod.PROP
        ctx.clean()
        for m in prop.preload:
            importlib.import_module(m)
        import clevercsv
        stage = os.environ["VERIF_STAGE"]
        if not clevercsv.__file__.startswith(stage):
            raise core.HarnessError("testing the wrong tree: " + clevercsv.__file__)
        prop.setup(ctx)
        gc.collect()
        gc.freeze()
    except BaseException:
        emit(kind="error", text=traceback.format_exc())
        return 3

    def found(i, f):
        v = f.violations[0]
        sc, msg, used = f.scenario, v, 0
        try:
            best, bv, used = core.shrink(prop, ctx, f.scenario, v.cls)
            if bv:
                sc, msg = best, bv[0]
        except BaseException:
            emit(kind="note", text="shrinking failed: " + traceback.format_exc())
        emit(kind="violation", index=i, scenario=sc, violation=msg.to_json(), original=f.scenario,
             original_violation=v.to_json(), shrink_steps=used)

    if mode == "replay":
        with open(sys.argv[6]) as fh:
            rep = json.load(fh)
        st = core.Stats()
        try:
            v = prop.judge(ctx, rep["scenario"], st)
        except BaseException:
            emit(kind="error", text=traceback.format_exc())
            return 3
        emit(kind="replay", violations=[x.to_json() for x in v])
        return 0

    w, n, step = map(int, sys.argv[6:9])
    start = int(sys.argv[9]) if len(sys.argv) > 9 else 0
    st = core.Stats()
    last = time.monotonic()
    for i in range(start + w, n, step):
        rng = random.Random(core.seed_for(seed, prop.id, i))
        ctx.trace = hashlib.sha256()
        try:
            prop.run_seed(ctx, rng, st)
        except core.Found as f:
            emit(kind="digest", index=i, digest=ctx.trace.hexdigest()[:16])
            found(i, f)
            return 0
        except BaseException:
            emit(kind="error", index=i, text=traceback.format_exc())
            return 3
        emit(kind="digest", index=i, digest=ctx.trace.hexdigest()[:16])
    emit(kind="stats", stats=st.dump(), forks=ctx.forks)
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
