"""One simulated interpreter for C09: started with a chosen PYTHONHASHSEED, it forks a
fresh process per request, so that the only history is the one the request prescribes."""
import io, json, os, resource, signal, sys, traceback


def delims(spec):
    if spec is None:
        return None
    shape, ds = spec
    if shape == "str":
        return "".join(ds)
    if shape == "iter":
        return iter(list(ds))
    if shape == "set":
        return set(ds)
    return {"list": list, "tuple": tuple}[shape](ds)


def tup(d):
    return None if d is None else [d.delimiter, d.quotechar, d.escapechar, bool(d.strict)]


_shared = []


def cdetector(v):
    from clevercsv.consistency import ConsistencyDetector
    if v["shared"] and _shared:
        return _shared[0]
    c = ConsistencyDetector(skip=v["skip"], verbose=v["verbose"],
                            **({} if v["capacity"] is None else {"cache_capacity": v["capacity"]}))
    _shared.append(c)
    return c


def job(j, v, shared, path):
    """Result of one detection job j under the switches v."""
    import clevercsv
    from clevercsv import encoding, potential_dialects, wrappers
    k = j["kind"]
    det = shared if v["shared"] else clevercsv.Detector()
    ds = delims(j.get("delims"))
    if k == "detect":
        if v["capacity"] is not None and j["method"] == "consistency":
            c = cdetector(v)
            return tup(c.detect(j["text"], delimiters=list(ds) if ds is not None else None))
        return tup(det.detect(j["text"], delimiters=ds, method=j["method"], verbose=v["verbose"], skip=v["skip"]))
    if k == "sniff":
        return tup(det.sniff(j["text"], delimiters=ds, verbose=v["verbose"]))
    if k == "header":
        return det.has_header(j["text"])
    if k == "scores":
        c = cdetector(v)
        dl = potential_dialects.get_dialects(j["text"], delimiters=list(ds) if ds is not None else None)
        s = c.compute_consistency_scores(j["text"], dl)
        return sorted([tup(d), x.P, x.T, x.Q] for d, x in s.items())
    with open(path, "wb") as f:
        f.write(bytes.fromhex(j["data"]))
    if k == "encoding":
        return encoding.get_encoding(path, try_cchardet=j["fast"])
    if k == "file":
        return tup(wrappers.detect_dialect(path, num_chars=j["num_chars"], encoding=j["encoding"], verbose=v["verbose"],
                                           method=j["method"], skip=v["skip"]))
    if k == "cli":
        from clevercsv.console.application import build_application
        a = list(j["argv"]) + (["--no-skip"] if j["argv"][0] == "detect" and not v["skip"] else []) + [path]
        out = sys.stdout
        sys.stdout = io.StringIO()
        try:
            rc = build_application().run(a)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = out
        return [rc, text.replace(path, "PATH")]
    raise ValueError(k)


_keep = []


def surroundings(v, root):
    """What detection must not depend on: the field size limit, the speed of the machine, the date, random numbers, where objects lie in memory."""
    import random
    random.seed(v.get("opt_random", 0))
    for i in range(v.get("opt_noise", 0)):
        _keep.append(bytearray(i % 700))
        if i % 3:
            _keep.append(object())
    if v.get("opt_noise", 0) % 2:
        del _keep[::2]
    if v.get("opt_tick"):
        from sim import osim
        o = osim.OS(root)
        o.reset(v.get("opt_random", 0))
        o.knob("clock", 1)
        o.knob("tick_ns", v["opt_tick"])
        o.knob("op_ns", v["opt_tick"])
        o.knob("advance", v.get("opt_date", 0))
        o.arm(True)


def handle(req):
    import clevercsv
    resource.setrlimit(resource.RLIMIT_CPU, (30, 35))
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    v = req["view"]
    surroundings(v, req["root"])
    shared = clevercsv.Detector()
    out = {}
    for i in v["order"]:
        # the header is read with a reader, for which the limit holds
        clevercsv.field_size_limit(v.get("opt_limit", 131072) if req["jobs"][i]["kind"] != "header" else 131072)
        try:
            r = ["ok", job(req["jobs"][i], v, shared, req["path"])]
        except Exception as e:
            r = ["exc", type(e).__name__]
        out.setdefault(str(i), []).append(r)
    return out


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import warnings
    warnings.simplefilter("ignore")
    import clevercsv.__main__
    import clevercsv.console.application
    import clevercsv.wrappers
    import cchardet, chardet
    import sim.osim
    stdin = sys.stdin.buffer
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    for line in stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.alarm(120)
                data = json.dumps(handle(json.loads(line))).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                data = json.dumps({"error": traceback.format_exc()}).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            data = json.dumps({"died": st}).encode()
        out.write(data + b"\n")
        out.flush()


if __name__ == "__main__":
    main()
