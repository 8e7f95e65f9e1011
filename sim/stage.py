"""Builds what a check runs: a private copy of CleverCSV from /repo's working tree.

The Python sources are copied and the C extensions compiled from /repo/src, so a
stale extension in /repo can never be tested by accident.  Results are cached by
content under /verif/build (ignored by git).
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
BUILD = os.path.join(VERIF, "build")
EXTS = {"cparser": "src/cparser.c", "cabstraction": "src/abstraction.c"}
PLAIN = ["-O2", "-g", "-fno-strict-aliasing", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=undefined", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]


class StageError(Exception):
    pass


def sources(repo=REPO):
    out = []
    base = os.path.join(repo, "clevercsv")
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".py", ".typed")):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    src = os.path.join(repo, "src")
    out += [os.path.join("src", f) for f in sorted(os.listdir(src)) if f.endswith((".c", ".h"))]
    return out


def digest(repo=REPO):
    h = hashlib.sha256()
    for rel in sources(repo):
        with open(os.path.join(repo, rel), "rb") as f:
            data = f.read()
        h.update(rel.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()


def _cc(args):
    r = subprocess.run(args, capture_output=True, text=True)
    if r.returncode:
        raise StageError("command failed: %s\n%s" % (" ".join(args), r.stderr[-4000:]))


def include_dir():
    return subprocess.check_output(
        [PY, "-c", "import sysconfig;print(sysconfig.get_path('include'))"], text=True).strip()


def ext_suffix():
    return subprocess.check_output(
        [PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()


def _cached(name, make):
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(final, "ok")):
        return final
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        make(tmp)
        with open(os.path.join(tmp, "ok"), "w"):
            pass
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.exists(os.path.join(final, "ok")):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return final


def shim():
    with open(os.path.join(HERE, "simos.c"), "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]

    def make(tmp):
        _cc(["gcc", "-O2", "-g", "-Wall", "-shared", "-fPIC", "-o", os.path.join(tmp, "libsimos.so"),
             os.path.join(HERE, "simos.c"), "-ldl", "-pthread"])
    return os.path.join(_cached("shim-" + h, make), "libsimos.so")


def stage(variant="plain", repo=REPO):
    flags = PLAIN if variant == "plain" else ASAN
    h = hashlib.sha256((digest(repo) + repr(flags)).encode()).hexdigest()[:16]

    def make(tmp):
        for rel in sources(repo):
            if rel.startswith("clevercsv/"):
                dst = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(repo, rel), dst)
        inc, suf = include_dir(), ext_suffix()
        for name, src in EXTS.items():
            _cc(["gcc", "-shared", "-fPIC", "-w", *flags, "-I" + inc, "-I" + os.path.join(repo, "src"),
                 os.path.join(repo, src), "-o", os.path.join(tmp, "clevercsv", name + suf)])
        subprocess.run([PY, "-m", "compileall", "-q", os.path.join(tmp, "clevercsv")], check=False)
    d = _cached("stage-%s-%s" % (variant, h), make)
    _prune(keep=d)
    return d


def _prune(keep, limit=12):
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("stage-")]
        ds = sorted((x for x in ds if x != keep), key=os.path.getmtime)
        for x in ds[:-limit]:
            shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    print(shim(), stage("plain"), stage("asan"))
