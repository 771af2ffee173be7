"""Environment for every process of the harness: vendored Hypothesis, /repo first on the path,
one thread per process, no bytecode or numba cache written anywhere outside a scratch folder."""
import os
import sys
import zipfile
import shutil
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(ROOT, ".deps")
PYTHON = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "4",
    "LANG": "C.UTF-8",
}


def ensure_deps():
    """Unpack the vendored wheels once (atomically, so that parallel runs do not disturb each other)."""
    marker = os.path.join(DEPS, "hypothesis", "__init__.py")
    if os.path.exists(marker):
        return DEPS
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
    vend = os.path.join(ROOT, "vendor")
    for w in sorted(os.listdir(vend)):
        if w.endswith(".whl"):
            with zipfile.ZipFile(os.path.join(vend, w)) as z:
                z.extractall(tmp)
    try:
        os.rename(tmp, DEPS)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    if not os.path.exists(marker):
        raise RuntimeError("could not unpack the vendored wheels")
    return DEPS


def child_env(scratch, jit=True):
    env = dict(os.environ)
    env.update(ENV)
    env["PYTHONPATH"] = os.pathsep.join([REPO, DEPS, ROOT])
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    env.pop("NUMBA_DISABLE_JIT", None)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def import_sut(memo=True):
    """Import dreimac from the working tree of /repo.

    memo: share the compiled code of local functions that capture nothing from their surroundings
    (they are recompiled on every call otherwise, which is all a small case would spend its time on).
    Functions that do capture variables are left entirely alone."""
    if memo and os.environ.get("NUMBA_DISABLE_JIT") != "1":
        _memoise_jit()
    import dreimac

    where = os.path.dirname(os.path.abspath(dreimac.__file__))
    if where != os.path.join(REPO, "dreimac"):
        raise RuntimeError("dreimac imported from %s" % where)
    return dreimac


def _memoise_jit():
    import numba

    def wrap(orig):
        cache = {}

        def decorate(func, args, kwargs):
            if (
                getattr(func, "__closure__", None) is not None
                or getattr(func, "__defaults__", None)
                or getattr(func, "__kwdefaults__", None)
                or not hasattr(func, "__code__")
                or args
            ):
                return orig(*args, **kwargs)(func) if (args or kwargs) else orig(func)
            try:
                key = (id(func.__code__), func.__module__, tuple(sorted(kwargs.items())))
                hash(key)
            except TypeError:
                return orig(**kwargs)(func)
            hit = cache.get(key)
            if hit is None:
                disp = orig(**kwargs)(func) if kwargs else orig(func)
                cache[key] = hit = (disp, func.__code__)
            return hit[0]

        def jit(*args, **kwargs):
            if args and callable(args[0]) and hasattr(args[0], "__code__"):
                return decorate(args[0], args[1:], kwargs)
            return lambda func: decorate(func, args, kwargs)

        return jit

    numba.jit = wrap(numba.jit)
    numba.njit = wrap(numba.njit)
