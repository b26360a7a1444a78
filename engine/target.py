"""Loading the code under test from the repository's working tree."""
import builtins
import importlib
import importlib._bootstrap_external as _be
import math
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
COVER = set()


def _fresh_code():
    """never trust cached bytecode for files of the repository"""
    orig = _be.SourceFileLoader.get_code
    if getattr(orig, "_verif", False):
        return

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        if p.startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(p), p)
        return orig(self, fullname)
    get_code._verif = True
    _be.SourceFileLoader.get_code = get_code


def _env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def load_symbolic():
    """import pylops / pylops_mpi with the simulated MPI and the numpy proxy"""
    _env()
    _fresh_code()
    from . import simmpi, symarr
    simmpi.install()
    import numpy as np
    import scipy.sparse.linalg  # noqa: F401
    import pylops
    pm = importlib.import_module("pylops_mpi")
    assert os.path.realpath(pm.__file__).startswith(os.path.realpath(REPO) + os.sep), pm.__file__
    import pkgutil
    for m in pkgutil.walk_packages(pm.__path__, "pylops_mpi."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    over = symarr.NP._over
    fmap = {}
    for n, f in over.items():
        fmap[id(getattr(np, n))] = f
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "pylops_mpi" or name.startswith("pylops_mpi.")
                               or name == "pylops" or name.startswith("pylops.")):
            continue
        d = getattr(mod, "__dict__", None)
        if d is None:
            continue
        for k, v in list(d.items()):
            if v is np:
                d[k] = symarr.NP
            elif v is math:
                d[k] = symarr.MATH
            elif id(v) in fmap and getattr(np, getattr(v, "__name__", ""), None) is v:
                d[k] = fmap[id(v)]
            elif getattr(v, "__module__", None) == "math" and callable(v) and hasattr(math, k):
                d[k] = getattr(symarr.MATH, k)
        if name.startswith("pylops_mpi"):
            for b, f in symarr.SHADOW.items():
                if b not in d:
                    d[b] = f
    # pylops' backend resolves modules through numpy attributes
    try:
        import pylops.utils.backend as bk
        bk.get_module_name.__globals__["np"] = symarr.NP
    except Exception:
        pass
    _patch_scipy_fft()
    _coverage()
    return pm, pylops


def _patch_scipy_fft():
    """scipy.fft does not dispatch on array subclasses: give pylops' FFT
    operators a scipy.fft that knows symbolic arrays"""
    import types
    import scipy
    import scipy.fft
    from . import symarr

    proxy = types.ModuleType("scipy.fft")

    def mk(n, g):
        orig = getattr(scipy.fft, n)

        def f(x, *a, **k):
            if symarr.has_sym(x):
                k.pop("workers", None)
                k.pop("overwrite_x", None)
                return g(x, *a, **k)
            return orig(x, *a, **k)
        return f
    for n in dir(scipy.fft):
        if not n.startswith("__"):
            setattr(proxy, n, getattr(scipy.fft, n))
    for n, g in (("fft", symarr.f_fft), ("ifft", symarr.f_ifft), ("rfft", symarr.f_rfft),
                 ("irfft", symarr.f_irfft), ("fftshift", symarr.f_fftshift),
                 ("ifftshift", symarr.f_ifftshift)):
        setattr(proxy, n, mk(n, g))

    class SP(types.ModuleType):
        def __getattr__(self, n):
            if n == "fft":
                return proxy
            return getattr(scipy, n)
    sp = SP("scipy")
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name.startswith("pylops.") or name.startswith("pylops_mpi")):
            d = mod.__dict__
            for k, v in list(d.items()):
                if v is scipy:
                    d[k] = sp
                elif v is scipy.fft:
                    d[k] = proxy


def _coverage():
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, "verif")
    except ValueError:
        return
    root = os.path.join(REPO, "pylops_mpi") + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            COVER.add(fn[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
