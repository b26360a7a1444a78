"""What a harness sees.  The same harness runs symbolically (SymEnv) and
concretely (ConEnv: simulated or real MPI, plain numpy)."""
import contextlib
import hashlib
import random
import threading

import numpy as np


def _snap(x):
    return x.copy() if isinstance(x, np.ndarray) else x


class Base:
    def __init__(self, pm, pylops, P):
        self.pm, self.pylops, self.P = pm, pylops, P

    # shared helpers -----------------------------------------------------
    @property
    def comm(self):
        return self.MPI.COMM_WORLD

    @property
    def rank(self):
        return self.MPI.COMM_WORLD.Get_rank()

    def raises(self, label, exc, fn):
        """fn() must raise one of `exc` on this rank"""
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        except Exception as e:
            self.reraise(e)
            self.true(label, False, "raised %s: %s" % (type(e).__name__, e))
            return
        self.true(label, False, "no exception")

    def attempt(self, fn):
        """(value, None) or (None, exception)"""
        try:
            return fn(), None
        except Exception as e:
            self.reraise(e)
            return None, e

    def dense_apply(self, M, x):
        """M (rows of rationals/floats) times vector x"""
        return self.np.dot(self.np.asarray(M), x)

    def dist(self, g, **kw):
        """distributed copy of the global array g"""
        return self.pm.DistributedArray.to_dist(x=g, **kw)

    def mat(self, name, m, n, dtype="float64"):
        return self.pylops.MatrixMult(self.array(name, (m, n), dtype), dtype=np.dtype(dtype))


class SymEnv(Base):
    symbolic = True

    def __init__(self, pm, pylops, P, run):
        super().__init__(pm, pylops, P)
        from . import simmpi, symarr
        import sys
        self.MPI = sys.modules["mpi4py.MPI"]
        self.np = symarr.NP
        self.run = run

    def array(self, name, shape, dtype="float64", nonneg=False):
        from . import sym, symarr
        from .poly import ZERO
        dt = np.dtype(dtype)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        r = np.empty(shape, dtype=object)
        f = r.reshape(-1)
        for i in range(f.size):
            nm = "%s[%d]" % (name, i)
            if dt.kind in "iu":
                re = sym.new_real(nm, bounds="int")
                f[i] = sym.SymVal(re)
            elif dt.kind == "c":
                f[i] = sym.SymVal(sym.new_real(nm), sym.new_real(nm + "i"))
            else:
                f[i] = sym.SymVal(sym.new_real(nm, nonneg=nonneg))
        return symarr._wrap(r, dt)

    def scalar(self, name, kind="float", nonzero=False, nonneg=False):
        from . import sym
        re = sym.new_real(name, nonneg=nonneg, nonzero=nonzero)
        if kind == "complex":
            return sym.SymVal(re, sym.new_real(name + "i"), "pycomplex")
        if kind == "float":
            return sym.SymVal(re, vd="pyfloat")
        dt = np.dtype(kind)         # a scalar of a numpy type
        return sym.SymVal(re, sym.new_real(name + "i") if dt.kind == "c" else sym.ZERO, dt)

    def integer(self, name):
        """any nonnegative Python int"""
        from . import sym
        return sym.SymVal(sym.new_real(name, nonneg=True, bounds="int"), vd="pyint")

    @contextlib.contextmanager
    def no_breakdown(self):
        """inside: what is divided by is assumed to be nonzero"""
        from . import sym
        sym.CTX.assume_divisors, old = True, sym.CTX.assume_divisors
        try:
            yield
        finally:
            sym.CTX.assume_divisors = old

    def reraise(self, e):
        from .poly import Unsupported
        if isinstance(e, Unsupported):
            raise e

    def eq(self, label, got, want, tol=None):
        """got must equal want (snapshots: later writes do not matter)"""
        self.run.records.append((self.rank, label, _snap(got), _snap(want), tol))

    def true(self, label, cond, detail=""):
        self.run.facts.append((self.rank, label, cond, detail))

    def shared(self, key, fn):
        d = self.run.cache
        if key not in d:
            d[key] = fn()
        return d[key]


class ConEnv(Base):
    symbolic = False

    def __init__(self, pm, pylops, P, inputs, MPI, seed=1, tol=1e-6):
        super().__init__(pm, pylops, P)
        self.MPI = MPI
        self.np = np
        self.inputs = inputs or {}
        self.seed = seed
        self.tol = tol
        self.failures = []
        self.nchecks = 0
        self.values = []
        self.cache = {}

    def _val(self, name, nonneg=False, nonzero=False, integer=False):
        v = self.inputs.get(name)
        if v is None:
            h = hashlib.sha256(("%s|%s" % (self.seed, name)).encode()).digest()
            rnd = random.Random(h)
            if integer:
                v = rnd.choice([-5, -4, -3, -2, -1, 1, 2, 3, 4, 5])
            else:
                v = rnd.choice([-1, 1]) * (0.25 + 0.125 * rnd.randrange(0, 23))
            if nonneg:
                v = abs(v)
        if integer:
            v = int(v)
        return v

    def array(self, name, shape, dtype="float64", nonneg=False):
        dt = np.dtype(dtype)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        n = int(np.prod(shape))
        if dt.kind == "c":
            vals = [complex(self._val("%s[%d]" % (name, i)), self._val("%s[%d]i" % (name, i))) for i in range(n)]
        else:
            vals = [self._val("%s[%d]" % (name, i), nonneg, integer=dt.kind in "iu") for i in range(n)]
        return np.array(vals, dtype=dt).reshape(shape)

    def scalar(self, name, kind="float", nonzero=False, nonneg=False):
        v = float(self._val(name, nonneg, nonzero))
        if kind == "complex":
            return complex(v, float(self._val(name + "i")))
        if kind == "float":
            return v
        dt = np.dtype(kind)
        return dt.type(complex(v, float(self._val(name + "i"))) if dt.kind == "c" else v)

    def integer(self, name):
        return abs(int(self._val(name, True, integer=True)))

    @contextlib.contextmanager
    def no_breakdown(self):
        yield

    def reraise(self, e):
        pass

    def eq(self, label, got, want, tol=None):
        self.nchecks += 1
        try:
            g, w = np.asarray(got), np.asarray(want)
            self.values.append((self.rank, label, _snap(g)))
            if g.shape != w.shape:
                self.failures.append("%s: shape %s != %s" % (label, g.shape, w.shape))
                return
            g = g.astype(complex)
            w = w.astype(complex)
        except Exception as e:
            self.failures.append("%s: not comparable (%s: %s)" % (label, type(e).__name__, e))
            return
        bad = np.isnan(g) != np.isnan(w)
        scale = max(1.0, float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)))
        with np.errstate(all="ignore"):
            d = np.abs(g - w) > (self.tol if tol is None else max(tol, self.tol)) * scale
        d &= ~(np.isnan(g) & np.isnan(w))
        if (bad | d).any():
            k = np.argwhere(np.atleast_1d(bad | d))[0]
            self.failures.append("%s: at %s got %s, expected %s" % (
                label, tuple(int(i) for i in k), np.atleast_1d(g)[tuple(k)], np.atleast_1d(w)[tuple(k)]))

    def true(self, label, cond, detail=""):
        self.nchecks += 1
        if not bool(cond):
            self.failures.append("%s%s" % (label, (": " + detail) if detail else ""))

    def shared(self, key, fn):
        k = (self.rank, key)
        if k not in self.cache:
            self.cache[k] = fn()
        return self.cache[k]
