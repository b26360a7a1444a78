"""Arrays of symbolic scalars that behave as numpy arrays of a *virtual*
dtype, and the numpy front end used by the code under test.

SymArr is an object-dtype ndarray subclass: indexing, views, strides,
broadcasting, reshaping, concatenation are numpy's own.  Element arithmetic is
SymVal arithmetic.  dtype promotion and casting errors are obtained from numpy
itself, on dummies of the virtual dtypes."""
import builtins
import math
import numbers
import types
import warnings
from fractions import Fraction

import numpy as np

from . import poly as P
from . import sym
from .poly import Unsupported, ZERO, ONE, const
from .sym import (SymVal, SymBool, as_val, as_bool, cast, tag_of, TRUE, FALSE, _dummy)

F64 = np.dtype(np.float64)
BOOL = np.dtype(bool)
INTP = np.dtype(np.intp)


def dt_of(x):
    return np.dtype(sym._undtype(x))


# ---------------------------------------------------------------------

class SymArr(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self._vd = getattr(obj, "_vd", None) or F64

    # dtype --------------------------------------------------------------
    @property
    def dtype(self):
        return self._vd

    @property
    def itemsize(self):
        return self._vd.itemsize

    @property
    def nbytes(self):
        return self._vd.itemsize * self.size

    @property
    def real(self):
        return _map1(self, lambda v: v.real, _rdt(self._vd))

    @real.setter
    def real(self, value):
        cur = self.imag
        self[...] = _wrap(_obj(value) + _obj(cur) * as_val(1j), np.dtype(complex))

    @property
    def imag(self):
        return _map1(self, lambda v: v.imag, _rdt(self._vd))

    @imag.setter
    def imag(self, value):
        cur = self.real
        self[...] = _wrap(_obj(cur) + _obj(value) * as_val(1j), np.dtype(complex))

    # access ---------------------------------------------------------------
    def __getitem__(self, idx):
        idx = _fix_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, np.ndarray):
            return r
        return _tag(r, self._vd)

    def __setitem__(self, idx, value):
        idx = _fix_index(idx)
        if idx is Ellipsis and self.ndim == 0:
            idx = ()
        np.ndarray.__setitem__(self.view(np.ndarray), idx, _cast_for_assign(value, self._vd))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def item(self, *args):
        if args:
            r = self.view(np.ndarray).item(*args)
        elif self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        else:
            r = self.view(np.ndarray).reshape(-1)[0]
        return _tag(r, self._vd).item()

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SymArr) else x.item() for x in self]

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(self.view(np.ndarray).reshape(-1)[0])

    def __complex__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return complex(self.view(np.ndarray).reshape(-1)[0])

    def __index__(self):
        if self.ndim or self._vd.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.view(np.ndarray)[()].__index__()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array outside the communicator")

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return "SymArr(%s, vd=%s)" % (self.view(np.ndarray).tolist(), self._vd)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    # copies -----------------------------------------------------------------
    def copy(self, order="C"):
        r = np.array(self.view(np.ndarray), order=order, copy=True, subok=False)
        return _wrap(r, self._vd)

    def __copy__(self):
        return self.copy()

    def flatten(self, order="C"):
        return _wrap(np.ndarray.flatten(self.view(np.ndarray), order), self._vd)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dtype = dt_of(dtype)
        if not np.can_cast(self._vd, dtype, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule %r"
                            % (self._vd, dtype, casting))
        if dtype == self._vd and not copy:
            return self
        if self._vd.kind == "c" and dtype.kind not in "cbO":
            warnings.warn("Casting complex values to real discards the imaginary part",
                          np.exceptions.ComplexWarning, stacklevel=2)
        return _wrap(_castobj(self.view(np.ndarray), dtype), dtype)

    def view(self, dtype=None, type=None):
        if dtype is None and type is None:
            return np.ndarray.view(self)
        if dtype is np.ndarray or type is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if dtype is SymArr:
            return np.ndarray.view(self, SymArr)
        if dtype is not None and isinstance(dtype, builtins.type) and issubclass(dtype, np.ndarray):
            return np.ndarray.view(self, dtype)
        if np.dtype(dtype) == self._vd:
            return np.ndarray.view(self)
        raise Unsupported("view with another dtype")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    # methods that go through the function table -------------------------------
    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    def dot(self, b, out=None):
        return np.dot(self, b)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.max(self, axis=axis, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.min(self, axis=axis, keepdims=keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.all(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis=axis)

    def nonzero(self):
        return np.nonzero(self)

    def clip(self, a_min=None, a_max=None, **k):
        return np.clip(self, a_min, a_max)

    def round(self, decimals=0, out=None):
        raise Unsupported("round")

    def argmax(self, *a, **k):
        raise Unsupported("argmax")
    argmin = argsort = sort = argmax

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def std(self, *a, **k):
        raise Unsupported("std")
    var = std

    # protocol -------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)


def _rdt(dt):
    return np.zeros((), dt).real.dtype if dt.kind == "c" else dt


def _fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(_fix_index1(i) for i in idx)
    return _fix_index1(idx)


def _fix_index1(i):
    if isinstance(i, SymArr):
        if i._vd == BOOL:
            return np.array([bool(b) for b in i.view(np.ndarray).ravel()], dtype=bool).reshape(i.shape)
        if i._vd.kind in "iu":
            return np.array([int(b) for b in i.view(np.ndarray).ravel()], dtype=int).reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymVal):
        return i.__index__()
    return i


def _tag(v, vd):
    if isinstance(v, SymVal):
        return v if v.vd == vd else SymVal(v.re, v.im, vd)
    return v


def _wrap(obj, vd):
    """object ndarray (or scalar) -> SymArr (or tagged scalar)"""
    if isinstance(obj, np.ndarray):
        r = obj.view(SymArr)
        r._vd = vd
        return r
    return _tag(obj, vd)


def _untag(v):
    if isinstance(v, SymVal):
        return v if v.vd is None else SymVal(v.re, v.im)
    if isinstance(v, SymBool):
        return v
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    return as_val(v, tag=False)


_untag_v = np.frompyfunc(_untag, 1, 1)


def _box0(x):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def _obj(x):
    """anything array-like -> plain object ndarray / SymVal scalar of untagged values"""
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, (SymVal, SymBool)):
        return _untag(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = np.empty(x.shape, dtype=object)
            rf = r.reshape(-1)
            for i, v in enumerate(x.ravel()):
                rf[i] = _untag(v)
            return r
        if x.dtype.kind == "b":
            r = np.empty(x.shape, dtype=object)
            rf = r.reshape(-1)
            for i, v in enumerate(x.ravel()):
                rf[i] = TRUE if v else FALSE
            return r
        r = np.empty(x.shape, dtype=object)
        rf = r.reshape(-1)
        for i, v in enumerate(x.ravel().tolist()):
            rf[i] = as_val(v, tag=False)
        return r
    if isinstance(x, (numbers.Number, np.generic)):
        return _untag(x)
    if isinstance(x, (list, tuple)):
        return _obj(asarray_sym(x))
    raise Unsupported("operand of type %s" % type(x).__name__)


def lift(x, vd=None):
    """array-like -> SymArr"""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (SymVal, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = _untag(x)
        return _wrap(r, vd or x.dtype)
    if isinstance(x, np.ndarray):
        if x.dtype == object and vd is None:
            vd = guess_vd(x)
        return _wrap(_obj(x), vd or x.dtype)
    if isinstance(x, (numbers.Number, np.generic)):
        a = np.asarray(x)
        return lift(a, vd)
    return asarray_sym(x)


def guess_vd(x):
    tags = [tag_of(v) for v in x.ravel()]
    dts = []
    for v, t in zip(x.ravel(), tags):
        if isinstance(v, (SymVal, SymBool)):
            dts.append(v.dtype)
        elif t is not None:
            dts.append(np.dtype({"pyint": int, "pyfloat": float, "pycomplex": complex}.get(t, t))
                       if isinstance(t, str) else t)
    return np.result_type(*dts) if dts else F64


def has_sym(x, depth=0):
    if isinstance(x, (SymArr, SymVal, SymBool)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and np.ndarray.__dict__["dtype"].__get__(x) == object:
        return any(isinstance(v, (SymVal, SymBool)) for v in x.ravel())
    return False


def asarray_sym(x):
    """nested lists with symbolic leaves -> SymArr"""
    if isinstance(x, (SymArr, np.ndarray, SymVal, SymBool, numbers.Number, np.generic)):
        return lift(x)
    if not isinstance(x, (list, tuple)):
        raise Unsupported("array from %s" % type(x).__name__)
    if not x:
        return lift(np.array(x))
    parts = [asarray_sym(y) for y in x]
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError("setting an array element with a sequence. The requested array has an "
                         "inhomogeneous shape")
    vd = np.result_type(*[p._vd for p in parts])
    r = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        r[(i, ...)] = _castobj(p.view(np.ndarray), vd) if p._vd != vd else p.view(np.ndarray)
    return _wrap(r, vd)


def _castobj(o, vd):
    if isinstance(o, np.ndarray):
        f = np.frompyfunc(lambda v: cast(v, vd), 1, 1)
        r = f(o)
        if not isinstance(r, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = r
            r = a
        return r
    return cast(o, vd)


def _cast_for_assign(value, vd):
    """value -> object array/scalar cast as numpy does on a[...] = value"""
    if isinstance(value, SymArr):
        src = value._vd
        o = value.view(np.ndarray)
    elif isinstance(value, (SymVal, SymBool)):
        src = value.dtype
        if isinstance(value, SymVal) and value.vd == "pycomplex" and vd.kind not in "cbO":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        o = _untag(value)
        if src == vd and src.kind in "fc":
            return o
        if src.kind == "c" and vd.kind not in "cbO":
            _cwarn()
        return cast(o, vd)
    elif isinstance(value, np.ndarray):
        src = value.dtype
        if src == object:
            src = guess_vd(value)
        o = _obj(value)
    elif isinstance(value, (numbers.Number, np.generic)):
        if isinstance(value, complex) and not isinstance(value, np.generic) and vd.kind not in "cbO":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(value, np.complexfloating) and vd.kind not in "cbO":
            _cwarn()
        return cast(_untag(value), vd)
    else:
        a = asarray_sym(value)
        src = a._vd
        o = a.view(np.ndarray)
    if src == vd:
        return o
    if src.kind == "c" and vd.kind not in "cbO":
        _cwarn()
    return _castobj(o, vd)


def _cwarn():
    warnings.warn("Casting complex values to real discards the imaginary part",
                  np.exceptions.ComplexWarning, stacklevel=3)


def _map1(a, f, vd):
    if isinstance(a, (SymVal, SymBool)):
        return _tag(f(_untag(a)), vd)
    o = _obj(a)
    g = np.frompyfunc(f, 1, 1)
    r = g(o)
    if not isinstance(r, np.ndarray) and isinstance(a, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        r = z
    return _wrap(r, vd)


# ---------------------------------------------------------------------
# ufuncs

def _operand_dt(x):
    """dummy operand carrying the dtype of x for promotion"""
    if isinstance(x, SymArr):
        return np.ones((), x._vd)
    if isinstance(x, SymVal):
        t = x.vd
        if t is None:
            return 1.0 if x.isreal() else 1j
        return _dummy(t)
    if isinstance(x, SymBool):
        return np.True_
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.ones((), guess_vd(x))
        return np.ones((), x.dtype)
    if isinstance(x, np.generic):
        return np.ones((), x.dtype)[()]
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return 1
    if isinstance(x, (float, Fraction)):
        return 1.0
    if isinstance(x, complex):
        return 1j
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return np.ones((), asarray_sym(x)._vd)
        return np.ones((), np.asarray(x).dtype)
    return None


_resdt = {}


def result_dtypes(ufunc, inputs):
    ds = [_operand_dt(x) for x in inputs]
    if any(d is None for d in ds):
        return None
    key = (ufunc.__name__,) + tuple((type(d), d.dtype if hasattr(d, "dtype") else None) for d in ds)
    r = _resdt.get(key)
    if r is None:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # vectors for matmul-like gufuncs
            if ufunc.signature:
                ds = [np.ones((1, 1), np.asarray(d).dtype) for d in ds]
            res = ufunc(*ds)
        r = tuple(np.asarray(x).dtype for x in res) if isinstance(res, tuple) else np.asarray(res).dtype
        _resdt[key] = r
    return r


def _extr(kind, vals):
    """max/min of SymVals (infinities allowed, NaN propagates)"""
    if any(v.re is None and not sym.inf_sign(v) for v in vals):
        return SymVal(None)
    if not all(v.isreal() for v in vals):
        raise Unsupported("complex " + kind)
    absorbing = 1 if kind == "max" else -1
    fin = []
    for v in vals:
        s = sym.inf_sign(v) if v.re is None else 0
        if s == absorbing:
            return v
        if not s:
            fin.append(v.re)
    if not fin:
        return vals[0]
    return SymVal(P.extremum(kind, fin))


def _bmin(kind):
    return lambda a, b: _extr(kind, [a, b])


def _bfmt(f):
    return f


def _logical(op):
    def f(a, b):
        a, b = as_bool(a), as_bool(b)
        return op(a, b)
    return f


def _sign(v):
    if not v.isreal():
        raise Unsupported("sign of complex")
    if bool(v > 0):
        return SymVal(ONE)
    if bool(v < 0):
        return SymVal(-ONE)
    return SymVal(ZERO)


def _isinf(v):
    return TRUE if v.re is None and sym.inf_sign(v) else FALSE


def _isfinite(v):
    return FALSE if v.re is None else TRUE


def _hypot(a, b):
    return SymVal(P.root(a.re * a.re + b.re * b.re, 2))


def _sq(v):
    return v * v


def _recip(v):
    return SymVal(ONE) / v


def _iscompl(v):
    return v


def _ufname(name):
    def f(v):
        if v.re is None:
            return v
        if v.is_const():
            return as_val(complex(getattr(np, name)(complex(v))) if not v.isreal()
                          else float(getattr(np, name)(float(v))), tag=False)
        if not v.isreal():
            raise Unsupported(name + " of complex")
        return SymVal(P.uf(name, v.re, nonneg=(name == "exp")))
    return f


def _floordiv(a, b):
    return as_val(a // b, tag=False)


def _mod(a, b):
    return as_val(a % b, tag=False)


UNARY = {
    "negative": lambda v: -v,
    "positive": lambda v: v,
    "absolute": abs, "fabs": abs,
    "conjugate": lambda v: v.conjugate(),
    "sqrt": sym.square_root,
    "square": _sq,
    "reciprocal": _recip,
    "sign": _sign,
    "isfinite": _isfinite,
    "isnan": lambda v: TRUE if v.re is None and not sym.inf_sign(v) else FALSE,
    "isinf": _isinf,
    "logical_not": lambda v: ~as_bool(v),
    "invert": lambda v: ~as_bool(v),
    "exp": _ufname("exp"), "log": _ufname("log"), "sin": _ufname("sin"), "cos": _ufname("cos"),
    "log10": _ufname("log10"), "tanh": _ufname("tanh"),
}
BINARY = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": _floordiv,
    "remainder": _mod,
    "power": lambda a, b: sym.power(a, b, None),
    "float_power": lambda a, b: sym.power(a, b, None),
    "maximum": _bmin("max"), "minimum": _bmin("min"),
    "fmax": _bmin("max"), "fmin": _bmin("min"),
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "logical_and": _logical(lambda a, b: a & b),
    "logical_or": _logical(lambda a, b: a | b),
    "logical_xor": _logical(lambda a, b: a ^ b),
    "bitwise_and": _logical(lambda a, b: a & b),
    "bitwise_or": _logical(lambda a, b: a | b),
    "bitwise_xor": _logical(lambda a, b: a ^ b),
    "hypot": _hypot,
}
_FROMPY = {}
BOOL_OUT = {"greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "logical_and",
            "logical_or", "logical_not", "logical_xor", "isfinite", "isnan", "isinf"}


def _num(v):
    return SymVal(v.ind()) if isinstance(v, SymBool) else v


def _kernel(name, n):
    k = _FROMPY.get(name)
    if k is None:
        if n == 1:
            f0 = UNARY[name]
            f = f0 if name in BOOL_OUT or name == "invert" else (lambda a: f0(_num(a)))
        else:
            f0 = BINARY[name]
            if name in BOOL_OUT or name.startswith("bitwise"):
                f = f0
            else:
                f = lambda a, b: f0(_num(a), _num(b))
        k = _FROMPY[name] = np.frompyfunc(f, n, 1)
    return k


def ufunc_dispatch(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if out is not None and isinstance(out, tuple):
        if len(out) == 1:
            out = out[0]
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    dtype = kw.pop("dtype", None)
    casting = kw.pop("casting", "same_kind")
    kw.pop("order", None)
    kw.pop("subok", None)
    name = ufunc.__name__
    if sym.CTX is not None:
        sym.CTX.used.add("np." + name)
    for x in inputs:
        if not isinstance(x, (np.ndarray, numbers.Number, np.generic, SymBool, list, tuple)):
            return NotImplemented
    if method == "__call__":
        if name == "matmul" or name in ("vecdot", "matvec", "vecmat"):
            r = _matmul(ufunc, inputs)
            vd = result_dtypes(np.matmul, inputs)
        else:
            n = len(inputs)
            if name not in (UNARY if n == 1 else BINARY):
                raise Unsupported("ufunc %s" % name)
            vd = result_dtypes(ufunc, inputs)
            k = _kernel(name, n)
            r = k(*[_box0(_obj(x)) for x in inputs])
        if dtype is not None:
            vd = dt_of(dtype)
            r = _castobj(r, vd)
        if out is not None:
            return _store(out, r, vd, casting, name)
        return _wrap(r, vd)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keepdims = kw.get("keepdims", False)
        initial = kw.get("initial", None)
        r, vd = _reduce(name, ufunc, a, axis, keepdims, initial)
        if dtype is not None:
            vd = dt_of(dtype)
            r = _castobj(r, vd)
        if out is not None:
            return _store(out, r, vd, casting, name)
        return _wrap(r, vd)
    if method == "accumulate":
        a = inputs[0]
        axis = kw.get("axis", 0)
        o = _obj(lift(a)).copy()
        o = np.moveaxis(o, axis, 0)
        k = _kernel(name, 2)
        for i in range(1, o.shape[0]):
            o[i:i + 1] = k(o[i - 1:i], o[i:i + 1])
        r = np.moveaxis(o, 0, axis)
        return _wrap(r, result_dtypes(ufunc, (a, a)))
    if method == "outer":
        a, b = lift(inputs[0]), lift(inputs[1])
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, "__call__", (aa, b), {})
    if method == "at":
        a, idx = inputs[0], inputs[1]
        if len(inputs) == 2:
            raise Unsupported("ufunc.at unary")
        b = lift(inputs[2])
        if not isinstance(idx, tuple):
            idx = (idx,)
        sel = np.arange(a.size).reshape(a.shape)[idx]
        bb = np.broadcast_to(b.view(np.ndarray), sel.shape).ravel() if isinstance(sel, np.ndarray) else [b.item()]
        flat = np.atleast_1d(sel).ravel()
        for i, v in zip(flat, bb):
            ix = np.unravel_index(i, a.shape)
            a[ix] = _kernel(name, 2)(_box0(a.view(np.ndarray)[ix]), _box0(v)).reshape(-1)[0]
        return None
    raise Unsupported("ufunc method %s" % method)


def _matmul(ufunc, inputs):
    a, b = _obj(inputs[0]), _obj(inputs[1])
    if ufunc.__name__ != "matmul":
        raise Unsupported(ufunc.__name__)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        raise ValueError("matmul: Input operand does not have enough dimensions")
    # numpy raises on shape errors
    ref = np.matmul(np.zeros(a.shape, np.int8), np.zeros(b.shape, np.int8))
    k = a.shape[-1]
    if k == 0:
        return _full_obj(np.shape(ref), SymVal(ZERO))
    r = np.matmul(a, b)
    return r


def _full_obj(shape, v):
    r = np.empty(shape, dtype=object)
    r.fill(v)
    return r


def _store(out, r, vd, casting, name):
    if isinstance(out, SymArr):
        if not np.can_cast(vd, out._vd, casting):
            raise np._core._exceptions._UFuncOutputCastingError(getattr(np, name), casting, vd, out._vd, 0)
        out[...] = _wrap(r, vd) if isinstance(r, np.ndarray) else _tag(r, vd)
        return out
    if isinstance(out, np.ndarray):
        # a concrete numeric array cannot hold symbolic values unless they are constant
        if not np.can_cast(vd, out.dtype, casting):
            raise np._core._exceptions._UFuncOutputCastingError(getattr(np, name), casting, vd, out.dtype, 0)
        out[...] = concretise(_wrap(r, vd), out.dtype)
        return out
    raise Unsupported("ufunc out")


def concretise(a, dtype):
    o = _obj(a)
    if not isinstance(o, np.ndarray):
        return np.dtype(dtype).type(complex(o) if dtype.kind == "c" else float(o))
    f = {"c": complex, "b": bool}.get(dtype.kind, float)
    return np.array([f(v) for v in o.ravel()], dtype=dtype).reshape(o.shape)


def _norm_axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(np.lib.array_utils.normalize_axis_index(int(a), ndim) for a in axis)


def _reduce(name, ufunc, a, axis, keepdims, initial=None):
    scalar_in = not isinstance(a, (np.ndarray, list, tuple))
    a = lift(a)
    o = a.view(np.ndarray)
    axes = _norm_axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in axes]
    n = 1
    for i in axes:
        n *= o.shape[i]
    t = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] + [n]) if o.ndim else o.reshape(1)
    if o.ndim == 0:
        n = 1
    if name in ("add", "multiply", "logical_and", "logical_or"):
        ident = {"add": SymVal(ZERO), "multiply": SymVal(ONE), "logical_and": TRUE, "logical_or": FALSE}[name]
    elif name in ("maximum", "minimum"):
        ident = None
        if n == 0 and initial is None:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    else:
        raise Unsupported("reduce of %s" % name)
    k = (UNARY if False else BINARY)[name]
    res = np.empty(t.shape[:-1], dtype=object)
    flat = res.reshape(-1)
    tf = t.reshape(-1, n) if n else None
    for j in range(res.size):
        if n == 0:
            acc = ident if ident is not None else _untag(as_val(initial))
        elif name in ("maximum", "minimum"):
            vals = [_num(v) for v in tf[j]]
            if initial is not None:
                vals.append(_untag(as_val(initial)))
            acc = _extr(name[:3], vals)
        else:
            acc = None
            for v in tf[j]:
                if name in ("add", "multiply"):
                    v = _num(v)
                acc = v if acc is None else k(acc, v)
            if name.startswith("logical"):
                acc = as_bool(acc)
            if initial is not None:
                acc = k(_untag(as_val(initial)), acc)
        flat[j] = acc
    if name in ("add", "multiply"):
        vd = {"b": INTP}.get(a._vd.kind, a._vd)
    elif name.startswith("logical"):
        vd = BOOL
    else:
        vd = a._vd
    if keepdims:
        res = res.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
        return res, vd
    if res.ndim == 0:
        return res[()], vd
    return res, vd


# ---------------------------------------------------------------------
# __array_function__

HANDLERS = {}


def implements(*names):
    def deco(f):
        for n in names:
            o = np
            try:
                for part in n.split("."):
                    o = getattr(o, part)
            except AttributeError:
                continue
            HANDLERS[o] = f
        return f
    return deco


def _collect(x, acc):
    if isinstance(x, SymArr):
        acc.append(np.ones((), x._vd))
    elif isinstance(x, SymVal):
        acc.append(_operand_dt(x))
    elif isinstance(x, np.ndarray):
        acc.append(np.ones((), guess_vd(x) if x.dtype == object else x.dtype))
    elif isinstance(x, (list, tuple)):
        for y in x:
            _collect(y, acc)


def _vd_of(args):
    acc = []
    _collect(args, acc)
    return np.result_type(*acc) if acc else F64


def _strip(x):
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, SymVal):
        return _obj(lift(x))
    if isinstance(x, tuple):
        return tuple(_strip(y) for y in x)
    if isinstance(x, list):
        return [_strip(y) for y in x]
    return x


def _stripobj(x):
    """lift numeric arrays too (float arrays only: index arrays stay)"""
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, (SymVal,)):
        return _obj(lift(x))
    if isinstance(x, np.ndarray) and x.dtype != object:
        return _obj(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_stripobj(y) for y in x)
    return x


def _rewrap(r, vd):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return _wrap(r, vd)
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(y, vd) for y in r)
    return _tag(r, vd)


# first argument holds the data; the others are structure
STRUCT = """reshape ravel squeeze transpose moveaxis rollaxis swapaxes expand_dims take
roll flip fliplr flipud rot90 delete repeat tile split array_split hsplit vsplit
broadcast_to atleast_1d atleast_2d atleast_3d diag diagonal compress take_along_axis
permute_dims trim_zeros triu tril matrix_transpose unstack resize""".split()
# all array arguments hold data
MULTI = """concatenate vstack hstack dstack stack column_stack append block row_stack broadcast_arrays
concat""".split()
for _n in STRUCT + MULTI:
    pass


def function_dispatch(func, args, kwargs):
    h = HANDLERS.get(func)
    name = getattr(func, "__name__", str(func))
    if sym.CTX is not None:
        sym.CTX.used.add("np." + name)
    if h is not None:
        return h(*args, **kwargs)
    if name in STRUCT:
        vd = _vd_of(args[0] if args else list(kwargs.values())[0])
        a0 = args[0]
        o = _stripobj(a0)
        r = func(o, *[_fix_index(_strip(a)) for a in args[1:]], **kwargs)
        return _rewrap(r, vd)
    if name in MULTI:
        return _multi(func, args, kwargs)
    raise Unsupported("numpy function %s" % name)


def _multi(func, args, kwargs):
    name = func.__name__
    kwargs = dict(kwargs)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if name == "append":
        arr = args[0] if len(args) > 0 else kwargs.pop("arr")
        values = args[1] if len(args) > 1 else kwargs.pop("values")
        axis = args[2] if len(args) > 2 else kwargs.pop("axis", None)
        arr, values = lift(arr), lift(values)
        if axis is None:
            arr, values = arr.ravel(), values.ravel()
            axis = 0
        return _multi(np.concatenate, ((arr, values),), {"axis": axis})
    seq = args[0]
    rest = args[1:]
    if isinstance(seq, np.ndarray):
        seq = list(lift(seq))
    if name == "broadcast_arrays":
        return [np.broadcast_to(lift(x), np.broadcast_shapes(*[np.shape(y) for y in args])) for x in args]
    if name == "block":
        vd = _vd_of(seq)
        return _rewrap(func(_stripobj(seq)), vd)
    parts = [lift(x) for x in seq]
    vd = np.result_type(*[p._vd for p in parts]) if parts else F64
    if dtype is not None:
        vd = dt_of(dtype)
    objs = [_castobj(p.view(np.ndarray), vd) if p._vd.kind != vd.kind else p.view(np.ndarray) for p in parts]
    r = func(objs, *rest, **kwargs)
    return _rewrap(r, vd)


def _only(**kw):
    """arguments this model does not follow"""
    for n, v in kw.items():
        if v is not None and v is not np._NoValue and v is not True and not (n == "out" and v == ()):
            raise Unsupported("argument %s of a NumPy function" % n)


@implements("sum")
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, types.GeneratorType):
        tot = 0
        for x in a:
            tot = tot + x
        return tot
    if where is not True and where is not np._NoValue:
        a = np.where(where, lift(a), 0)
    if _init(initial) is not None:
        _only(out=out)
        return f_sum(a, axis, dtype, None, keepdims) + initial
    kw = {"axis": axis, "keepdims": bool(keepdims) if keepdims is not np._NoValue else False}
    if dtype is not None:
        kw["dtype"] = dtype
    if out is not None:
        kw["out"] = out
    return ufunc_dispatch(np.add, "reduce", (a,), kw)


@implements("prod")
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    _only(dtype=dtype, out=out, where=where)
    r = ufunc_dispatch(np.multiply, "reduce", (a,), {"axis": axis, "keepdims": keepdims is True})
    return r if _init(initial) is None else r * initial


def _init(initial):
    return None if initial is None or initial is np._NoValue else initial


@implements("max", "amax")
def f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    _only(where=where)
    return ufunc_dispatch(np.maximum, "reduce", (a,), {"axis": axis, "keepdims": keepdims is True,
                                                       "initial": _init(initial), "out": out})


@implements("min", "amin")
def f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    _only(where=where)
    return ufunc_dispatch(np.minimum, "reduce", (a,), {"axis": axis, "keepdims": keepdims is True,
                                                       "initial": _init(initial), "out": out})


@implements("any")
def f_any(a, axis=None, out=None, keepdims=False, where=True):
    _only(out=out, where=where)
    return ufunc_dispatch(np.logical_or, "reduce", (_truth_arr(a),), {"axis": axis, "keepdims": keepdims is True})


@implements("all")
def f_all(a, axis=None, out=None, keepdims=False, where=True):
    _only(out=out, where=where)
    return ufunc_dispatch(np.logical_and, "reduce", (_truth_arr(a),), {"axis": axis, "keepdims": keepdims is True})


def _truth_arr(a):
    return _map1(lift(a), lambda v: as_bool(v), BOOL)


@implements("mean", "average")
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _only(dtype=dtype, out=out, **{q: v for q, v in k.items() if v is not False})
    a = lift(a)
    ax = _norm_axes(axis, a.ndim)
    n = 1
    for i in ax:
        n *= a.shape[i]
    return f_sum(a, axis=axis, keepdims=keepdims) / n


@implements("cumsum")
def f_cumsum(a, axis=None, dtype=None, out=None):
    _only(dtype=dtype, out=out)
    a = lift(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_dispatch(np.add, "accumulate", (a,), {"axis": axis})


@implements("diff")
def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    ends = [x for x in (prepend, append) if x is not np._NoValue]
    a = lift(a)
    if ends:
        fit = lambda x: np.broadcast_to(x, [1 if q == axis % a.ndim else m for q, m in enumerate(a.shape)]) if np.ndim(x) == 0 else x
        a = np.concatenate(([fit(prepend)] if prepend is not np._NoValue else []) + [a] +
                           ([fit(append)] if append is not np._NoValue else []), axis=axis)
    for _ in range(n):
        hi = [slice(None)] * a.ndim
        lo = [slice(None)] * a.ndim
        hi[axis] = slice(1, None)
        lo[axis] = slice(None, -1)
        a = a[tuple(hi)] - a[tuple(lo)]
    return a


@implements("cumprod")
def f_cumprod(a, axis=None, dtype=None, out=None):
    _only(dtype=dtype, out=out)
    a = lift(a)
    return ufunc_dispatch(np.multiply, "accumulate", (a.ravel() if axis is None else a,), {"axis": axis or 0})


@implements("kron")
def f_kron(a, b):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim:
        raise Unsupported("kron of different dimensions")
    n = a.ndim
    r = np.outer(a.ravel(), b.ravel()).reshape(a.shape + b.shape)
    return r.transpose([i for q in range(n) for i in (q, n + q)]).reshape([x * y for x, y in zip(a.shape, b.shape)])


@implements("convolve")
def f_convolve(a, v, mode="full"):
    a, v = lift(a).ravel(), lift(v).ravel()
    if a.size < v.size:
        a, v = v, a
    n, m = a.size, v.size
    if not m:
        raise ValueError("v cannot be empty")
    full = [np.sum(np.stack([a[i - j] * v[j] for j in range(m) if 0 <= i - j < n])) for i in range(n + m - 1)]
    full = np.stack([lift(x).reshape(()) for x in full])
    return {"full": full, "same": full[(m - 1) // 2:(m - 1) // 2 + n], "valid": full[m - 1:n]}[mode]


@implements("correlate")
def f_correlate(a, v, mode="valid"):
    if np.size(a) < np.size(v):
        raise Unsupported("correlate with a longer second argument")
    return f_convolve(a, lift(v).conj()[::-1], mode)


@implements("linalg.multi_dot")
def f_multi_dot(arrays, out=None):
    _only(out=out)
    r = arrays[0]
    for x in arrays[1:]:
        r = np.dot(r, x)
    return r


@implements("ptp")
def f_ptp(a, axis=None, out=None, keepdims=False):
    return np.max(a, axis=axis, keepdims=keepdims) - np.min(a, axis=axis, keepdims=keepdims)


@implements("apply_along_axis")
def f_along(f, axis, a, *args, **k):
    a = np.moveaxis(lift(a), axis, -1)
    rows = [lift(f(v, *args, **k)) for v in a.reshape(-1, a.shape[-1])]
    r = np.stack(rows).reshape(a.shape[:-1] + rows[0].shape)
    return np.moveaxis(r, -1, axis) if rows[0].ndim else r


@implements("isreal")
def f_isreal(x):
    return np.imag(x) == 0


@implements("count_nonzero")
def f_count_nonzero(a, axis=None, keepdims=False):
    def ind(v):
        if isinstance(v, SymBool):
            return SymVal(v.ind())
        if v.re is None:
            return SymVal(ONE)
        return SymVal(P.nonzero_ind(v.re, v.im))
    a = lift(a)
    b = _map1(a, ind, INTP)
    return f_sum(b, axis=axis, keepdims=keepdims)


@implements("dot")
def f_dot(a, b, out=None):
    vd = np.result_type(_operand_dt(a), _operand_dt(b))
    ao, bo = _obj(a), _obj(b)
    if not isinstance(ao, np.ndarray) or not isinstance(bo, np.ndarray) or ao.ndim == 0 or bo.ndim == 0:
        return a * b
    ref = np.dot(np.zeros(ao.shape, np.int8), np.zeros(bo.shape, np.int8))
    if ao.shape[-1] == 0:
        r = _full_obj(np.shape(ref), SymVal(ZERO))
        r = r[()] if r.ndim == 0 else r
    else:
        r = np.dot(ao, bo)
    r = _wrap(r, vd)
    if out is not None:
        out[...] = r
        return out
    return r


@implements("vdot")
def f_vdot(a, b):
    return f_dot(np.conjugate(lift(a).ravel()), lift(b).ravel())


@implements("inner")
def f_inner(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 1 and b.ndim == 1:
        return f_dot(a, b)
    return _wrap(np.inner(_obj(a), _obj(b)), np.result_type(a._vd, b._vd))


@implements("outer")
def f_outer(a, b, out=None):
    return ufunc_dispatch(np.multiply, "outer", (lift(a).ravel(), lift(b).ravel()), {})


@implements("tensordot")
def f_tensordot(a, b, axes=2):
    a, b = lift(a), lift(b)
    return _wrap(np.tensordot(_obj(a), _obj(b), axes), np.result_type(a._vd, b._vd))


@implements("einsum")
def f_einsum(*ops, **k):
    sub = ops[0]
    arrs = [lift(x) for x in ops[1:]]
    vd = np.result_type(*[a._vd for a in arrs])
    r = np.einsum(sub, *[_obj(a) for a in arrs], optimize=False)
    return _wrap(r, vd)


@implements("trace")
def f_trace(a, *args, **k):
    return f_sum(np.diagonal(a, *args))


@implements("real")
def f_real(v):
    return v.real


@implements("imag")
def f_imag(v):
    return v.imag


@implements("iscomplexobj")
def f_iscomplexobj(x):
    return x.dtype.kind == "c"


@implements("isrealobj")
def f_isrealobj(x):
    return x.dtype.kind != "c"


@implements("real_if_close")
def f_ric(a, tol=100):
    raise Unsupported("real_if_close")


@implements("copyto")
def f_copyto(dst, src, casting="same_kind", where=True):
    s = lift(src)
    if not np.can_cast(s._vd, dst.dtype, casting):
        raise TypeError("Cannot cast array data from %r to %r according to the rule %r" % (s._vd, dst.dtype, casting))
    if where is not True:
        dst[np.asarray(where)] = s[np.asarray(where)] if s.shape == dst.shape else s
        return
    dst[...] = s


@implements("array_equal")
def f_array_equal(a, b, equal_nan=False):
    try:
        a, b = lift(a), lift(b)
    except Unsupported:
        return False
    if a.shape != b.shape:
        return False
    return bool(f_all(a == b))


@implements("isclose")
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = np.abs(np.subtract(a, b))
    lim = np.add(atol, np.multiply(rtol, np.abs(b)))
    return np.less_equal(d, lim)


@implements("allclose")
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(f_all(r)) if isinstance(r, np.ndarray) else bool(r)


def lift_num(v):
    """v as a finite SymVal, or None (booleans, infinities)."""
    if isinstance(v, SymVal) and v.re is not None:
        return v
    return None


@implements("where")
def f_where(cond, x=None, y=None):
    c = lift(cond)
    if x is None:
        return np.nonzero(np.array([bool(as_bool(v)) for v in c.view(np.ndarray).ravel()]).reshape(c.shape))
    vd = np.result_type(_operand_dt(x), _operand_dt(y))
    xo, yo = lift(x), lift(y)

    def ite(cc, a, b):
        cc = as_bool(cc)
        if cc.const() is not None:
            return a if cc.const() else b
        a0, b0 = a, b
        a, b = lift_num(a), lift_num(b)
        if a is None or b is None:
            return a0 if cc.truth() else b0
        i = cc.ind()
        return SymVal(b.re + i * (a.re - b.re), b.im + i * (a.im - b.im))
    r = np.frompyfunc(ite, 3, 1)(c.view(np.ndarray), xo.view(np.ndarray), yo.view(np.ndarray))
    return _wrap(r, vd)


@implements("nonzero", "flatnonzero")
def f_nonzero(a):
    a = lift(a)
    return np.nonzero(np.array([bool(as_bool(v)) for v in a.view(np.ndarray).ravel()], dtype=bool).reshape(a.shape))


@implements("clip")
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@implements("nan_to_num")
def f_nan_to_num(x, **k):
    return x


@implements("empty_like")
def f_empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return np_empty(np.shape(a) if shape is None else shape, a.dtype if dtype is None else dtype)


@implements("zeros_like")
def f_zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return sym_full(np.shape(a) if shape is None else shape, 0, a.dtype if dtype is None else dtype)


@implements("ones_like")
def f_ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return sym_full(np.shape(a) if shape is None else shape, 1, a.dtype if dtype is None else dtype)


@implements("full_like")
def f_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    return sym_full(np.shape(a) if shape is None else shape, fill_value, a.dtype if dtype is None else dtype)


@implements("copy")
def f_copy(a, order="K", subok=False):
    return lift(a).copy(order="C" if order == "K" else order)


@implements("asfortranarray")
def f_asf(a, dtype=None, **k):
    return lift(a).copy(order="F")


@implements("ascontiguousarray")
def f_asc(a, dtype=None, **k):
    a = lift(a)
    return a if a.flags.c_contiguous else a.copy()


@implements("require")
def f_require(a, *args, **k):
    return a


@implements("shape")
def f_shape(a):
    return a.shape


@implements("size")
def f_size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@implements("ndim")
def f_ndim(a):
    return a.ndim


@implements("result_type")
def f_result_type(*args):
    return np.result_type(*[_operand_dt(a) if isinstance(a, (SymArr, SymVal)) else dt_or(a) for a in args])


def dt_or(a):
    return sym._undtype(a)


@implements("can_cast")
def f_can_cast(frm, to, casting="safe"):
    return np.can_cast(frm.dtype if isinstance(frm, (SymArr, SymVal)) else frm, to, casting)


@implements("may_share_memory", "shares_memory")
def f_share(a, b, max_work=None):
    return np.shares_memory(_strip(a), _strip(b))


@implements("pad")
def f_pad(array, pad_width, mode="constant", **kw):
    a = lift(array)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        idx = np.pad(np.arange(1, a.size + 1).reshape(a.shape), pad_width)
        o = _obj(a).ravel()
        z = _untag(as_val(cv))
        r = np.empty(idx.shape, dtype=object)
        rf = r.reshape(-1)
        for i, j in enumerate(idx.ravel()):
            rf[i] = o[j - 1] if j else z
        return _wrap(r, a._vd)
    idx = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode=mode)
    return _wrap(_obj(a).ravel()[idx], a._vd)


@implements("insert")
def f_insert(arr, obj, values, axis=None):
    a, v = lift(arr), lift(values)
    vd = a._vd
    return _wrap(np.insert(_obj(a), obj, _castobj(_obj(v), vd), axis=axis), vd)


@implements("linalg.norm")
def f_norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if axis is None:
        if ord is None or (x.ndim == 1):
            x = x.ravel()
            axis = 0
        elif x.ndim == 2 and ord == "fro":
            x = x.ravel()
            axis = 0
            ord = 2
        else:
            raise Unsupported("matrix norm")
    ord = 2 if ord is None else ord
    if isinstance(ord, str):
        raise ValueError("Invalid norm order for vectors")
    ax = np.abs(x)
    if ord == np.inf:
        return np.max(ax, axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return np.min(ax, axis=axis, keepdims=keepdims)
    if ord == 0:
        return f_count_nonzero(x, axis=axis, keepdims=keepdims).astype(_rdt(x._vd))
    if ord == 2:
        s = (x.conj() * x).real
        return np.sqrt(np.sum(s, axis=axis, keepdims=keepdims))
    r = np.sum(ax ** ord, axis=axis, keepdims=keepdims)
    return r ** (1.0 / ord)


@implements("array_repr", "array_str", "array2string")
def f_repr(a, *k, **kw):
    return repr(a)


@implements("angle")
def f_angle(z, deg=False):
    raise Unsupported("angle")


@implements("save", "savez")
def f_save(*a, **k):
    raise Unsupported("save")


# ---- Fourier transforms as explicit DFT sums --------------------------

def _tw(n, sgn):
    k = np.arange(n)
    m = np.exp(sgn * 2j * np.pi * np.outer(k, k) / n)
    return m


def _apply(mat, a, axis):
    """mat (m x n, complex floats) applied along axis of a"""
    o = _obj(lift(a))
    o = np.moveaxis(o, axis, -1)
    m = np.empty(mat.shape, dtype=object)
    for i in range(mat.shape[0]):
        for j in range(mat.shape[1]):
            z = complex(mat[i, j])
            re = 0.0 if abs(z.real) < 1e-14 else z.real
            im = 0.0 if abs(z.imag) < 1e-14 else z.imag
            m[i, j] = as_val(complex(re, im), tag=False)
    r = np.dot(o, m.T)
    return np.moveaxis(r, -1, axis)


def _scale(norm, n, forward):
    norm = norm or "backward"
    if norm == "ortho":
        return 1.0 / math.sqrt(n)
    if (norm == "backward") != forward:
        return 1.0 / n
    return 1.0


def _resize(a, n, axis):
    a = lift(a)
    m = a.shape[axis]
    if n is None or n == m:
        return a
    if n < m:
        s = [slice(None)] * a.ndim
        s[axis] = slice(0, n)
        return a[tuple(s)]
    pw = [(0, 0)] * a.ndim
    pw[axis] = (0, n - m)
    return f_pad(a, pw)


def _cdt(vd):
    return np.dtype(np.complex64) if vd in (np.dtype(np.float32), np.dtype(np.complex64)) else np.dtype(complex)


def f_fft(a, n=None, axis=-1, norm=None, *x, **k):
    a = _resize(a, n, axis)
    n = a.shape[axis]
    return _wrap(_apply(_tw(n, -1) * _scale(norm, n, True), a, axis), _cdt(a._vd))


def f_ifft(a, n=None, axis=-1, norm=None, *x, **k):
    a = _resize(a, n, axis)
    n = a.shape[axis]
    return _wrap(_apply(_tw(n, 1) * _scale(norm, n, False), a, axis), _cdt(a._vd))


def f_rfft(a, n=None, axis=-1, norm=None, *x, **k):
    a = _resize(a, n, axis)
    if a._vd.kind == "c":
        raise TypeError("ufunc 'rfft' did not contain a loop with signature matching types complex")
    n = a.shape[axis]
    return _wrap(_apply(_tw(n, -1)[: n // 2 + 1] * _scale(norm, n, True), a, axis), _cdt(a._vd))


def f_irfft(a, n=None, axis=-1, norm=None, *x, **k):
    a = lift(a)
    m = a.shape[axis]
    if n is None:
        n = 2 * (m - 1)
    a = _resize(a, n // 2 + 1, axis)
    w = _tw(n, 1)[:, : n // 2 + 1] * _scale(norm, n, False)
    mult = np.full(n // 2 + 1, 2.0)
    mult[0] = 1.0
    if n % 2 == 0:
        mult[-1] = 1.0
    r = _wrap(_apply(w * mult, a, axis), np.dtype(complex)).real
    # the imaginary part of the DC (and Nyquist) bins is ignored
    o = _obj(a)
    return _wrap(_obj(r), _rdt(a._vd) if a._vd.kind == "c" else a._vd) if False else _irfft_exact(a, w, mult, n, axis)


def _irfft_exact(a, w, mult, n, axis):
    o = np.moveaxis(_obj(a).copy(), axis, -1)
    last = n // 2 if n % 2 == 0 else None
    for idx in np.ndindex(o.shape[:-1]):
        o[idx + (0,)] = o[idx + (0,)].real
        if last is not None:
            o[idx + (last,)] = o[idx + (last,)].real
    r = _apply(w * mult, _wrap(o, np.dtype(complex)), -1)
    r = np.frompyfunc(lambda v: v.real, 1, 1)(r)
    vd = np.dtype(np.float32) if lift(a)._vd in (np.dtype(np.complex64), np.dtype(np.float32)) else F64
    return _wrap(np.moveaxis(r, -1, axis), vd)


for _f, _g in (("fft", f_fft), ("ifft", f_ifft), ("rfft", f_rfft), ("irfft", f_irfft)):
    HANDLERS[getattr(np.fft, _f)] = _g


@implements("fft.fftshift")
def f_fftshift(x, axes=None):
    x = lift(x)
    if axes is None:
        axes = tuple(range(x.ndim))
    if isinstance(axes, int):
        axes = (axes,)
    return np.roll(x, [x.shape[a] // 2 for a in axes], axes)


@implements("fft.ifftshift")
def f_ifftshift(x, axes=None):
    x = lift(x)
    if axes is None:
        axes = tuple(range(x.ndim))
    if isinstance(axes, int):
        axes = (axes,)
    return np.roll(x, [-(x.shape[a] // 2) for a in axes], axes)


# ---------------------------------------------------------------------
# creation functions and the numpy proxy

def _is_data_dtype(dt):
    return dt.kind in "fc"


def garbage_empty(shape, dtype=float, order="C", **k):
    """concrete runs: uninitialised memory holds garbage"""
    r = np.empty(shape, dtype=dtype, order=order)
    if r.dtype.kind in "fc":
        r[...] = 7.0e5 + 3.0 * np.arange(r.size).reshape(r.shape)
    elif r.dtype.kind in "iu":
        r[...] = 77
    return r


def np_empty(shape, dtype=float, order="C", **k):
    dt = dt_of(dtype)
    if sym.CTX is None:
        return garbage_empty(shape, dt, order)
    r = np.empty(tuple(np.atleast_1d(_shape(shape)).tolist()) if not isinstance(shape, tuple) else _shape(shape),
                 dtype=object)
    f = r.reshape(-1)
    for i in range(f.size):
        if dt.kind == "b":
            f[i] = sym.poison() > 0
        else:
            f[i] = sym.poison(dt.kind)
    if order == "F":
        r = np.asfortranarray(r)
    return _wrap(r, dt)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s.ravel())
    return (int(s),)


def sym_full(shape, value, dtype):
    dt = dt_of(dtype)
    v = _cast_for_assign(value, dt)
    r = np.empty(_shape(shape), dtype=object)
    r[...] = v
    return _wrap(r, dt)


def np_zeros(shape, dtype=float, order="C", **k):
    dt = dt_of(dtype)
    if sym.CTX is None or not _is_data_dtype(dt):
        return np.zeros(shape, dt, order=order)
    return sym_full(shape, 0, dt)


def np_ones(shape, dtype=float, order="C", **k):
    dt = dt_of(float if dtype is None else dtype)
    if sym.CTX is None or not _is_data_dtype(dt):
        return np.ones(shape, dt, order=order)
    return sym_full(shape, 1, dt)


def np_full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        dtype = fill_value.dtype if isinstance(fill_value, (SymVal, SymArr)) else np.asarray(fill_value).dtype
    dt = dt_of(dtype)
    if sym.CTX is None or not _is_data_dtype(dt):
        return np.full(shape, fill_value, dt, order=order)
    return sym_full(shape, fill_value, dt)


def np_eye(*a, **k):
    if "dtype" in k:
        k["dtype"] = dt_of(k["dtype"])
    if sym.CTX is None:
        return np.eye(*a, **k)
    return lift(np.eye(*a, **k))


def np_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if has_sym(obj):
        a = lift(obj)
        if dtype is not None:
            a = a.astype(dtype)
        elif copy is not False and copy is not None:
            a = a.copy(order="C" if order in ("K", "A", None) else order)
        elif a is obj:
            a = a.view()
        while a.ndim < ndmin:
            a = a[None]
        return a
    return np.array(obj, dtype=None if dtype is None else dt_of(dtype), copy=copy, order=order, subok=subok,
                    ndmin=ndmin, **k)


def np_asarray(obj, dtype=None, order=None, **k):
    if has_sym(obj):
        a = lift(obj)
        if dtype is not None and dt_of(dtype) != a._vd:
            a = a.astype(dtype)
        return a
    return np.asarray(obj, dtype=None if dtype is None else dt_of(dtype), order=order, **k)


def np_fromiter(it, dtype=None, count=-1, **k):
    l = list(it)
    if has_sym(l):
        return np_asarray(l, dtype)
    return np.fromiter(l, dtype, count)


def np_isscalar(x):
    return isinstance(x, (SymVal, SymBool)) or np.isscalar(x)


def np_vectorize(*a, **k):
    raise Unsupported("np.vectorize")


def np_iscomplex(x):
    if has_sym(x):
        return np.not_equal(lift(x).imag, 0)
    return np.iscomplex(x)


def np_isreal(x):
    if has_sym(x):
        return np.equal(lift(x).imag, 0)
    return np.isreal(x)


def np_dtype(x, *a, **k):
    return np.dtype(sym._undtype(x), *a, **k)


def _np_via_handlers(fn):
    """numpy functions applied to lists of symbolic values (no dispatch there)"""
    def g(*args, **kw):
        if any(has_sym(a) for a in args):
            return function_dispatch(fn, args, kw)
        return fn(*args, **kw)
    g.__name__ = fn.__name__
    g.__wrapped__ = fn
    return g


class NPProxy(types.ModuleType):
    """The `numpy` seen by the code under test."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_over"] = {
            "empty": np_empty, "zeros": np_zeros, "ones": np_ones, "full": np_full,
            "eye": np_eye, "identity": np_eye, "array": np_array, "asarray": np_asarray,
            "asanyarray": np_asarray, "fromiter": np_fromiter, "isscalar": np_isscalar,
            "vectorize": np_vectorize, "iscomplex": np_iscomplex, "isreal": np_isreal,
        }
        for n in ("sum", "max", "min", "prod", "concatenate", "vstack", "hstack", "stack", "count_nonzero",
                  "dot", "vdot", "any", "all", "linalg.norm", "array_equal", "mean", "cumsum", "append"):
            if "." not in n:
                self._over[n] = _np_via_handlers(getattr(np, n))

    def __getattr__(self, name):
        o = self.__dict__["_over"].get(name)
        if o is not None:
            return o
        return getattr(np, name)


NP = NPProxy()


class MathProxy(types.ModuleType):
    def __getattr__(self, name):
        f = getattr(math, name)
        if name in ("sqrt", "exp", "log", "sin", "cos", "fabs", "hypot", "isnan", "isfinite", "isinf"):
            uf = {"fabs": np.absolute}.get(name) or getattr(np, name)

            def g(*a):
                if any(isinstance(x, (SymVal, SymArr)) for x in a):
                    r = uf(*a)
                    return bool(r) if name.startswith("is") else r
                return f(*a)
            return g
        if name == "isclose":
            def g(a, b, rel_tol=1e-9, abs_tol=0.0):
                if isinstance(a, SymVal) or isinstance(b, SymVal):
                    raise Unsupported("math.isclose")
                return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
            return g
        return f


MATH = MathProxy("math")


# ---- shadow builtins -----------------------------------------------------

def scalar_type(x):
    """the type the scalar x stands for"""
    if isinstance(x.vd, str):
        return {"pyint": int, "pyfloat": float, "pycomplex": complex}[x.vd]
    return x.dtype.type


def _isinstance(x, c):
    if isinstance(x, SymVal):
        cs = c if isinstance(c, tuple) else (c,)
        t = scalar_type(x)
        return any(_isinstance(x, q) if isinstance(q, tuple) else
                   issubclass(t, getattr(q, "__real_builtin__", q)) or isinstance(x, q) for q in cs)
    return isinstance(x, c)


def _mk_builtin(base, conv):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base) or (isinstance(x, SymVal) and issubclass(scalar_type(x), base))

        def __subclasscheck__(cls, c):
            return issubclass(c, base)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __call__(cls, *a, **k):
            if a and isinstance(a[0], (SymVal, SymArr, SymBool)):
                return conv(*a)
            return base(*a, **k)

        def __getattr__(cls, n):
            return getattr(base, n)

    c = Meta(base.__name__, (), {"__real_builtin__": base})
    return c


def _one(x):
    if isinstance(x, SymArr):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return _tag(x.view(np.ndarray).reshape(-1)[0], x._vd)
    return x


def _to_float(x):
    x = _one(x)
    if isinstance(x, SymBool):
        return float(x.truth())
    if x.vd == "pycomplex":
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if x.re is None:
        return x
    if x.im.t and x.dtype.kind == "c":
        _cwarn()
    return SymVal(x.re, ZERO, "pyfloat")


def _to_int(x):
    x = _one(x)
    if isinstance(x, SymBool):
        return int(x.truth())
    v = cast(x, np.dtype(int))
    if v.is_const():
        return int(v)
    return v.tagged("pyint")


def _to_complex(x, y=0):
    x = _one(x)
    if isinstance(x, SymBool):
        x = as_val(x)
    r = x if isinstance(y, int) and y == 0 else x + as_val(y) * as_val(1j)
    return SymVal(r.re, r.im, "pycomplex")


SHADOW = {"float": _mk_builtin(float, _to_float), "int": _mk_builtin(int, _to_int),
          "complex": _mk_builtin(complex, _to_complex), "isinstance": _isinstance,
          "type": _mk_builtin(type, lambda x, *a: type(x, *a) if a else scalar_type(x) if isinstance(x, SymVal)
                              else np.ndarray if isinstance(x, SymArr) else np.bool_)}
