"""Symbolic scalars, symbolic booleans and the path context."""
import numbers
import operator
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from .poly import Poly, ZERO, ONE, ATOMS, Unsupported, rat, const

ALLSIGNS = frozenset("-0+")


class Infeasible(BaseException):
    """The current path contradicts an assumption (abandon it)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0


STATS = Stats()


def timed_check(s, *a):
    import time
    t = time.perf_counter()
    r = s.check(*a)
    STATS.solver_s += time.perf_counter() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r


# ---------------------------------------------------------------------
# translation to z3

class Z3Env:
    def __init__(self):
        self.vars = {}
        self.cons = []
        self.done = set()
        self.pc = {}

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            a = ATOMS[i]
            if a.kind in ("var", "fdiv") and a.extra == "int":
                v = z3.ToReal(z3.Int("a%d_%s" % (i, a.name)))
            else:
                v = z3.Real("a%d_%s" % (i, a.name))
            self.vars[i] = v
            self._constrain(a, v)
        return v

    def _constrain(self, a, v):
        k = a.kind
        add = self.cons.append
        if a.nonneg and k not in ("abs", "root"):
            add(v >= 0)
        if k == "var":
            if a.nonzero:
                add(v != 0)
            if a.extra is not None and a.extra != "int":   # numeric bounds
                lo, hi = a.extra
                add(v >= z3.Q(*_nd(lo)))
                add(v <= z3.Q(*_nd(hi)))
        elif k == "inv":
            add(v * self.poly(a.arg) == 1)
        elif k == "let":
            add(v == self.poly(a.arg))
        elif k == "abs":
            q = self.poly(a.arg)
            add(v == z3.If(q >= 0, q, -q))
        elif k == "root":
            q = self.poly(a.arg)
            pw = v
            for _ in range(a.extra - 1):
                pw = pw * v
            add(v >= 0)
            add(pw == q)
        elif k == "nz":
            nzc = z3.Or([self.poly(x) != 0 for x in a.arg])
            add(v == z3.If(nzc, z3.RealVal(1), z3.RealVal(0)))
        elif k == "pos":
            add(v == z3.If(self.poly(a.arg[0]) > 0, z3.RealVal(1), z3.RealVal(0)))
        elif k in ("max", "min"):
            qs = [self.poly(x) for x in sorted(a.arg, key=lambda p: sorted(p.t.items()))]
            add(z3.And([v >= q if k == "max" else v <= q for q in qs]))
            add(z3.Or([v == q for q in qs]))
        elif k == "ite":
            add(v == z3.If(a.extra.z3(self), self.poly(a.arg[0]), self.poly(a.arg[1])))
        elif k == "trunc":
            q = self.poly(a.arg)
            add(v == z3.ToReal(z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))))
        elif k == "fdiv":
            q, c = self.poly(a.arg[0]), a.arg[1]
            m = z3.Int("rem_%d" % a.id)
            add(z3.And(0 <= m, m < c))
            add(q == c * v + z3.ToReal(m))
        elif k == "uf":
            f = z3.Function(a.extra, *([z3.RealSort()] * (len(a.arg) + 1)))
            add(v == f(*[self.poly(x) for x in a.arg]))

    def poly(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        terms = []
        for m, c in p.t.items():
            cn, cd = _nd(c)
            cv = z3.Q(cn, cd) if cd != 1 else z3.RealVal(cn)
            if not m:
                terms.append(cv)
                continue
            fs = [self.atom(i) for i in m]
            if c != 1:
                fs = [cv] + fs
            terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.pc[p] = r
        return r


def _nd(c):
    c = Fraction(c)
    return c.numerator, c.denominator


# ---------------------------------------------------------------------
# path context

class Context:
    """One explored path.  `prefix` holds the outcomes of the first forks."""

    def __init__(self, prefix=(), fork_timeout_ms=1500, max_forks=400):
        self.prefix = list(prefix)
        self.taken = []          # outcomes of real forks
        self.alts = []           # indices whose other outcome is unexplored
        self.signs = {}
        self.conds = []          # (op, poly) facts, in order
        self.fork_timeout_ms = fork_timeout_ms
        self.max_forks = max_forks
        self.assumptions = []    # textual
        self.assume_divisors = False
        self.used = set()        # proxied functions that were used
        self.concrete_oracle = None

    # sign facts -------------------------------------------------------
    def signset(self, q):
        s = self.signs.get(q)
        if s is None:
            k = q.known_sign()
            if k == 1:
                s = frozenset("0+")
            elif k == -1:
                s = frozenset("-0")
            else:
                s = ALLSIGNS
            if q.known_nonzero():
                s = s - {"0"}
            self.signs[q] = s
        return s

    def z3_conds(self, env):
        out = []
        for q, s in self.signs.items():
            e = sign_z3(q, s, env)
            if e is not None:
                out.append(e)
        return out

    def feasible(self, q, s):
        env = Z3Env()
        sol = z3.Solver()
        sol.set("timeout", self.fork_timeout_ms if q.nterms() < 60 else self.fork_timeout_ms // 8)
        cs = self.z3_conds(env)
        e = sign_z3(q, s, env)
        if e is not None:
            cs.append(e)
        for c in cs:
            sol.add(c)
        i = 0
        while i < len(env.cons):
            sol.add(env.cons[i])
            i += 1
        r = timed_check(sol)
        return r != z3.unsat

    def decide(self, q, yes):
        """Is sign(q) in `yes`?  (q primitive, positive leading coefficient)"""
        cur = self.signset(q)
        a, b = cur & yes, cur - yes
        if not b:
            return True
        if not a:
            return False
        # The decision to be made must be a function of the path alone, so
        # that replaying a prefix reproduces it: feasibility is cached by
        # position.
        n = len(self.taken)
        if n < len(self.prefix):
            out, forced = self.prefix[n]
        else:
            fa = self.feasible(q, a)
            fb = self.feasible(q, b) if fa else True
            if not fa and not fb:
                raise Infeasible()
            if fa and fb:
                out, forced = True, False
                if n >= self.max_forks:
                    raise Unsupported("too many forks on one path")
            else:
                out, forced = fa, True
        self.taken.append((out, forced))
        self.signs[q] = a if out else b
        return out

    def assume_sign(self, q, s):
        k, p = q.content()
        if k < 0:
            s = frozenset({"-": "+", "0": "0", "+": "-"}[x] for x in s)
        cur = self.signset(p) & s
        if not cur:
            raise Infeasible()
        self.signs[p] = cur


def sign_z3(q, s, env):
    if s == ALLSIGNS or not s:
        return None if s else z3.BoolVal(False)
    e = env.poly(q)
    if s == frozenset("+"):
        return e > 0
    if s == frozenset("-"):
        return e < 0
    if s == frozenset("0"):
        return e == 0
    if s == frozenset("0+"):
        return e >= 0
    if s == frozenset("-0"):
        return e <= 0
    return e != 0


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------------
# booleans

class SymBool:
    """Boolean combination of sign conditions."""
    __slots__ = ("op", "args")
    __array_priority__ = 2000

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        return self.truth()

    def truth(self):
        o = self.op
        if o == "const":
            return self.args[0]
        if o == "sign":
            q, s = self.args
            return CTX.decide(q, s)
        if o == "not":
            return not self.args[0].truth()
        if o == "and":
            return self.args[0].truth() and self.args[1].truth()
        if o == "or":
            return self.args[0].truth() or self.args[1].truth()
        raise AssertionError(o)

    def z3(self, env):
        o = self.op
        if o == "const":
            return z3.BoolVal(self.args[0])
        if o == "sign":
            e = sign_z3(self.args[0], self.args[1], env)
            return z3.BoolVal(True) if e is None else e
        if o == "not":
            return z3.Not(self.args[0].z3(env))
        if o == "and":
            return z3.And(self.args[0].z3(env), self.args[1].z3(env))
        return z3.Or(self.args[0].z3(env), self.args[1].z3(env))

    def key(self):
        return (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a for a in self.args)

    def const(self):
        """the value if it is fixed (by the decisions of the path), or None"""
        o = self.op
        if o == "const":
            return self.args[0]
        if o == "sign":
            cur = CTX.signs.get(self.args[0]) if CTX is not None else None
            if cur is None or cur - self.args[1] and cur & self.args[1]:
                return None
            return not (cur - self.args[1])
        a = self.args[0].const()
        if o == "not":
            return None if a is None else not a
        b = self.args[1].const()
        if o == "and":
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None

    def ind(self):
        """The indicator (0 or 1) of the condition, as a polynomial."""
        o = self.op
        if o == "const":
            return ONE if self.args[0] else ZERO
        if o == "sign":
            q, s = self.args
            cur = CTX.signs.get(q) if CTX is not None else None
            if cur is not None and (cur <= s or not (cur & s)):
                return ONE if cur <= s else ZERO
            r = ZERO
            if s == frozenset("-+"):
                return P.nonzero_ind(q)
            if "0" in s:
                return ONE - SymBool("sign", q, ALLSIGNS - s).ind()
            if "+" in s:
                return P.positive_ind(q)
            if "-" in s:
                return P.nonzero_ind(q) - P.positive_ind(q)
            return r
        if o == "not":
            return ONE - self.args[0].ind()
        a, b = self.args
        nz = frozenset("-+")
        if o == "or" and a.op == b.op == "sign" and a.args[1] == b.args[1] == nz:
            return P.nonzero_ind(a.args[0], b.args[0])
        x, y = a.ind(), b.ind()
        return x * y if o == "and" else x + y - x * y

    def __invert__(self):
        if self.op == "const":
            return SymBool("const", not self.args[0])
        return SymBool("not", self)

    def __and__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        for a, b in ((self, o), (o, self)):
            if a.op == "const":
                return b if a.args[0] else a
        return SymBool("and", self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        for a, b in ((self, o), (o, self)):
            if a.op == "const":
                return a if a.args[0] else b
        return SymBool("or", self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        return (self & ~o) | (~self & o)
    __rxor__ = __xor__

    def __eq__(self, o):
        b = as_bool(o)
        if b is NotImplemented:
            return b
        return ~(self ^ b)

    def __ne__(self, o):
        b = as_bool(o)
        if b is NotImplemented:
            return b
        return self ^ b

    def __hash__(self):
        return hash(self.key())

    # numeric use: concretise by forking
    def __int__(self):
        return int(self.truth())
    __index__ = __int__

    def __float__(self):
        return float(self.truth())

    def __add__(self, o):
        return as_val(self) + o

    def __radd__(self, o):
        return o + as_val(self)

    def __mul__(self, o):
        return as_val(self) * o

    def __rmul__(self, o):
        return o * as_val(self)

    @property
    def dtype(self):
        return np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def all(self, *a, **k):
        return self
    any = all

    def item(self):
        return self.truth()

    def astype(self, dt, **k):
        return np.dtype(dt).type(self.truth())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymBool(%s)" % (self.op,)


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def as_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    if isinstance(o, SymVal):
        return o != 0
    if isinstance(o, numbers.Number):
        return TRUE if o else FALSE
    return NotImplemented


def sign_cond(p, s):
    """condition sign(p) in s"""
    if p.is_const():
        c = p.const_value()
        k = "0" if c == 0 else "+" if c > 0 else "-"
        return TRUE if k in s else FALSE
    k, q = p.content()
    if k < 0:
        s = frozenset({"-": "+", "0": "0", "+": "-"}[x] for x in s)
    kn = ALLSIGNS
    sg = q.known_sign()
    if sg == 1:
        kn = frozenset("0+")
    elif sg == -1:
        kn = frozenset("-0")
    if q.known_nonzero():
        kn = kn - {"0"}
    if kn <= s:
        return TRUE
    if not (kn & s):
        return FALSE
    return SymBool("sign", q, frozenset(s))


# ---------------------------------------------------------------------
# scalars

_PYW = {"pyint": 1, "pyfloat": 1.0, "pycomplex": 1j}
_promo = {}


def _dummy(tag):
    if isinstance(tag, str):
        return _PYW[tag]
    return np.ones((), dtype=tag)[()]


def tag_of(x):
    """dtype tag of a scalar operand"""
    if isinstance(x, SymVal):
        return x.vd
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return np.dtype(bool)
    if isinstance(x, int):
        return "pyint"
    if isinstance(x, float):
        return "pyfloat"
    if isinstance(x, complex):
        return "pycomplex"
    if isinstance(x, Fraction):
        return "pyfloat"
    if isinstance(x, SymBool):
        return np.dtype(bool)
    return None


def result_tag(res):
    if isinstance(res, (np.generic, np.ndarray)):
        return res.dtype
    if isinstance(res, bool):
        return np.dtype(bool)
    if isinstance(res, int):
        return "pyint"
    if isinstance(res, float):
        return "pyfloat"
    if isinstance(res, complex):
        return "pycomplex"
    return None


_PYOPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
          "pow": operator.pow, "floordiv": operator.floordiv, "mod": operator.mod}


def promote(op, ta, tb):
    if ta is None or tb is None:
        return None
    k = (op, ta, tb)
    r = _promo.get(k)
    if r is None:
        try:
            with np.errstate(all="ignore"):
                r = result_tag(_PYOPS[op](_dummy(ta), _dummy(tb)))
        except TypeError:
            r = np.result_type(_dummy(ta), _dummy(tb))
        _promo[k] = r
    return r


PINF = Poly({("inf",): 1})
NINF = Poly({("-inf",): 1})
MODULUS = {}
POWERS = {}


def inf_sign(v):
    """+1/-1 for the infinities, else 0"""
    return 1 if v.im is PINF else -1 if v.im is NINF else 0


class Quo:
    """numerator of // and %: numbers, or an integer poly and a positive int"""

    def __new__(cls, n, c=None, vd=None):
        if c is None:
            return n
        q = object.__new__(cls)
        q.n, q.c, q.vd = n, c, vd
        return q

    def __floordiv__(self, c):
        a = ATOMS.new("fdiv", "fdiv%d" % len(ATOMS.atoms), (self.n, c), nonneg=self.n.known_sign() == 1,
                      extra="int", key=("fdiv", self.n, c))
        return SymVal(P.var(a), ZERO, self.vd)

    def __mod__(self, c):
        return SymVal(self.n - (self // c).re.scale(c), ZERO, self.vd)


class SymVal:
    """A complex number re + i*im with polynomial parts (None: undefined)."""
    __slots__ = ("re", "im", "vd")
    __array_priority__ = 3000

    def __init__(self, re, im=ZERO, vd=None):
        self.re = re
        self.im = im
        self.vd = vd

    # -- numpy-scalar look and feel -------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        v = self.vd
        if v is None:
            return np.dtype(complex) if not self.isreal() else np.dtype(float)
        if isinstance(v, str):
            return np.dtype({"pyint": int, "pyfloat": float, "pycomplex": complex}[v])
        return v

    @property
    def T(self):
        return self

    def isnan(self):
        return self.re is None

    def isreal(self):
        return (self.re is not None and self.im.is_zero()) or (self.re is None and inf_sign(self) != 0)

    def is_const(self):
        return self.re is not None and self.re.is_const() and self.im.is_const()

    def tagged(self, vd):
        return SymVal(self.re, self.im, vd)

    @property
    def real(self):
        if self.re is None:
            return self
        return SymVal(self.re, ZERO, _real_tag(self.vd))

    @property
    def imag(self):
        if self.re is None:
            return self
        return SymVal(self.im, ZERO, _real_tag(self.vd))

    def conjugate(self):
        if self.re is None:
            return self
        return SymVal(self.re, -self.im, self.vd)
    conj = conjugate

    def item(self, *a):
        if self.vd is None or isinstance(self.vd, str):
            return self
        k = self.vd.kind
        return self.tagged({"f": "pyfloat", "c": "pycomplex"}.get(k, "pyint"))

    def astype(self, dt, *a, **k):
        return cast(self, np.dtype(_undtype(dt)), tag=True)

    def copy(self, *a):
        return self

    def squeeze(self, *a, **k):
        return self

    def ravel(self, *a, **k):
        from .symarr import lift
        return lift(self).reshape(1)
    flatten = ravel

    def reshape(self, *shape, **k):
        from .symarr import lift
        return lift(self).reshape(*shape, **k)

    def sum(self, *a, **k):
        return self
    max = min = mean = sum

    def all(self, *a, **k):
        return self != 0
    any = all

    def __getitem__(self, idx):
        from .symarr import lift
        return lift(self)[idx]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return hash((self.re, self.im))

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is np.ndarray or not isinstance(o, SymVal):
            return np.add(self, o)
        if self.re is None or o.re is None:
            return SymVal(None, ZERO, promote("add", self.vd, o.vd))
        im = self.im + o.im if o.im.t else self.im
        return SymVal(self.re + o.re, im, promote("add", self.vd, o.vd))

    def __radd__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else (o + self if isinstance(o, SymVal) else np.add(o, self))

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return np.subtract(self, o)
        if self.re is None or o.re is None:
            return SymVal(None, ZERO, promote("sub", self.vd, o.vd))
        im = self.im - o.im if o.im.t else self.im
        return SymVal(self.re - o.re, im, promote("sub", self.vd, o.vd))

    def __rsub__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else (o - self if isinstance(o, SymVal) else np.subtract(o, self))

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return np.multiply(self, o)
        vd = promote("mul", self.vd, o.vd)
        if self.re is None or o.re is None:
            return SymVal(None, ZERO, vd)
        if not self.im.t and not o.im.t:
            return SymVal(self.re * o.re, ZERO, vd)
        return SymVal(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, vd)

    def __rmul__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else (o * self if isinstance(o, SymVal) else np.multiply(o, self))

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return np.divide(self, o)
        vd = promote("div", self.vd, o.vd)
        if self.re is None or o.re is None:
            return SymVal(None, ZERO, vd)
        if not o.im.t:
            d = o.re
            num = (self.re, self.im)
        else:
            d = o.re * o.re + o.im * o.im
            num = (self.re * o.re + self.im * o.im, self.im * o.re - self.re * o.im)
        if d.is_zero():
            return SymVal(None, ZERO, vd)
        if not d.is_const() and not d.known_nonzero():
            k, q = d.content()
            if "0" in CTX.signset(q):
                # a division by zero is a path of its own (its result is
                # not a number); only the recurrences of the solvers declare
                # that they leave it out (exact breakdown)
                if CTX.signset(q) == frozenset("0"):
                    return SymVal(None, ZERO, vd)
                if CTX.assume_divisors:
                    CTX.signs[q] = CTX.signset(q) - {"0"}
                    CTX.assumptions.append("divisor nonzero")
                elif CTX.decide(q, frozenset("0")):
                    return SymVal(None, ZERO, vd)
        if d.nterms() > 6:
            d = P.let(d)
        iv = P.inv(d)
        if not d.is_const() and iv.nterms() == 1:
            num = tuple(P.let(x) if x.nterms() > 6 else x for x in num)
        return SymVal(num[0] * iv, num[1] * iv if num[1].t else ZERO, vd)

    def __rtruediv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else (o / self if isinstance(o, SymVal) else np.divide(o, self))

    def __neg__(self):
        if self.re is None:
            return SymVal(None, {1: NINF, -1: PINF}.get(inf_sign(self), ZERO), self.vd)
        return SymVal(-self.re, -self.im if self.im.t else ZERO, self.vd)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.re is None and inf_sign(self):
            return SymVal(None, PINF, self.vd)
        return SymVal(_absval(self), ZERO, _real_tag(self.vd))

    def __pow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return np.power(self, o)
        return power(self, o, promote("pow", self.vd, o.vd))

    def __rpow__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else (o ** self if isinstance(o, SymVal) else np.power(o, self))

    def __floordiv__(self, o):
        a, b = self._ints(o)
        return a // b

    def __rfloordiv__(self, o):
        return as_val(o) // self

    def __mod__(self, o):
        a, b = self._ints(o)
        return a % b

    def __rmod__(self, o):
        return as_val(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def _ints(self, o):
        o = as_val(o)
        if self.is_const() and o.is_const():
            return Quo(self.re.const_value()), o.re.const_value()
        c = o.re.const_value() if o.is_const() else None
        if o.im.t or self.im.t or c is None or int(c) != c or c <= 0 or not is_integer_poly(self.re):
            raise Unsupported("integer division of symbolic values")
        return Quo(self.re, int(c), self.vd), int(c)

    # -- comparison -----------------------------------------------------
    def _cmp(self, o, s):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return {frozenset("+"): np.greater, frozenset("0+"): np.greater_equal,
                    frozenset("-"): np.less, frozenset("-0"): np.less_equal}[s](self, o)
        if self.re is None or o.re is None:
            a, b = inf_sign(self), inf_sign(o)
            if (self.re is None and not a) or (o.re is None and not b):
                return FALSE
            k = "0" if a == b else "+" if a > b else "-"
            return TRUE if k in s else FALSE
        d = self.re - o.re
        e = self.im - o.im
        if e.is_zero():
            return sign_cond(d, s)
        # complex ordering (lexicographic, numpy)
        strict = s - {"0"}
        return sign_cond(d, strict) | (sign_cond(d, frozenset("0")) & sign_cond(e, s))

    def __gt__(self, o):
        return self._cmpinf(o, "+")

    def __ge__(self, o):
        return self._cmpinf(o, "0+")

    def __lt__(self, o):
        return self._cmpinf(o, "-")

    def __le__(self, o):
        return self._cmpinf(o, "-0")

    def _cmpinf(self, o, s):
        if isinstance(o, (float, np.floating)) and (o != o or o in (np.inf, -np.inf)):
            o = as_val(float(o))
        return self._cmp(o, frozenset(s))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, SymVal):
            return np.equal(self, o)
        if self.re is None or o.re is None:
            return TRUE if inf_sign(self) and inf_sign(self) == inf_sign(o) else FALSE
        z = frozenset("0")
        return sign_cond(self.re - o.re, z) & sign_cond(self.im - o.im, z)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return ~r

    def __bool__(self):
        return bool(self != 0)

    # -- conversion -----------------------------------------------------
    def _c(self):
        if self.re is None:
            return {1: float("inf"), -1: float("-inf")}.get(inf_sign(self), float("nan"))
        if not self.re.is_const() or not self.im.is_zero():
            raise Unsupported("symbolic value where a concrete number is needed")
        return self.re.const_value()

    def __float__(self):
        return float(self._c())

    def __int__(self):
        return int(self._c())

    def __complex__(self):
        if self.re is None:
            return complex("nan")
        if not self.is_const():
            raise Unsupported("symbolic value where a concrete number is needed")
        return complex(float(self.re.const_value()), float(self.im.const_value()))

    def __index__(self):
        c = self._c()
        if int(c) != c:
            raise TypeError("float cannot be interpreted as an integer")
        return int(c)

    def is_integer(self):
        return self.is_const() and Fraction(self.re.const_value()).denominator == 1

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self), n) if n is not None else round(float(self))
        raise Unsupported("round of a symbolic value")

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        if self.re is None:
            return "<undef>"
        if self.im.is_zero():
            return "<%r>" % (self.re,)
        return "<%r + i(%r)>" % (self.re, self.im)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symarr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .symarr import function_dispatch
        return function_dispatch(func, args, kwargs)

    def dot(self, o):
        return self * o

    def to_device(self, *a):
        return self


numbers.Complex.register(SymVal)


def _undtype(dt):
    return getattr(dt, "__real_builtin__", dt)


def _real_tag(vd):
    if vd is None:
        return None
    if isinstance(vd, str):
        return "pyfloat" if vd == "pycomplex" else vd
    if vd.kind == "c":
        return np.zeros((), vd).real.dtype
    return vd


def _coerce(o):
    """operand -> SymVal, or the array itself, or NotImplemented"""
    if isinstance(o, SymVal):
        return o
    if isinstance(o, np.ndarray):
        return o
    if isinstance(o, SymBool):
        return SymVal(o.ind(), ZERO, None)
    if isinstance(o, (numbers.Number, np.generic)):
        return as_val(o)
    return NotImplemented


def as_val(o, tag=True):
    if isinstance(o, SymVal):
        return o
    if isinstance(o, SymBool):
        return SymVal(o.ind(), ZERO, np.dtype(bool) if tag else None)
    vd = tag_of(o) if tag else None
    if isinstance(o, (complex, np.complexfloating)):
        try:
            return SymVal(const(float(o.real)), const(float(o.imag)), vd)
        except ValueError:
            return SymVal(None, ZERO, vd)
    try:
        return SymVal(const(o), ZERO, vd)
    except ValueError:
        return SymVal(None, PINF if o > 0 else NINF if o < 0 else ZERO, vd)


def _absval(v):
    """|v| as poly (None if undefined)"""
    if v.re is None:
        return None
    if v.im.is_zero():
        p = v.re
        if p.known_sign() is None and CTX is not None and not p.is_const():
            k, q = p.content()
            s = CTX.signs.get(q)
            if s is not None:
                if "-" not in s:
                    return p if k > 0 else -p
                if "+" not in s:
                    return -p if k > 0 else p
        return P.absolute(p)
    if v.re.is_zero():
        return _absval(SymVal(v.im))
    m = MODULUS.get((v.re, v.im))
    if m is not None:
        return m
    return P.root(v.re * v.re + v.im * v.im, 2)


def square_root(v):
    if v.re is None:
        return v
    vd = v.vd
    rt = None
    if vd is not None:
        rt = np.sqrt(_dummy(vd)).dtype
    if v.im.is_zero():
        p = v.re
        sg = p.known_sign()
        if sg != 1:
            c = sign_cond(p, frozenset("-"))
            if c.truth():
                if rt is not None and rt.kind == "c":
                    return SymVal(ZERO, P.root(-p, 2), rt)
                return SymVal(None, ZERO, rt)
        return SymVal(P.root(p, 2), ZERO, rt)
    # principal complex root
    m = _absval(v)
    re = P.root((m + v.re).scale(Fraction(1, 2)), 2)
    im = P.root((m - v.re).scale(Fraction(1, 2)), 2)
    if sign_cond(v.im, frozenset("-")).truth():
        im = -im
    return SymVal(re, im, rt)


def power(a, b, vd):
    """a ** b with constant real exponent b"""
    if a.re is None or b.re is None:
        return SymVal(None, ZERO, vd)
    if not b.is_const() or not b.im.is_zero():
        if a.is_const() and a.re == ONE and a.im.is_zero():
            return SymVal(ONE, ZERO, vd)
        raise Unsupported("symbolic exponent")
    e = Fraction(b.re.const_value())
    if e.denominator == 1:
        n = e.numerator
        if n < 0:
            one = SymVal(ONE, ZERO, None)
            r = one / power(a, SymVal(const(-n)), None)
            return SymVal(r.re, r.im, vd)
        if a.im.is_zero():
            r = a.re ** n
            if n > 1 and not a.re.is_const() and a.re.known_sign() == 1:
                POWERS[r] = (a.re, n)
            return SymVal(r, ZERO, vd)
        r = SymVal(ONE)
        base = SymVal(a.re, a.im)
        for _ in range(n):
            r = r * base
        if n > 1 and not r.im.is_zero():
            MODULUS[(r.re, r.im)] = _absval(base) ** n
        return SymVal(r.re, r.im, vd)
    # fractional
    if e.denominator > 1000:
        raise Unsupported("irrational exponent")
    if not a.im.is_zero():
        if e == Fraction(1, 2):
            r = square_root(SymVal(a.re, a.im))
            return SymVal(r.re, r.im, vd)
        # |z|^e * exp(i e arg z): keep the modulus exact, the phase opaque
        m = _absval(SymVal(a.re, a.im))
        r = _frac(m, e)
        c = P.uf("cosarg%s" % e, a.re, a.im)
        s2 = ONE - c * c
        s = P.uf("sinarg%s" % e, a.re, a.im)
        return SymVal(r * c, r * s, vd)
    p = a.re
    if p.known_sign() != 1 and sign_cond(p, frozenset("-")).truth():
        return SymVal(None, ZERO, vd)
    if e < 0:
        r = SymVal(ONE) / SymVal(_frac(p, -e))
        return SymVal(r.re, ZERO, vd)
    return SymVal(_frac(p, e), ZERO, vd)


def _frac(p, e):
    q = POWERS.get(p)           # p was computed as u ** n, u >= 0
    if q is not None and (q[1] * e).denominator == 1:
        return q[0] ** int(q[1] * e)
    return P.root(p, e.denominator) ** e.numerator


def trunc(p):
    if p.is_const():
        c = Fraction(p.const_value())
        return const(int(c))
    a = ATOMS.new("trunc", "trunc%d" % len(ATOMS.atoms), p, key=("trunc", p))
    return P.var(a)


def is_integer_poly(p):
    return all((type(c) is int or Fraction(c).denominator == 1) and
               all(getattr(ATOMS[i], "extra", None) == "int" for i in m) for m, c in p.t.items())


def cast(v, dt, tag=False):
    """numpy 'unsafe' cast of one value to dtype dt"""
    t = dt if tag else None
    if isinstance(v, SymBool):
        if dt.kind == "b":
            return v
        v = SymVal(v.ind())
    k = dt.kind
    if k == "O":
        return v
    if v.re is None:
        return SymVal(None, v.im, t)
    if k == "c":
        return SymVal(v.re, v.im, t) if (v.vd is not t) else v
    if k == "f":
        return SymVal(v.re, ZERO, t) if (v.im.t or v.vd is not t) else v
    if k in "iu":
        if v.re.is_const():
            return SymVal(const(int(Fraction(v.re.const_value()))), ZERO, t)
        if is_integer_poly(v.re):
            return SymVal(v.re, ZERO, t)
        return SymVal(trunc(v.re), ZERO, t)
    if k == "b":
        return v != 0
    raise Unsupported("cast to %s" % dt)


# ---------------------------------------------------------------------
# creation of inputs

def new_real(name, nonneg=False, nonzero=False, bounds=None, key=None):
    a = ATOMS.new("var", name, nonneg=nonneg, nonzero=nonzero, extra=bounds, key=key or ("var", name))
    return P.var(a)


_poison = [0]


def poison(kind="f"):
    """Fresh, unconstrained value: content of uninitialised memory."""
    _poison[0] += 1
    n = _poison[0]
    re = new_real("uninit%d" % n)
    if kind == "c":
        return SymVal(re, new_real("uninit%di" % n))
    return SymVal(re)


def reset_inputs():
    MODULUS.clear()
    POWERS.clear()
    _poison[0] = 0
