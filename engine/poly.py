"""Canonical sparse polynomials over the rationals with algebraic atoms.

A monomial is a sorted tuple of atom ids (with repetition); a polynomial maps
monomials to rational coefficients (int or Fraction).  Atoms are either free
real variables or *defined* terms (|p|, roots, 1/p, max, indicator, ...): a
defined atom carries the constraints that pin it down for the SMT solver.
"""
import math
from fractions import Fraction
from math import gcd

__all__ = ["Poly", "ATOMS", "reset", "var", "const", "Unsupported", "rat"]


class Unsupported(Exception):
    """The code under test used something the encoder does not model."""


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "nonneg", "nonzero", "extra", "origin")

    def __init__(self, id, kind, name, arg=None, nonneg=False, nonzero=False, extra=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.arg = arg
        self.nonneg = nonneg
        self.nonzero = nonzero
        self.extra = extra


class AtomTable:
    def __init__(self):
        self.clear()

    def clear(self):
        self.atoms = []
        self.bykey = {}
        self.inv_of = {}      # var id -> inv atom id
        self.var_of_inv = {}  # inv atom id -> var id
        self.reducible = set()  # ids with a power/cancellation rule

    def new(self, kind, name, arg=None, nonneg=False, nonzero=False, extra=None, key=None):
        if key is not None:
            a = self.bykey.get(key)
            if a is not None:
                return a
        a = Atom(len(self.atoms), kind, name, arg, nonneg, nonzero, extra)
        self.atoms.append(a)
        if key is not None:
            self.bykey[key] = a
        return a

    def __getitem__(self, i):
        return self.atoms[i]


ATOMS = AtomTable()


def reset():
    ATOMS.clear()


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_RAT = {}


def rat(x):
    """Rational value of a Python/NumPy number. Floats that are within one
    ulp or so of a small rational are taken to mean that rational."""
    t = type(x)
    if t is int or t is Fraction:
        return _norm(x)
    if t is bool:
        return int(x)
    if t is float:
        r = _RAT.get(x)
        if r is not None:
            return r
        if x != x or x in (float("inf"), float("-inf")):
            raise ValueError("nan/inf")
        f = Fraction(x)
        g = f.limit_denominator(1000)
        if f != g and abs(f - g) <= Fraction(4, 10 ** 16) * max(abs(f), Fraction(1, 1000)):
            f = g
        r = _norm(f)
        if len(_RAT) < 100000:
            _RAT[x] = r
        return r
    # numpy scalars
    import numbers
    if isinstance(x, numbers.Integral) or hasattr(x, "dtype") and x.dtype.kind in "iub":
        return int(x)
    return rat(float(x))


class Poly:
    __slots__ = ("t", "_h", "s", "_sq")

    def __init__(self, t, s=None):
        self.t = t
        self._h = None
        self.s = s          # known sign: 1 (>=0), -1 (<=0), None
        self._sq = None

    # -- basics -------------------------------------------------------
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def nterms(self):
        return len(self.t)

    # -- arithmetic ---------------------------------------------------
    def __add__(self, o):
        a, b = self.t, o.t
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            d = r.get(m)
            if d is None:
                r[m] = c
            else:
                d = _norm(d + c)
                if d == 0:
                    del r[m]
                else:
                    r[m] = d
        s = self.s if (self.s is not None and self.s == o.s) else None
        return Poly(r, s)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, None if self.s is None else -self.s)

    def __sub__(self, o):
        if not o.t:
            return self
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        s = self.s
        if s is not None and k < 0:
            s = -s
        return Poly({m: _norm(c * k) for m, c in self.t.items()}, s)

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(a) > 1 and len(b) > 1 and len(a) * len(b) > LIMITS["product"]:
            raise Unsupported("polynomial product too large (%d x %d terms)" % (len(a), len(b)))
        r = {}
        red = ATOMS.reducible
        again = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                if m1 and m2:
                    m = tuple(sorted(m))
                if red and not red.isdisjoint(m):
                    p = _reduce(m)
                    if p is not None:
                        c = c1 * c2
                        for m3, c3 in p.t.items():
                            d = _norm(r.get(m3, 0) + c * c3)
                            if d == 0:
                                r.pop(m3, None)
                            else:
                                r[m3] = d
                        continue
                c = _norm(r.get(m, 0) + c1 * c2)
                if c == 0:
                    r.pop(m, None)
                else:
                    r[m] = c
        s = None
        if self.s is not None and o.s is not None:
            s = self.s * o.s
        elif a is b or a == b:
            s = 1
        elif len(a) == len(b) and all(b.get(m) == -c for m, c in a.items()):
            s = -1
        return Poly(r, s)

    def __pow__(self, n):
        assert n >= 0
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- structure ----------------------------------------------------
    def content(self):
        """(k, q) with self = k*q, q primitive with positive leading coeff."""
        if not self.t:
            return 0, ZERO
        num = 0
        den = 1
        for c in self.t.values():
            if type(c) is int:
                num = gcd(num, c)
            else:
                num = gcd(num, c.numerator)
                den = den * c.denominator // gcd(den, c.denominator)
        k = Fraction(num, den)
        lead = self.t[min(self.t)]
        if lead < 0:
            k = -k
        k = _norm(k)
        if k == 1:
            return 1, self
        return k, self.scale(_norm(Fraction(1) / k))

    def known_sign(self):
        """1 if certainly >=0, -1 if certainly <=0, else None."""
        if self.s is not None:
            return self.s
        if not self.t:
            return 1
        sg = None
        for m, c in self.t.items():
            i = 0
            n = len(m)
            while i < n:
                j = i
                while j < n and m[j] == m[i]:
                    j += 1
                if (j - i) & 1 and not ATOMS[m[i]].nonneg:
                    return None
                i = j
            k = 1 if c > 0 else -1
            if sg is None:
                sg = k
            elif sg != k:
                return None
        self.s = sg
        return sg

    def known_nonzero(self):
        if not self.t:
            return False
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return all(ATOMS[i].nonzero for i in m)
        sg = self.known_sign()
        # sum of same-signed terms with a nonzero constant
        if sg is not None and () in self.t and self.t[()] * sg > 0:
            return all_same_sign(self)
        return False

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def evaluate(self, env):
        tot = 0.0
        for m, c in self.t.items():
            v = float(c)
            for i in m:
                v *= env(i)
            tot += v
        return tot

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t):
            c = self.t[m]
            f = "*".join(ATOMS[i].name for i in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            else:
                out.append("%s*%s" % (c, f))
            if len(out) > 12:
                out.append("...(%d terms)" % len(self.t))
                break
        return " + ".join(out)


LIMITS = {"product": 4000000}


def all_same_sign(p):
    sg = None
    for m, c in p.t.items():
        i = 0
        n = len(m)
        while i < n:
            j = i
            while j < n and m[j] == m[i]:
                j += 1
            if (j - i) & 1 and not ATOMS[m[i]].nonneg:
                return False
            i = j
        k = c > 0
        if sg is None:
            sg = k
        elif sg != k:
            return False
    return True


ZERO = Poly({}, 1)
ONE = Poly({(): 1}, 1)


def const(c):
    c = rat(c)
    if c == 0:
        return ZERO
    return Poly({(): c}, 1 if c > 0 else -1)


def var(atom):
    return Poly({(atom.id,): 1}, 1 if atom.nonneg else None)


def _reduce(m):
    """Apply atom rules to monomial m; None if already reduced."""
    A = ATOMS
    counts = {}
    for i in m:
        counts[i] = counts.get(i, 0) + 1
    mult = None
    changed = False
    for i in list(counts):
        n = counts.get(i, 0)
        if not n:
            continue
        a = A[i]
        if a.kind == "root" and n >= a.extra:
            k, rem = divmod(n, a.extra)
            counts[i] = rem
            p = a.arg ** k
            mult = p if mult is None else mult * p
            changed = True
        elif a.kind == "abs" and n >= 2:
            k, rem = divmod(n, 2)
            counts[i] = rem
            p = a.arg ** (2 * k)
            mult = p if mult is None else mult * p
            changed = True
        elif a.kind in ("nz", "pos") and n >= 2:
            counts[i] = 1
            changed = True
        elif a.kind == "inv":
            v = A.var_of_inv.get(i)
            if v is not None and counts.get(v):
                k = min(n, counts[v])
                counts[i] = n - k
                counts[v] -= k
                changed = True
    if not changed:
        return None
    base = []
    for i in sorted(counts):
        base.extend([i] * counts[i])
    p = Poly({tuple(base): 1})
    if mult is not None:
        p = p * mult
    else:
        q = _reduce(tuple(base)) if base else None
        if q is not None:
            p = q
    return p


# ---------------------------------------------------------------------
# defined atoms

def inv(q):
    """1/q as a polynomial in inv atoms (q not identically zero)."""
    if q.is_const():
        return const(Fraction(1) / Fraction(q.const_value()))
    k, p = q.content()
    kinv = _norm(Fraction(1) / Fraction(k))
    if p.nterms() == 1:
        (m, c), = p.t.items()
        r = const(kinv)
        for i in m:
            r = r * _inv_atom(i)
        return r
    a = ATOMS.new("inv", "inv%d" % len(ATOMS.atoms), p, nonzero=True,
                  nonneg=(p.known_sign() == 1), key=("inv", p))
    return var(a).scale(kinv)


def _inv_atom(i):
    a = ATOMS[i]
    if a.kind == "inv" and i in ATOMS.var_of_inv:
        return Poly({(ATOMS.var_of_inv[i],): 1}, 1 if a.nonneg else None)
    j = ATOMS.inv_of.get(i)
    if j is None:
        b = ATOMS.new("inv", "inv(%s)" % a.name, var(a), nonneg=a.nonneg, nonzero=True,
                      key=("inv", var(a)))
        j = b.id
        ATOMS.inv_of[i] = j
        ATOMS.var_of_inv[j] = i
        ATOMS.reducible.add(j)
        ATOMS.reducible.add(i)
    return var(ATOMS[j])


def let(p):
    """A name for p (a single atom), to keep quotients compact."""
    if p.nterms() <= 1:
        return p
    k, q = p.content()
    a = ATOMS.new("let", "let%d" % len(ATOMS.atoms), q, nonneg=(q.known_sign() == 1), key=("let", q))
    return var(a).scale(k)


def absolute(p):
    sg = p.known_sign()
    if sg == 1:
        return p
    if sg == -1:
        return -p
    k, q = p.content()
    k = abs(k)
    if q.nterms() == 1:
        (m, c), = q.t.items()
        r = const(k)
        for i in m:
            r = r * _abs_atom(i)
        return r
    a = ATOMS.new("abs", "abs%d" % len(ATOMS.atoms), q, nonneg=True, key=("abs", q))
    ATOMS.reducible.add(a.id)
    return var(a).scale(k)


def _abs_atom(i):
    a = ATOMS[i]
    if a.nonneg:
        return var(a)
    b = ATOMS.new("abs", "|%s|" % a.name, var(a), nonneg=True, nonzero=a.nonzero, key=("abs", var(a)))
    ATOMS.reducible.add(b.id)
    return var(b)


def _isqrt_exact(k, n):
    """n-th root of rational k>=0 if rational else None"""
    k = Fraction(k)

    def r(x):
        if n == 2:
            y = math.isqrt(x)
        elif x.bit_length() > 900:
            return None
        else:
            y = round(x ** (1.0 / n))
        for z in (y - 1, y, y + 1):
            if z >= 0 and z ** n == x:
                return z
        return None
    a, b = r(k.numerator), r(k.denominator)
    if a is None or b is None:
        return None
    return _norm(Fraction(a, b))


def root(p, n):
    """n-th root (>=0) of p, which the caller knows to be >=0."""
    if n == 1:
        return p
    if p.is_zero():
        return ZERO
    k, q = p.content()
    if k < 0:
        k, q = -k, -q
    rk = _isqrt_exact(k, n)
    if rk is None:
        q = q.scale(k)
        rk = 1
    if q.is_const():
        c = _isqrt_exact(q.const_value(), n)
        if c is not None:
            return const(c).scale(rk)
    if q.nterms() == 1:
        (m, c), = q.t.items()
        if c == 1:
            # perfect power of a monomial -> |monomial|^(k)
            cnt = {}
            for i in m:
                cnt[i] = cnt.get(i, 0) + 1
            if all(v % n == 0 for v in cnt.values()):
                r = const(rk)
                for i, v in cnt.items():
                    r = r * (_abs_atom(i) ** (v // n))
                return r
            # single root atom of a root: root(root(q,a),b) = root(q,ab)
            if len(m) == 1 and ATOMS[m[0]].kind == "root":
                b = ATOMS[m[0]]
                return root(b.arg, b.extra * n).scale(rk)
    a = ATOMS.new("root", "root%d_%d" % (n, len(ATOMS.atoms)), q, nonneg=True,
                  nonzero=q.known_nonzero(), extra=n, key=("root", q, n))
    ATOMS.reducible.add(a.id)
    return var(a).scale(rk)


def nonzero_ind(re, im=None):
    """1 if re+i*im != 0 else 0"""
    if im is not None and not im.is_zero():
        if re.is_zero():
            return nonzero_ind(im)
        return nonzero_ind(re * re + im * im)
    if re.is_const():
        return ONE if re.const_value() != 0 else ZERO
    if re.known_nonzero():
        return ONE
    _, q = re.content()
    if q.nterms() == 1:
        (m, c), = q.t.items()
        r = ONE
        for i in set(m):
            r = r * _nz_atom(i)
        return r
    return _nz_poly(q)


def _nz_poly(q):
    a = ATOMS.new("nz", "nz%d" % len(ATOMS.atoms), (q,), nonneg=True, key=("nz", q))
    ATOMS.reducible.add(a.id)
    return var(a)


def _nz_atom(i):
    a = ATOMS[i]
    if a.nonzero:
        return ONE
    if a.kind in ("abs", "root", "let"):
        return nonzero_ind(a.arg)
    if a.kind in ("nz", "pos"):
        return var(a)
    return _nz_poly(var(a))


def positive_ind(q):
    """1 if q > 0 else 0"""
    if q.is_const():
        return ONE if q.const_value() > 0 else ZERO
    k = q.known_sign()
    if k == 1:
        return nonzero_ind(q)
    if k == -1:
        return ZERO
    c, p = q.content()
    if c < 0:
        return nonzero_ind(p) - positive_ind(p)
    a = ATOMS.new("pos", "pos%d" % len(ATOMS.atoms), (p,), nonneg=True, key=("pos", p))
    ATOMS.reducible.add(a.id)
    return var(a)


def extremum(kind, polys):
    """max/min of a collection of real polys as an atom keyed by the set."""
    flat = set()
    cbest = None
    for p in polys:
        if p.is_const():
            c = p.const_value()
            if cbest is None or (c > cbest if kind == "max" else c < cbest):
                cbest = c
            continue
        if p.nterms() == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]].kind == kind:
                for q in ATOMS[m[0]].arg:
                    if q.is_const():
                        cc = q.const_value()
                        if cbest is None or (cc > cbest if kind == "max" else cc < cbest):
                            cbest = cc
                    else:
                        flat.add(q)
                continue
        flat.add(p)
    if cbest is not None:
        if kind == "max" and cbest <= 0 and any(p.known_sign() == 1 for p in flat):
            pass
        else:
            flat.add(const(cbest))
    if len(flat) == 1:
        return next(iter(flat))
    fs = frozenset(flat)
    if kind == "max":
        nn = any(p.known_sign() == 1 for p in fs)
    else:
        nn = all(p.known_sign() == 1 for p in fs)
    a = ATOMS.new(kind, "%s%d" % (kind, len(ATOMS.atoms)), fs, nonneg=nn, key=(kind, fs))
    return var(a)


def uf(name, *polys, nonneg=False):
    a = ATOMS.new("uf", "%s_%d" % (name, len(ATOMS.atoms)), tuple(polys), nonneg=nonneg,
                  extra=name, key=("uf", name) + tuple(polys))
    return var(a)


def ite(cond_key, cond, a, b):
    if a == b:
        return a
    at = ATOMS.new("ite", "ite%d" % len(ATOMS.atoms), (a, b), extra=cond, key=("ite", cond_key, a, b))
    return var(at)
