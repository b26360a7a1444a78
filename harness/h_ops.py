"""Operator algebra (C09), stacked operators (C10), block operators (C11),
adjoints (C16): every operator is compared with the dense matrix it stands
for, built here from the definition."""
from . import harness
from .util import *
import json
import random


# ---------------------------------------------------------------- dense side

def zeros(env, m, n, dtype):
    return env.np.zeros((m, n), dtype=np.dtype(dtype)) if not env.symbolic else \
        env.array("zero", (m, n), dtype) * 0


def bdiag(env, blocks, dtype):
    m = sum(b.shape[0] for b in blocks)
    n = sum(b.shape[1] for b in blocks)
    M = zeros(env, m, n, dtype)
    i = j = 0
    for b in blocks:
        M[i:i + b.shape[0], j:j + b.shape[1]] = b
        i, j = i + b.shape[0], j + b.shape[1]
    return M


def herm(M):
    return M.conj().T


def fat(env, A, nz, dtype):
    """A acting on the first axis of an array with nz trailing entries"""
    m, n = A.shape
    M = zeros(env, m * nz, n * nz, dtype)
    for k in range(nz):
        M[k::nz, k::nz] = A
    return M


def deriv_stencil(n, kind, order, edge, d):
    """Serial first derivative as a dense matrix of fractions, rows that the
    documented stencil does not reach are zero (or one-sided with edge)."""
    F = Fraction
    M = np.zeros((n, n), dtype=object) + F(0)
    d = F(d)

    def put(i, cs):
        for j, c in cs:
            if 0 <= i + j < n:
                M[i, i + j] += F(c) / d
            else:
                raise AssertionError("stencil leaves the grid")
    if kind == "forward":
        for i in range(n - 1):
            put(i, [(0, -1), (1, 1)])
    elif kind == "backward":
        for i in range(1, n):
            put(i, [(-1, -1), (0, 1)])
    elif order == 3:
        for i in range(1, n - 1):
            put(i, [(-1, F(-1, 2)), (1, F(1, 2))])
        if edge:
            put(0, [(0, -1), (1, 1)])
            put(n - 1, [(-1, -1), (0, 1)])
    else:
        for i in range(2, n - 2):
            put(i, [(-2, F(1, 12)), (-1, F(-8, 12)), (1, F(8, 12)), (2, F(-1, 12))])
        if edge:
            put(0, [(0, -1), (1, 1)])
            put(1, [(-1, F(-1, 2)), (1, F(1, 2))])
            put(n - 2, [(-1, F(-1, 2)), (1, F(1, 2))])
            put(n - 1, [(-1, -1), (0, 1)])
    return M


def second_stencil(n, kind, edge, d):
    F = Fraction
    M = np.zeros((n, n), dtype=object) + F(0)
    d = F(d) ** 2

    def put(i, j):
        for q, c in ((0, 1), (1, -2), (2, 1)):
            M[i, j + q] += F(c) / d
    if kind == "forward":
        for i in range(n - 2):
            put(i, i)
    elif kind == "backward":
        for i in range(2, n):
            put(i, i - 2)
    else:
        for i in range(1, n - 1):
            put(i, i - 1)
        if edge:
            put(0, 0)
            put(n - 1, n - 3)
    return M


def along(M1, dims, axis):
    """the 1-d operator M1 acting along `axis` of a C-ordered array `dims`"""
    a = int(np.prod(dims[:axis], dtype=int))
    b = int(np.prod(dims[axis + 1:], dtype=int))
    n, m = M1.shape[1], M1.shape[0]
    M = np.zeros((a * m * b, a * n * b), dtype=object) + Fraction(0)
    for i in range(a):
        for k in range(b):
            for r in range(m):
                for c in range(n):
                    if M1[r, c] != 0:
                        M[(i * m + r) * b + k, (i * n + c) * b + k] = M1[r, c]
    return M


def num(env, M):
    """matrix of fractions -> matrix of the backend"""
    return np.array([[float(v) for v in row] for row in M]).reshape(M.shape)


# ---------------------------------------------------------------- operators

def fixed(name, m, n, dtype, spd=False):
    """a concrete integer matrix (Hermitian positive definite and well
    conditioned when spd)"""
    rnd = random.Random(name)
    k = 1 if spd else 3

    def ints():
        return np.array([[rnd.randint(-k, k) for _ in range(n)] for _ in range(m)], dtype=dtype)
    A = ints()
    if np.dtype(dtype).kind == "c":
        A = A + 1j * ints()
    if spd:
        A = A + A.conj().T + (n + 3) * np.eye(n)
    return A.astype(dtype)


class Lib:
    """builds operators from specifications, with their dense matrices"""

    def __init__(self, env, leaves, dtype):
        self.env, self.leaves, self.dtype = env, leaves, dtype
        self.made, self.serial = {}, {}

    def dt_of(self, name):
        """dtype of one block: "dt" of its leaf, or "dts" per rank and block"""
        q = name.split(".")
        s = self.leaves.get(q[0]) or {}
        if "dts" in s:
            d = s["dts"][int(q[1])]
            return d if isinstance(d, str) else d[int(q[2])]
        return s.get("dt", self.dtype)

    def block(self, name, m, n):
        s = self.leaves.get(name.split(".")[0]) or {}
        if "fix" in s:
            return fixed(name + str(s["fix"]), m, n, self.dt_of(name), s.get("spd"))
        return self.env.array(name, (m, n), self.dt_of(name))

    def mm(self, name, m, n):
        pl = self.env.pylops
        if name not in self.serial:     # one name: one serial operator object
            self.serial[name] = pl.MatrixMult(self.block(name, m, n), dtype=np.dtype(self.dt_of(name)))
        return self.serial[name]

    def rank_ops(self, nm, ms, ns):
        rep = self.leaves[nm].get("rep")    # per rank: which operator each block is
        env = self.env
        per = []
        for r in range(env.P):
            a = ms[r] if isinstance(ms[r], (list, tuple)) else [ms[r]]
            b = ns[r] if isinstance(ns[r], (list, tuple)) else [ns[r]]
            per.append([("%s.%d.%d" % ((nm, 0, rep[r][k]) if rep else (nm, r, k)), i, j)
                        for k, (i, j) in enumerate(zip(a, b))])
        return per

    def leaf(self, nm):
        if nm in self.made:
            return self.made[nm]
        env, pm, pl = self.env, self.env.pm, self.env.pylops
        s = self.leaves[nm]
        k = s["k"]
        dt = np.dtype(self.dtype)
        r = env.rank
        if k == "D":
            per = self.rank_ops(nm, s["m"], s["n"])
            op = pm.MPIBlockDiag(ops=[self.mm(*q) for q in per[r]])
            M = bdiag(env, [self.block(*q) for p in per for q in p], dt)
        elif k in ("V", "Hs"):
            per = self.rank_ops(nm, s["m"], s["n"])
            ops = [self.mm(*q) for q in per[r]]
            blocks = [self.block(*q) for p in per for q in p]
            if k == "V":
                op, M = pm.MPIVStack(ops=ops), env.np.concatenate(blocks, axis=0)
            else:
                op, M = pm.MPIHStack(ops=ops), env.np.concatenate(blocks, axis=1)
        elif k == "L":      # the same serial operator on every rank
            op = pm.asmpilinearoperator(self.mm(nm, s["m"], s["n"]))
            M = self.block(nm, s["m"], s["n"])
        elif k == "diag":   # serial Diagonal blocks
            vs = [env.array("%s.%d" % (nm, q), (n,), dt) for q, n in enumerate(s["n"])]
            op = pm.MPIBlockDiag(ops=[pl.Diagonal(vs[r], dtype=dt)])
            M = bdiag(env, [env.np.diag(v) for v in vs], dt)
        elif k == "id":
            op = pm.MPIBlockDiag(ops=[pl.Identity(s["n"][r], dtype=dt)])
            M = np.eye(sum(s["n"]))
        elif k in ("FD", "SD"):
            dims = tuple(s["dims"])
            kw = {q: s[q] for q in ("kind", "edge", "order") if q in s}
            d = par(env, s.get("d", 1.0), "d")
            if "d" in s:
                kw["sampling"] = d
            kind, edge = s.get("kind", "centered"), s.get("edge", False)
            arg = dims[0] if s.get("int") else dims
            if k == "FD":
                op = pm.MPIFirstDerivative(arg, dtype=dt, **kw)
                M = over(env, num(env, along(deriv_stencil(dims[0], kind, s.get("order", 3), edge, 1), dims, 0)), d)
            else:
                op = pm.MPISecondDerivative(arg, dtype=dt, **kw)
                M = over(env, num(env, along(second_stencil(dims[0], kind, edge, 1), dims, 0)), d, 2)
        elif k == "Lap":
            op, M = laplacian(env, s, dt)
        elif k == "Fr":     # Fredholm1 on broadcast vectors
            nsl, nx, ny, nz = s["nsl"], s["nx"], s["ny"], s["nz"]
            G = env.array(nm, (sum(nsl), nx, ny), dt)
            kw = dict(nz=nz, saveGt=s.get("saveGt", False), usematmul=s.get("usematmul", True), dtype=dt)
            for q in s.get("omit", ()):
                del kw[q]
            op = sub("signalprocessing", env).MPIFredholm1(G[block(nsl, r)], **kw)
            M = bdiag(env, [fat(env, G[i], nz, dt) for i in range(sum(nsl))], dt)
        elif k in ("SB", "SV"):
            sub_ops = [self.ev(e) for e in s["ops"]]
            if k == "SB":
                op, M = pm.MPIStackedBlockDiag(ops=[o for o, _ in sub_ops]), bdiag(env, [A for _, A in sub_ops], dt)
            else:
                op, M = pm.MPIStackedVStack(ops=[o for o, _ in sub_ops]), \
                    env.np.concatenate([A for _, A in sub_ops], axis=0)
        elif k == "Gr":
            dims = tuple(s["dims"])
            kw = {q: s[q] for q in ("kind", "edge") if q in s}
            smp = [par(env, v, "h%d" % i) for i, v in enumerate(s.get("smp", [1.0] * len(dims)))]
            if "smp" in s:
                kw["sampling"] = tuple(smp)
            if s.get("scalar"):
                kw["sampling"] = smp[0] = par(env, s["scalar"], "h")
                smp = [smp[0]] * len(dims)
            op = pm.MPIGradient(dims=dims, dtype=dt, **kw)
            M = env.np.concatenate([over(env, num(env, along(deriv_stencil(
                dims[i], s.get("kind", "centered"), 3, s.get("edge", False), 1), dims, i)), smp[i])
                for i in range(len(dims))], axis=0)
        else:
            raise AssertionError(k)
        self.made[nm] = (op, M)
        return op, M

    def ev(self, e):
        env = self.env
        if isinstance(e, str):
            return self.leaf(e)
        o = e[0]
        if o in ("+", "-", "@", "*", "dot"):
            (a, A), (b, B) = self.ev(e[1]), self.ev(e[2])
            if o == "+":
                return a + b, A + B
            if o == "-":
                return a - b, A - B
            return (a @ b if o == "@" else a * b if o == "*" else a.dot(b)), env.np.dot(A, B)
        if o in ("sc", "scr"):
            al = scal(env, e[1], self.dtype)
            a, A = self.ev(e[2])
            return (al * a if o == "sc" else a * al), A * al
        a, A = self.ev(e[1])
        if o == "neg":
            return -a, -A
        if o == "pow":
            M = env.np.eye(A.shape[0]) if env.symbolic else np.eye(A.shape[0])
            for _ in range(e[2]):
                M = env.np.dot(M, A)
            return a ** e[2], M
        if o == "T":
            return a.T, A.T
        if o == "H":
            return a.H, herm(A)
        if o == "conj":
            return a.conj(), A.conj()
        if o == "as":
            return env.pm.asmpilinearoperator(a), A
        if o == "meth":
            return getattr(a, e[2])(), {"adjoint": herm, "transpose": lambda M: M.T}[e[2]](A)
        raise AssertionError(o)


def scal(env, name, dtype):
    if not isinstance(name, str):
        return name
    if name[0].isdigit():
        return complex(name)
    if ":" in name:             # "al:complex64" is a numpy scalar, "al:float" a Python number
        return env.scalar(*name.split(":"))
    return env.scalar(name, "complex" if np.dtype(dtype).kind == "c" or name.startswith("z") else "float")


def par(env, v, name):
    """a number, or a symbolic nonzero scalar when v is "sym\""""
    return env.scalar(name, nonzero=True) if v == "sym" else v


def laplacian(env, s, dt):
    """weighted sum of second derivatives; as in PyLops the requested kind
    is the one of the first axis listed, the others are centered"""
    dims = tuple(s["dims"])
    kw = {}
    axes = s.get("axes", [-2, -1])
    if "axes" in s:
        kw["axes"] = tuple(axes)
    w = [par(env, v, "w%d" % i) for i, v in enumerate(s.get("weights", [1] * len(axes)))]
    d = [par(env, v, "h%d" % i) for i, v in enumerate(s.get("smp", [1] * len(axes)))]
    if "weights" in s:
        kw["weights"] = tuple(w)
    if "smp" in s:
        kw["sampling"] = tuple(d)
    kind, edge = s.get("kind", "centered"), s.get("edge", False)
    kw.update((q, s[q]) for q in ("kind", "edge") if q in s)
    op = env.pm.MPILaplacian(dims=dims, dtype=dt, **kw)
    M = None
    for i, ax in enumerate(axes):
        ax %= len(dims)
        T = num(env, along(second_stencil(dims[ax], kind if i == 0 else "centered", edge, 1), dims, ax))
        T = over(env, T * 1.0, d[i], 2) * w[i]
        M = T if M is None else M + T
    return op, M


def over(env, M, d, p=1):
    """M / d**p"""
    if env.symbolic and not isinstance(d, (int, float)):
        M = env.np.asarray(M)
        for _ in range(p):
            M = M * (1 / d)
        return M
    return M / d ** p


def give(env, lay, name, n, dtype):
    """distributed vector with the layout `lay`: "B" (replicated) or sizes;
    {"st": [[n, layout], ...]} is a stack of vectors"""
    if isinstance(lay, dict):
        parts = [give(env, l, "%s_%d" % (name, i), k, dtype) for i, (k, l) in enumerate(lay["st"])]
        return env.np.concatenate([g for g, _ in parts]), env.pm.StackedDistributedArray([d for _, d in parts])
    g = env.array(name, (n,), dtype)
    if lay == "B":
        return g, place(env, g, "BROADCAST")
    if lay == "U":
        return g, place(env, g, "UNSAFE_BROADCAST")
    return g, place(env, g, "SCATTER", 0, lay)


def same(env, label, y, want, lay=None):
    if isinstance(lay, dict):
        env.true(label + " is stacked", isinstance(y, env.pm.StackedDistributedArray) and y.narrays == len(lay["st"]))
        env.eq(label + " gathered", y.asarray(), want)
        lo = 0
        for i, (k, l) in enumerate(lay["st"]):
            same(env, "%s[%d]" % (label, i), y[i], want[lo:lo + k], l)
            lo += k
        return
    env.true(label + " global shape", tuple(int(i) for i in y.global_shape) == tuple(want.shape))
    env.eq(label, y.asarray(), want)
    if y.partition is not env.pm.Partition.SCATTER:
        env.eq(label + " local", y.local_array, want)
    if lay is not None:
        env.true(label + " partition", (y.partition is env.pm.Partition.SCATTER) == (lay not in ("B", "U")))
        if lay not in ("B", "U"):
            env.true(label + " local shape", tuple(int(i) for i in y.local_shape) == (lay[y.rank],))


def snaps(env, x):
    return [Snap(env, d) for d in (x.distarrays if hasattr(x, "distarrays") else [x])]


def both_ways(env, op, M, dom, ran, dtype, label="", check_lay=True, bilinear=False, vdt=None, side=None):
    m, n = M.shape
    env.true(label + "operator shape", tuple(int(i) for i in op.shape) == (m, n))
    gx, x = give(env, dom, label + "x", n, vdt or dtype)
    gy, y = give(env, ran, label + "y", m, vdt or dtype)
    sx, sy = snaps(env, x), snaps(env, y)
    f = a = None
    if side != "adj":
        f = op.matvec(x)
        same(env, label + "forward", f, env.np.dot(M, gx), ran if check_lay else None)
    if side != "fwd":
        a = op.rmatvec(y)
        same(env, label + "adjoint", a, env.np.dot(herm(M), gy), dom if check_lay else None)
    for q in sx + sy:
        q.check(label + "input")
    if bilinear:
        fa, aa = f.asarray(), a.asarray()
        env.eq(label + "dot test", env.np.sum(fa.conj() * gy), env.np.sum(gx.conj() * aa))
    return f, a


# ------------------------------------------------------------------ C09

def square(P):
    s = [1 + (r % 2) for r in range(P)]
    return {"a": dict(k="D", m=s, n=s), "b": dict(k="D", m=s, n=s), "d": dict(k="diag", n=s)}, s


EXPRS = ["a", ["+", "a", "b"], ["-", "a", "b"], ["neg", "a"], ["sc", "al", "a"], ["scr", "al", "a"],
         ["sc", 2, "a"], ["scr", -3.0, "a"], ["@", "a", "b"], ["*", "a", "b"], ["dot", "a", "b"],
         ["T", "a"], ["H", "a"], ["conj", "a"], ["pow", "a", 0], ["pow", "a", 1], ["pow", "a", 2], ["as", "a"],
         ["meth", "a", "adjoint"], ["meth", "a", "transpose"]]
UN = [lambda e: ["neg", e], lambda e: ["sc", "al", e], lambda e: ["scr", "be", e], lambda e: ["T", e],
      lambda e: ["H", e], lambda e: ["conj", e], lambda e: ["pow", e, 2]]
MIX = [("complex128", "float64"), ("complex64", "complex128"), ("float32", "float64"), ("complex64", "float32"),
       ("float64", "float32")]
BIN = [lambda e, f: ["+", e, f], lambda e, f: ["-", e, f], lambda e, f: ["@", e, f]]


def nested(tier):
    out = []
    one = [u("a") for u in UN] + [b("a", "b") for b in BIN]
    for u in UN:
        for e in one:
            if e[0] == "pow" or (u("x")[0] == "pow" and e[0] == "@"):
                continue
            out.append(u(e))
    for b in BIN:
        for e in one:
            if e[0] != "pow":
                out.append(b(e, "d"))
                out.append(b("d", e))
    out += [["-", ["@", ["sc", "al", "a"], ["H", "b"]], ["pow", "d", 2]],
            ["H", ["+", ["@", "a", ["T", "b"]], ["scr", "be", ["conj", "d"]]]],
            ["conj", ["-", ["sc", "al", ["H", "a"]], ["@", "b", "d"]]],
            ["+", ["+", "a", "b"], ["-", "d", ["neg", ["conj", "a"]]]],
            ["T", ["@", ["conj", "a"], ["-", "b", ["sc", "al", "d"]]]],
            ["H", ["pow", ["+", "a", "d"], 2]], ["sc", "al", ["scr", "be", ["sc", "al", "a"]]]]
    return out


def selfmade(tier):
    """expressions in which one operator object occurs more than once"""
    us = [lambda e: e] + UN[:-1] + [lambda e: ["sc", "be:complex64", e], lambda e: ["scr", 0, e]]
    out = []
    for i, u in enumerate(us):
        for j, v in enumerate(us):
            for k, b in enumerate(BIN):
                out.append(b(u("a"), v("a")))
                if (i + j + k) % 4 == 0 or tier != "quick":
                    out.append(["H", b(u("a"), v("a"))])
                if (i + 2 * j + k) % 5 == 0 or tier != "quick":
                    out.append(b(u(["+", "a", "b"]), v("a")))
                    out.append(b(v("b"), u(["@", "b", "a"])))
    return out


def typed():
    """scalars of numpy and Python types"""
    out = []
    for q in ("al:complex64", "al:complex128", "al:float32", "al:float64", "al:complex", "al:float"):
        out += [["sc", q, "a"], ["scr", q, "a"], ["H", ["sc", q, "a"]], ["T", ["scr", q, "a"]],
                ["conj", ["sc", q, ["H", "a"]]], ["sc", "be", ["scr", q, "a"]], ["+", ["sc", q, "a"], "a"]]
    return out + [["sc", v, "a"] for v in (0, 0.0, 1, -1, True, "1j", "1+2j", "0j")] + \
        [["H", ["scr", v, "a"]] for v in (0, 1.0, -1, "1j", "2-1j")]


def rect(P):
    """rectangular operators with matching layouts and broadcast spaces"""
    m = [1 + (r + 1) % 2 for r in range(P)]
    n = [2 - (r % 2) for r in range(P)]
    q = [1] * P
    L = {"A": dict(k="D", m=m, n=n), "A2": dict(k="D", m=m, n=n), "B": dict(k="D", m=n, n=q),
         "V": dict(k="V", m=n, n=[2] * P), "V2": dict(k="V", m=n, n=[2] * P),
         "H": dict(k="Hs", m=[2] * P, n=n), "H2": dict(k="Hs", m=[2] * P, n=n),
         "L": dict(k="L", m=2, n=2), "K": dict(k="L", m=3, n=2)}
    E = [("A", n, m), (["+", "A", "A2"], n, m), (["@", "A", "B"], q, m), (["H", ["@", "A", "B"]], m, q),
         (["T", ["-", "A", ["sc", "al", "A2"]]], m, n), (["@", ["H", "A"], "A"], n, n),
         ("V", "B", n), (["H", "V"], n, "B"), (["@", "A", "V"], "B", m), (["@", ["H", "V"], "V2"], "B", "B"),
         (["+", "V", ["scr", "al", "V2"]], "B", n), (["T", ["-", "V", "V2"]], n, "B"), (["conj", ["neg", "V"]], "B", n),
         ("H", n, "B"), (["H", "H"], "B", n), (["@", "H", ["H", "A"]], m, "B"), (["@", "V", "H"], n, n),
         (["@", ["T", "H"], "H2"], n, n), (["-", ["H", "H"], "V"], "B", n),
         ("L", "B", "B"), (["@", "L", "L"], "B", "B"), (["@", "V", "L"], "B", n), (["@", "K", "H"], n, "B"),
         (["@", ["pow", "L", 2], ["H", "V"]], n, "B"), (["H", ["+", "L", ["conj", "L"]]], "B", "B"),
         (["scr", "al", ["T", ["@", "K", "L"]]], "B", "B"), (["pow", ["@", ["H", "V"], "V2"], 2], "B", "B"),
         ("L", "U", "U"), (["@", "V", "L"], "U", n)]
    return L, E


def c_alg(tier):
    out = []
    hi = 3 if tier == "quick" else 5
    for P in range(1, hi + 1):
        L, s = square(P)
        ex = EXPRS + (nested(tier) if P == 2 or tier != "quick" else thin(nested(tier), 5, P % 5))
        for i, e in enumerate(ex):
            for dt in (("complex128", "float64") if tier != "quick" or i % 4 == 0 else ("complex128",)):
                out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype=dt))
        if P == 2 or tier != "quick":
            for e in selfmade(tier):
                out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype="complex128"))
            for i, e in enumerate(typed()):
                # (a real operator times a complex scalar has a complex result)
                for dt in ("complex128", "complex64") if tier != "quick" or i % 5 == 0 else ("complex128",):
                    out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype=dt))
                if not (isinstance(e[1], str) and "complex" in e[1]) and "j" not in str(e):
                    out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype="float64", vdt="float32"))
        # vectors of another type than the operator
        pool = ex + selfmade(tier)[::7]
        for i, e in enumerate(pool):
            k = 2 if tier == "quick" and P != 2 else 1
            dt, vdt = MIX[i % len(MIX)]
            if dt[0] == "f" and "complex" in str(e):
                continue
            if i % k == 0:
                out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype=dt, vdt=vdt))
                if dt[0] == vdt[0] or i % 2:
                    out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype="complex128", vdt="float64"))
        L, E = rect(P)
        for i, (e, d, r) in enumerate(E):
            out.append(dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype="complex128" if i % 2 or P == 2 else "float64"))
            out.append(dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype="complex128", vdt="float64"))
            if tier != "quick":
                out.append(dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype="float64"))
    # derivative and Fredholm operators inside expressions
    for P in (2, 3):
        n = P + 3
        L = {"F": dict(k="FD", dims=[n], kind="centered", edge=True), "S": dict(k="SD", dims=[n], kind="forward"),
             "d": dict(k="diag", n=splits(n, P)), "G": dict(k="Fr", nsl=splits(2 * P + 1, P), nx=2, ny=1, nz=1)}
        s = splits(n, P)
        for e in (["@", "F", "d"], ["+", "F", ["H", "S"]], ["H", ["@", "S", ["T", "F"]]], ["pow", "F", 2],
                  ["-", ["sc", "al", "F"], ["conj", "d"]]):
            out.append(dict(P=P, leaves=L, expr=e, dom=s, ran=s, dtype="complex128"))
        for e, in ((["@", ["H", "G"], "G"],), (["pow", ["@", "G", ["H", "G"]], 2],), (["+", ["T", "G"], ["H", "G"]],)):
            out.append(dict(P=P, leaves=L, expr=e, dom="B", ran="B", dtype="complex128"))
    return out


@harness("C09", c_alg, groups=40)
def algebra(env, leaves, expr, dom, ran, dtype, vdt=None):
    lib = Lib(env, leaves, dtype)
    op, M = lib.ev(expr)
    env.true("is an operator", isinstance(op, env.pm.MPILinearOperator))
    f, a = both_ways(env, op, M, dom, ran, dtype, vdt=vdt)
    # the other spellings of "apply"
    gx, x = give(env, dom, "x", M.shape[1], vdt or dtype)
    gy, y = give(env, ran, "y", M.shape[0], vdt or dtype)
    env.eq("op @ x", (op @ x).asarray(), env.np.dot(M, gx))
    env.eq("op.dot(x)", op.dot(x).asarray(), env.np.dot(M, gx))
    env.eq("op.H @ y", (op.H @ y).asarray(), env.np.dot(herm(M), gy))
    env.eq("op.H.rmatvec", op.H.rmatvec(x).asarray(), env.np.dot(M, gx))
    env.eq("op.T @ y", (op.T * y).asarray(), env.np.dot(M.T, gy))
    env.eq("op.T.rmatvec", op.T.rmatvec(x).asarray(), env.np.dot(M.conj(), gx))
    env.eq("op.conj() @ x", (op.conj() @ x).asarray(), env.np.dot(M.conj(), gx))
    env.eq("op.conj().rmatvec", op.conj().rmatvec(y).asarray(), env.np.dot(M.T, gy))
    # leaves are not changed by building or applying expressions
    for nm, (o, A) in list(lib.made.items()):
        if A.shape == M.shape and isinstance(expr, list):
            env.eq("leaf %s afterwards" % nm, o.matvec(x).asarray(), env.np.dot(A, gx)) \
                if A.shape[1] == M.shape[1] and leaves[nm]["k"] in ("D", "diag") and dom not in ("B", "U") else None


# ------------------------------------------------------------------ C10

def stacks(P):
    s = [1 + (r % 2) for r in range(P)]
    t = [1] * P
    ns, nt = sum(s), P
    L = {"a": dict(k="D", m=s, n=s), "b": dict(k="D", m=s, n=s), "c": dict(k="D", m=t, n=t), "e": dict(k="D", m=t, n=s),
         "V": dict(k="V", m=s, n=[2] * P), "W": dict(k="V", m=t, n=[2] * P), "L": dict(k="L", m=2, n=2),
         "SB": dict(k="SB", ops=["a", "c"]), "SB2": dict(k="SB", ops=["b", "c"]),
         "SBr": dict(k="SB", ops=["a", "e"]),
         "SV": dict(k="SV", ops=["a", "e"]), "SV2": dict(k="SV", ops=["b", "e"]), "SVb": dict(k="SV", ops=["V", "W"]),
         "SV3": dict(k="SV", ops=["a", "b", ["@", "a", "b"]]), "SBl": dict(k="SB", ops=["L", "V", ["H", "W"]]),
         # the same operator object in several places
         "SR": dict(k="SB", ops=["a", "a"]), "SR3": dict(k="SB", ops=["c", "a", "c", "a"]),
         "SRe": dict(k="SB", ops=["e", "e"]), "SRv": dict(k="SV", ops=["a", "a"]),
         "SRw": dict(k="SV", ops=["e", "a", "e"])}
    A = {"st": [[ns, s], [nt, t]]}
    R = {"st": [[ns, s], [ns, s]]}
    T3 = {"st": [[ns, s]] * 3}
    X = {"st": [[2, "B"], [2, "B"], [nt, t]]}
    Y = {"st": [[2, "B"], [ns, s], [2, "B"]]}
    RR = {"st": [[nt, t], [nt, t]]}
    R4 = {"st": [[nt, t], [ns, s]] * 2}
    RW = {"st": [[nt, t], [ns, s], [nt, t]]}
    E = [("SR", R, R), (["H", "SR"], R, R), (["T", "SR"], R, R), ("SR3", R4, R4), (["conj", "SR3"], R4, R4),
         (["@", "SR", ["H", "SR"]], R, R), (["pow", "SR3", 2], R4, R4), ("SRe", R, RR), (["@", "SRe", ["+", "SR", "SR"]], R, RR),
         ("SRv", s, R), (["H", "SRv"], R, s), (["@", ["H", "SRv"], ["@", "SR", "SRv"]], s, s), ("SRw", s, RW),
         (["H", ["-", "SRw", ["sc", "al", "SRw"]]], RW, s),
         ("SB", A, A), (["+", "SB", "SB2"], A, A), (["-", "SB", "SB2"], A, A), (["neg", "SB"], A, A),
         (["sc", "al", "SB"], A, A), (["scr", "al", "SB"], A, A), (["@", "SB", "SB2"], A, A), (["*", "SB", "SB2"], A, A),
         (["pow", "SB", 0], A, A), (["pow", "SB", 1], A, A), (["pow", "SB", 2], A, A), (["conj", "SB"], A, A),
         (["T", "SB"], A, A), (["H", "SB"], A, A), (["H", ["@", "SB", ["H", "SB2"]]], A, A),
         (["conj", ["sc", "al", ["T", "SB"]]], A, A), (["sc", "al", ["scr", "be", "SB"]], A, A),
         (["H", ["+", ["H", "SB"], ["H", "SB2"]]], A, A), (["pow", ["sc", "al", "SB"], 2], A, A),
         ("SBr", R, A), (["@", "SB", "SBr"], R, A), (["H", "SBr"], A, R), (["@", ["H", "SBr"], "SBr"], R, R),
         ("SV", s, A), (["H", "SV"], A, s), (["T", "SV"], A, s), (["conj", "SV"], s, A), (["+", "SV", "SV2"], s, A),
         (["-", "SV", "SV2"], s, A), (["neg", "SV"], s, A), (["scr", "al", "SV"], s, A),
         (["@", "SB", "SV"], s, A), (["@", ["H", "SV"], "SV2"], s, s), (["@", ["H", "SV"], ["@", "SB", "SV2"]], s, s),
         (["H", ["@", "SB", "SV"]], A, s), (["pow", ["@", ["H", "SV"], "SV"], 2], s, s),
         (["@", "SV", ["H", "SV2"]], A, A), (["T", ["-", ["sc", "al", "SV"], ["scr", "be", "SV2"]]], A, s),
         ("SVb", "B", A), (["H", "SVb"], A, "B"), (["@", ["H", "SVb"], "SVb"], "B", "B"), ("SV3", s, T3),
         (["H", "SV3"], T3, s), ("SBl", X, Y), (["H", "SBl"], Y, X), (["conj", ["sc", "al", "SBl"]], X, Y)]
    return L, E


def used(L, e):
    """the leaves an expression needs"""
    out = {}

    def go(x):
        if isinstance(x, str):
            if x in L and x not in out:
                out[x] = L[x]
                for q in L[x].get("ops", []):
                    go(q)
        elif isinstance(x, list):
            for q in x[1:]:
                go(q)
    go(e)
    return out


def sum_refused(e):
    """stacked operators of different kinds may refuse to be added"""
    def kind(x):
        while isinstance(x, list) and x[0] in ("sc", "scr", "neg"):
            x = x[-1] if x[0] != "neg" else x[1]
        return x[0] if isinstance(x, list) else x[:2]

    if isinstance(e, list):
        if e[0] in ("+", "-") and kind(e[1]) != kind(e[2]):
            return True
        return any(sum_refused(q) for q in e[1:])
    return False


def c_stk(tier):
    out = []
    for P in range(1, 4 if tier == "quick" else 6):
        L, E = stacks(P)
        for i, (e, d, r) in enumerate(E):
            for dt in (("complex128", "float64") if tier != "quick" else ("complex128" if (i + P) % 3 else "float64",)):
                out.append(dict(P=P, leaves=used(L, e), expr=e, dom=d, ran=r, dtype=dt))
                if i % 2 or tier != "quick":
                    out.append(dict(P=P, leaves=used(L, e), expr=e, dom=d, ran=r, dtype="complex128", vdt="float64"))
        if P == 2 or tier != "quick":
            # the same operator object more than once; scalars of other types
            ua = [lambda e: e, lambda e: ["neg", e], lambda e: ["sc", "al", e], lambda e: ["scr", "be:complex64", e],
                  lambda e: ["conj", e]]
            ub = ua + [lambda e: ["H", e], lambda e: ["T", e]]
            d = r = next(q for q in E if q[0] == "SB")[1]
            for i, u in enumerate(ub):
                for j, v in enumerate(ub):
                    for b in BIN:
                        e = b(u("SB"), v("SB"))
                        out.append(dict(P=P, leaves=used(L, e), expr=e, dom=d, ran=r, dtype="complex128"))
                    if i < len(ua) and j < len(ua):
                        for b in BIN[:2]:
                            e = b(u("SV"), v("SV" if (i + j) % 3 else "SV2"))
                            sv = next(q for q in E if q[0] == "SV")
                            out.append(dict(P=P, leaves=used(L, e), expr=e, dom=sv[1], ran=sv[2], dtype="complex128"))
                            e = ["H", e] if (i + j) % 2 else ["T", e]
                            out.append(dict(P=P, leaves=used(L, e), expr=e, dom=sv[2], ran=sv[1], dtype="complex128"))
            for e in typed():
                e = json.loads(json.dumps(e).replace('"a"', '"SB"'))
                out.append(dict(P=P, leaves=used(L, e), expr=e, dom=d, ran=r, dtype="complex128"))
                e = json.loads(json.dumps(e).replace('"SB"', '"SV"'))
                if '"H", "SV"' not in json.dumps(e):
                    fl = e[0] in ("H", "T")
                    out.append(dict(P=P, leaves=used(L, e), expr=e, dom=sv[2 if fl else 1], ran=sv[1 if fl else 2],
                                    dtype="complex128"))
        dims = [2 * P + 1, 2]
        s = [2 * k for k in splits(2 * P + 1, P)]
        G = {"st": [[sum(s), s]] * 2}
        for j, kind in enumerate(("forward", "backward", "centered")):
            L = {"Gr": dict(k="Gr", dims=dims, kind=kind, edge=bool(j % 2), smp=[1.0, 0.5])}
            for e, d, r in (("Gr", s, G), (["H", "Gr"], G, s), (["@", ["H", "Gr"], "Gr"], s, s),
                            (["sc", "al", "Gr"], s, G)):
                out.append(dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype="complex128"))
    for c in out:
        if sum_refused(c["expr"]):
            c["_partial"] = True
    return [mark(c) for c in out]


@harness("C10", c_stk, groups=40)
def stacked_algebra(env, leaves, expr, dom, ran, dtype, vdt=None):
    lib = Lib(env, leaves, dtype)
    op, M = lib.ev(expr)
    env.true("is a stacked operator", isinstance(op, env.pm.MPIStackedLinearOperator))
    both_ways(env, op, M, dom, ran, dtype, vdt=vdt)
    gx, x = give(env, dom, "x", M.shape[1], vdt or dtype)
    gy, y = give(env, ran, "y", M.shape[0], vdt or dtype)
    dot = env.np.dot
    same(env, "op @ x", op @ x, dot(M, gx), ran)
    same(env, "op.H @ y", op.H @ y, dot(herm(M), gy), dom)
    same(env, "op.H.rmatvec", op.H.rmatvec(x), dot(M, gx), ran)
    same(env, "op.T @ y", op.T.dot(y), dot(M.T, gy), dom)
    same(env, "op.T.rmatvec", op.T.rmatvec(x), dot(M.conj(), gx), ran)
    same(env, "op.conj() @ x", op.conj() @ x, dot(M.conj(), gx), ran)
    same(env, "op.conj().rmatvec", op.conj().rmatvec(y), dot(M.T, gy), dom)
    same(env, "again", op.matvec(x), dot(M, gx), ran)


# ------------------------------------------------------------------ C11

def c_blk(tier):
    out = []
    hi = 5 if tier == "quick" else 8
    for P in range(1, hi + 1):
        one = [1 + r % 3 for r in range(P)]
        two = [2 - r % 2 for r in range(P)]
        lists_m = [[1] * (1 + r % 3) for r in range(P)]
        lists_n = [[1 + k % 2 for k in range(1 + r % 3)] for r in range(P)]
        big = [[3, 1] if r == P - 1 else [1] for r in range(P)]
        shapes = [(one, two), (two, one), (lists_m, lists_n), (lists_n, lists_m), (big, big), ([1] * P, [1] * P)]
        for i, (m, n) in enumerate(shapes):
            for dt in ("complex128", "float64"):
                out.append(dict(P=P, leaf=dict(k="D", m=m, n=n), dtype=dt))
        for j, m in enumerate((one, two, lists_m, big, [1] * P)):
            for nc in (1, 2, 3):
                n = [[nc] * len(q) if isinstance(q, list) else nc for q in m]
                out.append(dict(P=P, leaf=dict(k="V", m=m, n=n), dtype="complex128" if (j + nc) % 2 else "float64"))
                out.append(dict(P=P, leaf=dict(k="Hs", m=n, n=m), dtype="float64" if (j + nc) % 2 else "complex128"))
        rnd = random.Random(P)
        for t in range(24 if tier == "quick" else 200):
            nb = [rnd.choice((1, 1, 2, 3)) for _ in range(P)]
            m = [[rnd.randint(1, 3) for _ in range(k)] for k in nb]
            n = [[rnd.randint(1, 3) for _ in range(k)] for k in nb]
            nc = rnd.randint(1, 3)
            c = [[nc] * k for k in nb]
            leaf = (dict(k="D", m=m, n=n), dict(k="V", m=m, n=c), dict(k="Hs", m=c, n=n))[t % 3]
            dt, vdt = [("complex128", None), ("float64", None)] [t % 2] if t % 4 else MIX[(t // 4) % len(MIX)]
            out.append(dict(P=P, leaf=leaf, dtype=dt, vdt=vdt))
            if t % 3 == 0 and P > 1 and t % 4 == 1:
                out.append(dict(P=P, leaf=leaf, dtype=dt, mask=[rnd.randint(0, 1) for _ in range(P)]))
        # the same serial operator object several times in a list, and on several ranks
        for t in range(3):
            rep = [[(r * t + k * k) % (2 + t % 2) for k in range(1 + (r + t) % 4)] for r in range(P)]
            m = [[2] * len(q) for q in rep]
            n = [[1 + t % 2] * len(q) for q in rep]
            dt = "complex128" if (t + P) % 2 else "float64"
            for leaf in (dict(k="D", m=m, n=n), dict(k="V", m=m, n=n), dict(k="Hs", m=m, n=n)):
                out.append(dict(P=P, leaf=dict(leaf, rep=rep), dtype=dt))
        out.append(dict(P=P, leaf=dict(k="diag", n=one), dtype="complex128"))
        out.append(dict(P=P, leaf=dict(k="id", n=two), dtype="float64"))
        if P > 1:
            out.append(dict(P=P, leaf=dict(k="D", m=one, n=two), dtype="float64", mask=[r % 2 for r in range(P)]))
    return out


def lay_of(q):
    return [sum(x) if isinstance(x, list) else x for x in q]


@harness("C11", c_blk, groups=40)
def blocks(env, leaf, dtype, mask=None, vdt=None):
    k = leaf["k"]
    lib = Lib(env, {"o": leaf}, dtype)
    op, M = lib.leaf("o")
    dom = lay_of(leaf["n"])
    ran = lay_of(leaf.get("m", leaf["n"]))
    if k == "V":
        dom = "B"
    if k == "Hs":
        ran = "B"
    if mask is None:
        both_ways(env, op, M, dom, ran, dtype, vdt=vdt)
        env.true("dtype", np.dtype(op.dtype) == np.dtype(dtype))
        if k == "V":
            both_ways(env, op, M, "U", ran, dtype, "unsafe ", check_lay=False)
        if k == "Hs":
            both_ways(env, op, M, dom, "U", dtype, "unsafe ", check_lay=False)
        return
    pm = env.pm
    per = lib.rank_ops("o", leaf["m"], leaf["n"])
    op = pm.MPIBlockDiag(ops=[lib.mm(*q) for q in per[env.rank]], mask=list(mask))
    gx, gy = env.array("x", (M.shape[1],), dtype), env.array("y", (M.shape[0],), dtype)
    x = place(env, gx, "SCATTER", 0, dom, mask)
    y = place(env, gy, "SCATTER", 0, ran, mask)
    f, a = op.matvec(x), op.rmatvec(y)
    same(env, "masked forward", f, env.np.dot(M, gx), ran)
    same(env, "masked adjoint", a, env.np.dot(herm(M), gy), dom)
    env.true("mask of the result", list(f.mask) == list(mask) and list(a.mask) == list(mask))
    # reductions over the results stay within the group
    mine = [r for r in range(env.P) if mask[r] == mask[env.rank]]
    Mf = env.np.dot(M, gx)
    want = sum((env.np.sum(Mf[block(ran, r)] * gy[block(ran, r)]) for r in mine[1:]),
               env.np.sum(Mf[block(ran, mine[0])] * gy[block(ran, mine[0])]))
    env.eq("masked dot", env.np.asarray(f.dot(y)).reshape(-1), env.np.asarray(want).reshape(-1))


def rows_needed(leaf):
    """rows per rank below which the library refuses the operator"""
    k, kind = leaf["k"], leaf.get("kind", "centered")
    if k == "FD" or k == "Gr":
        if kind != "centered":
            return 1
        return 4 if leaf.get("order", 3) == 5 else 2
    if k in ("SD", "Lap"):
        if k == "Lap" and 0 not in [a % len(leaf["dims"]) for a in leaf.get("axes", [-2, -1])]:
            return 1
        return 3 if kind == "centered" and leaf.get("edge") else 2
    return 0


def mark(cfg):
    """tag configurations below the supported size: they may be refused"""
    P = cfg["P"]
    for leaf in list((cfg.get("leaves") or {}).values()) + ([cfg["leaf"]] if "leaf" in cfg else []):
        if "dims" in leaf and min(splits(leaf["dims"][0], P)) < rows_needed(leaf):
            cfg["_partial"] = True
    return cfg


def sides(cfgs):
    """what may be refused is asked for one direction at a time: a refusal of
    the adjoint must not hide a wrong forward"""
    out = []
    for c in cfgs:
        out += [dict(c, side=q) for q in ("fwd", "adj")] if c.get("_partial") else [c]
    return out


# ------------------------------------------------------------------ C16

def c_adj(tier):
    out = []
    hi = 4 if tier == "quick" else 6
    for P in range(1, hi + 1):
        for n in sorted({2 * P, 2 * P + 1, P + 3, 3 * P + 1, 4 * P}):
            s = splits(n, P)
            if min(s) < 1:
                continue
            for kind in ("forward", "backward", "centered"):
                for edge in (False, True) if kind == "centered" else (False,):
                    for order in (3, 5) if kind == "centered" else (3,):
                        if order == 5 and (min(s) < 2 and P > 1 or n < 5):
                            continue
                        out.append(dict(P=P, leaf=dict(k="FD", dims=[n], kind=kind, edge=edge, order=order, d=0.5),
                                        dom=s, ran=s, dtype="complex128"))
                    if n >= 3:
                        out.append(dict(P=P, leaf=dict(k="SD", dims=[n], kind=kind, edge=edge, d=2.0), dom=s, ran=s,
                                        dtype="complex128"))
        n = 2 * P + 1
        s2 = [2 * q for q in splits(n, P)]
        for kind in ("forward", "backward", "centered"):
            out.append(dict(P=P, leaf=dict(k="FD", dims=[n, 2], kind=kind), dom=s2, ran=s2, dtype="complex128"))
            out.append(dict(P=P, leaf=dict(k="SD", dims=[n, 2], kind=kind), dom=s2, ran=s2, dtype="float64"))
            s3 = [3 * q for q in splits(n, P)]
            out.append(dict(P=P, leaf=dict(k="Lap", dims=[n, 3], axes=[0, 1], weights=[1, 2], smp=[1.0, 0.5], kind=kind),
                            dom=s3, ran=s3, dtype="float64"))
            out.append(dict(P=P, leaf=dict(k="Gr", dims=[n, 3], kind=kind, edge=kind == "centered"), dom=s3,
                            ran={"st": [[sum(s3), s3]] * 2}, dtype="float64"))
        one, two = [1 + r % 3 for r in range(P)], [2 - r % 2 for r in range(P)]
        out.append(dict(P=P, leaf=dict(k="D", m=one, n=two), dom=two, ran=one, dtype="complex128"))
        out.append(dict(P=P, leaf=dict(k="V", m=one, n=[2] * P), dom="B", ran=one, dtype="complex128"))
        out.append(dict(P=P, leaf=dict(k="Hs", m=[2] * P, n=one), dom=one, ran="B", dtype="complex128"))
        out.append(dict(P=P, leaf=dict(k="L", m=2, n=3), dom="B", ran="B", dtype="complex128"))
        rnd = random.Random(100 + P)
        for t in range(24 if tier == "quick" else 120):
            lo = 0 if t % 5 == 0 and P > 1 else 1
            a, b, c = [rnd.randint(lo, 3) for _ in range(P)], [rnd.randint(lo, 3) for _ in range(P)], 1 + t // 3 % 3
            if min(sum(a), sum(b)) < 1:
                continue
            dt, vdt = (("complex128", None), ("float64", None), MIX[t % len(MIX)])[t % 4 % 3]
            for leaf, dom, ran in ((dict(k="D", m=a, n=b), b, a), (dict(k="V", m=a, n=[c] * P), "B", a),
                                   (dict(k="Hs", m=[c] * P, n=b), b, "B"))[t % 3::3]:
                out.append(dict(P=P, leaf=leaf, dom=dom, ran=ran, dtype=dt, vdt=vdt))
        nsl = [2 + (r + 1) % 2 for r in range(P)] if P > 1 else [2]
        nsl = sorted(nsl, reverse=True)
        for sg, um in ((False, True), (True, True), (False, False), (True, False)):
            out.append(dict(P=P, leaf=dict(k="Fr", nsl=nsl, nx=2, ny=1, nz=2 if um else 1, saveGt=sg, usematmul=um),
                            dom="B", ran="B", dtype="complex128"))
    return [mark(c) for c in out]


@harness("C16", c_adj, groups=40)
def adjoint(env, leaf, dom, ran, dtype, vdt=None):
    """<Op u, v> == <u, Op^H v> for all u and v, and the composed spellings
    of the adjoint agree with it"""
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    m, n = (int(i) for i in op.shape)
    gu, u = give(env, dom, "u", n, vdt or dtype)
    gv, v = give(env, ran, "v", m, vdt or dtype)
    y, x = op.matvec(u), op.rmatvec(v)
    env.true("shapes", M.shape == (m, n))
    fy, fx = y.asarray(), x.asarray()
    env.eq("dot test", env.np.sum(fy.conj() * gv), env.np.sum(gu.conj() * fx))
    env.eq("op.H", (op.H @ v).asarray(), fx)
    env.eq("op.H.H", op.H.H.matvec(u).asarray(), fy)
    env.eq("op.T of the conjugate", op.T.matvec(v.conj()).asarray(), fx.conj())
    al = env.scalar("al", "complex" if np.dtype(dtype).kind == "c" else "float")
    env.eq("scaled adjoint", (op * al).H.matvec(v).asarray(), fx * (al.conjugate() if np.dtype(dtype).kind == "c" else al))
    env.eq("sum adjoint", (op + op).H.matvec(v).asarray(), fx + fx)
    env.eq("normal operator", (op.H @ op).rmatvec(u).asarray(), op.rmatvec(y).asarray())
    env.eq("linear", op.matvec(u * al).asarray(), fy * al)
