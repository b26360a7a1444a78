"""C12: operators accept vectors distributed in another way than their own
layout; what they compute does not depend on it (or they refuse)."""
from . import harness
from .util import *
from .h_ops import Lib, give, same, herm, lay_of, Snap
from .h_deriv import rows


def movable(have, need):
    """can every rank get its cells from its direct neighbours alone?"""
    d, ok = 0, True
    for r in range(len(have) - 1):
        d += need[r] - have[r]
        # d > 0: rank r misses d cells, held by rank r+1
        # d < 0: rank r+1 misses -d cells, held by rank r
        if d > 0 and have[r + 1] < d or d < 0 and have[r] < -d:
            ok = False
    return ok


def comps(n, P, most=None):
    """all ways to place n cells on P ranks"""
    if P == 1:
        return [[n]]
    return [[k] + c for k in range(n + 1) for c in comps(n - k, P - 1)]


def vary(need, tier, off=0):
    P, n = len(need), sum(need)
    if P == 1:
        return [[n]]
    allc = [c for c in comps(n, P) if c != need]
    mv = [c for c in allc if movable(c, need)]
    no = [c for c in allc if not movable(c, need)]
    k = 30 if tier == "quick" else 120
    a = thin(mv, max(1, len(mv) // k), off % max(1, len(mv) // k))
    b = thin(no, max(1, len(no) // (k // 4)), 0)
    return a + b


def c_move(tier):
    out = []
    hi = 5 if tier == "quick" else 7
    for P in range(2, hi + 1):
        q = [1 + r % 2 for r in range(P)]
        m = [2 - r % 2 for r in range(P)]
        L = [(dict(k="D", m=m, n=q), q, m), (dict(k="V", m=q, n=[2] * P), "B", q), (dict(k="Hs", m=[2] * P, n=q), q, "B"),
             (dict(k="D", m=[1] * P, n=[1] * P), [1] * P, [1] * P), (dict(k="diag", n=[2] * P), [2] * P, [2] * P)]
        if P <= 3:
            L.append((dict(k="D", m=[[1, 2]] + [[1]] * (P - 1), n=[[1, 1]] + [[2]] * (P - 1)), [2] * P, [3] + [1] * (P - 1)))
        n = 2 * P + 1
        s = splits(n, P)
        for kind in ("forward", "backward", "centered"):
            L.append((dict(k="FD", dims=[n], kind=kind, edge=kind == "centered"), s, s))
            L.append((dict(k="SD", dims=[n], kind=kind), s, s))
        L.append((dict(k="FD", dims=[P + 1, 2], kind="forward"), rows(P + 1, P, 2), rows(P + 1, P, 2)))
        if P <= 3:
            L.append((dict(k="FD", dims=[4 * P], kind="centered", order=5), rows(4 * P, P, 1), rows(4 * P, P, 1)))
            L.append((dict(k="Lap", dims=[2 * P, 3], kind="centered"), rows(2 * P, P, 3), rows(2 * P, P, 3)))
        for j, (leaf, dom, ran) in enumerate(L):
            dt = "complex128" if leaf["k"] in "DV" and j % 2 == 0 else "float64"
            for side, need in (("fwd", dom), ("adj", ran)):
                if need == "B":
                    continue
                for have in vary(need, tier, j):
                    c = dict(P=P, leaf=leaf, side=side, have=have, need=need, dtype=dt)
                    if not movable(have, need):
                        c["_partial"] = True
                    out.append(c)
    return out


def need_rows(leaf, P):
    return True


@harness("C12", c_move, groups=30)
def moved(env, leaf, side, have, need, dtype):
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    A = M if side == "fwd" else herm(M)
    gx, x = give(env, have, "x", A.shape[1], dtype)
    s = Snap(env, x)
    y = op.matvec(x) if side == "fwd" else op.rmatvec(x)
    same(env, "result", y, env.np.dot(A, gx))
    s.check("input")
    # a second vector, in the layout the operator asks for
    gz, z = give(env, need, "z", A.shape[1], dtype)
    w = op.matvec(z) if side == "fwd" else op.rmatvec(z)
    same(env, "result of the default layout", w, env.np.dot(A, gz))
    env.true("same layout of the results", meta(w) == meta(y))
    env.eq("sum of the results", (y + w).asarray(), env.np.dot(A, gx + gz))


def c_chain(tier):
    """operators whose layouts do not match, composed"""
    out = []
    for P in range(2, 4 if tier == "quick" else 6):
        q = [1 + r % 2 for r in range(P)]
        n = sum(q)
        a = splits(n, P)
        r_ = a[::-1]
        L = {"A": dict(k="D", m=q, n=q), "B": dict(k="D", m=a, n=a), "C": dict(k="D", m=r_, n=r_),
             "V": dict(k="V", m=r_, n=[2] * P), "H": dict(k="Hs", m=[2] * P, n=a), "F": dict(k="FD", dims=[n], kind="forward"),
             "V2": dict(k="V", m=q, n=[2] * P)}
        for e, dom, ran in ((["@", "A", "B"], a, q), (["@", "B", ["@", "C", "A"]], q, a), (["H", ["@", "A", ["H", "C"]]], q, r_),
                            (["@", "A", "V"], "B", q), (["@", "H", "A"], q, "B"), (["@", ["H", "V"], "A"], q, "B"),
                            (["@", "F", "A"], q, a), (["@", "A", ["H", "F"]], a, q), (["@", ["H", "V"], "V2"], "B", "B"),
                            (["T", ["@", "C", ["conj", "A"]]], r_, q)):
            out.append(dict(P=P, leaves=L, expr=e, dom=dom, ran=ran, dtype="complex128"))
    return out


@harness("C12", c_chain, groups=30)
def chained(env, leaves, expr, dom, ran, dtype):
    op, M = Lib(env, leaves, dtype).ev(expr)
    gx, x = give(env, dom, "x", M.shape[1], dtype)
    gy, y = give(env, ran, "y", M.shape[0], dtype)
    same(env, "forward", op.matvec(x), env.np.dot(M, gx), ran)
    same(env, "adjoint", op.rmatvec(y), env.np.dot(herm(M), gy))


def c_grad(tier):
    out = []
    for P in range(2, 4 if tier == "quick" else 6):
        for dims in ([2 * P, 2], [2 * P + 1, 3]):
            s = rows(dims[0], P, dims[1])
            for i, have in enumerate(vary(s, "quick")):
                other = vary(s, "quick", 1)
                c = dict(P=P, dims=dims, kind=("forward", "centered", "backward")[i % 3], have=have,
                         have2=other[(2 * i + 1) % len(other)])
                if not (movable(have, s) and movable(c["have2"], s)):
                    c["_partial"] = True
                out.append(c)
    return out


@harness("C12", c_grad, groups=30)
def gradient(env, dims, kind, have, have2):
    op, M = Lib(env, {"o": dict(k="Gr", dims=dims, kind=kind)}, "float64").leaf("o")
    n = int(np.prod(dims))
    gx, x = give(env, have, "x", n, "float64")
    f = op.matvec(x)
    same(env, "forward", f, env.np.dot(M, gx), {"st": [[n, rows(dims[0], env.P, dims[1])]] * 2})
    gy, y = give(env, {"st": [[n, have2], [n, have]]}, "y", 2 * n, "float64")
    same(env, "adjoint", op.rmatvec(y), env.np.dot(M.T, gy))
