"""CG (C19), CGLS (C20) and the dot test utility (C21)."""
import io
import sys
from . import harness
from .util import *
from .h_ops import Lib, fixed, give, herm, mark, snaps, sub, lay_of
from .h_deriv import rows


def nrm2(env, v):
    return env.np.sum(v.real * v.real + v.imag * v.imag)


def ref_cg(env, M, y, x, niter, tol):
    """textbook conjugate gradients on the whole (gathered) system"""
    dot = env.np.dot
    r = y - dot(M, x)
    c = r
    k = nrm2(env, r)
    cost, xs = [env.np.sqrt(k)], []
    it = 0
    while it < niter and k > tol:
        q = dot(M, c)
        a = k / env.np.abs(env.np.sum(c * q.conj()))
        x = x + c * a
        r = r - q * a
        k1 = nrm2(env, r)
        c = r + c * (k1 / k)
        k = k1
        it += 1
        cost.append(env.np.sqrt(k))
        xs.append(x)
    return x, it, cost, xs, k


def ref_cgls(env, M, y, x, niter, damp, tol):
    """conjugate gradients on (M^H M + damp^2 I) x = M^H y"""
    dot = env.np.dot
    d2 = damp * damp
    MH = herm(M)
    s = y - dot(M, x)
    r = dot(MH, s) - x * d2
    c = r
    q = dot(M, c)
    k = nrm2(env, r)
    cost = [env.np.sqrt(nrm2(env, s))]
    cost1 = [env.np.sqrt(nrm2(env, s) + nrm2(env, x) * d2)]
    it, xs = 0, []
    while it < niter and k > tol:
        a = k / (nrm2(env, q) + nrm2(env, c) * d2)
        x = x + c * a
        s = s - q * a
        r = dot(MH, s) - x * d2
        k1 = nrm2(env, r)
        c = r + c * (k1 / k)
        q = dot(M, c)
        k = k1
        it += 1
        cost.append(env.np.sqrt(nrm2(env, s)))
        cost1.append(env.np.sqrt(nrm2(env, s) + nrm2(env, x) * d2))
        xs.append(x)
    return x, it, cost, cost1, xs, k


def start(env, lay, n, dtype, zero):
    gx, x = give(env, lay, "x0", n, dtype)
    if zero:
        for d in (x.distarrays if hasattr(x, "distarrays") else [x]):
            d.local_array[...] = 0
        gx = gx * 0
    return gx, x


def ray(env, lay, name, n, dtype, t, zero=False):
    """t * b for a fixed integer vector b and the unknown t"""
    b = fixed(name, n, 1, dtype).reshape(n) * (0 if zero else 1)
    if isinstance(lay, dict):
        ds, lo = [], 0
        for k, l in lay["st"]:
            ds.append(put(env, l, b[lo:lo + k], t))
            lo += k
        return env.np.asarray(b) * t, env.pm.StackedDistributedArray(ds)
    return env.np.asarray(b) * t, put(env, lay, b, t)


def put(env, lay, b, t):
    g = env.np.asarray(b) * t
    return place(env, g, {"B": "BROADCAST", "U": "UNSAFE_BROADCAST"}.get(lay, "SCATTER") if isinstance(lay, str) else
                 "SCATTER", 0, None if isinstance(lay, str) else lay)


def scal(env, v, name, **k):
    return env.scalar(name, **k) if v == "sym" else v


class Quiet:
    """drop what the solvers print (the ranks of a simulated run share one stdout)"""
    depth, saved = 0, None

    def __enter__(self):
        if Quiet.depth == 0:
            Quiet.saved, sys.stdout = sys.stdout, io.StringIO()
        Quiet.depth += 1

    def __exit__(self, *a):
        Quiet.depth -= 1
        if Quiet.depth == 0:
            sys.stdout = Quiet.saved


def drive(S, mode, y, x0, niter, data, **kw):
    """the low-level interface: setup / step / run / finalize"""
    x = S.setup(y, x0, niter=niter, **kw)
    if mode == "step":
        while S.iiter < niter and S.kold > S.tol:
            x = S.step(x)
            S.callback(x)
    elif mode == "run2":
        x = S.run(x, niter=1)
        x = S.run(x)
    elif mode == "again":       # the solver object was used before
        x = S.run(x)
        S.finalize()
        del data[:]
        x = S.run(S.setup(y, x0, niter=niter, **kw))
    S.finalize()
    return x


def check_cost(env, label, cost, want):
    env.true(label + " length", len(cost) == len(want))
    for i, (a, b) in enumerate(zip(cost, want)):
        env.eq("%s[%d]" % (label, i), env.np.asarray(a).reshape(-1), env.np.asarray(b).reshape(-1))


def systems(P, square):
    """(leaves, expr, dom, ran)"""
    s = [1] * P
    u = [2] + [1] * (P - 1)
    out = [({"a": dict(k="D", m=s, n=s)}, "a", s, s), ({"a": dict(k="D", m=u, n=u)}, "a", u, u)]
    if square:
        out += [({"V": dict(k="V", m=u, n=[1] * P)}, ["@", ["H", "V"], "V"], "B", "B"),
                ({"L": dict(k="L", m=2, n=2)}, "L", "B", "B"), ({"L": dict(k="L", m=2, n=2)}, "L", "U", "U"),
                ({"a": dict(k="D", m=s, n=s), "b": dict(k="D", m=s, n=s), "SB": dict(k="SB", ops=["a", "b"])}, "SB", {"st": [[P, s]] * 2},
                 {"st": [[P, s]] * 2}),
                ({"a": dict(k="D", m=s, n=s), "L": dict(k="L", m=2, n=2), "SB": dict(k="SB", ops=["a", "L"])}, "SB",
                 {"st": [[P, s], [2, "B"]]}, {"st": [[P, s], [2, "B"]]})]
    else:
        out += [({"a": dict(k="D", m=u, n=s)}, "a", s, u), ({"a": dict(k="D", m=s, n=u)}, "a", u, s),
                ({"V": dict(k="V", m=s if P > 1 else u, n=[2] * P)}, "V", "B", s if P > 1 else u), ({"V": dict(k="V", m=s, n=[1] * P)}, "V", "B", s),
                ({"H": dict(k="Hs", m=[1] * P, n=s)}, "H", s, "B"),
                ({"a": dict(k="D", m=s, n=s), "e": dict(k="D", m=u, n=s), "SV": dict(k="SV", ops=["a", "e"])}, "SV", s,
                 {"st": [[P, s], [P + 1, u]]}),
                ({"a": dict(k="D", m=s, n=s), "V": dict(k="V", m=s, n=[2] * P), "SB": dict(k="SB", ops=["a", "V"])}, "SB",
                 {"st": [[P, s], [2, "B"]]}, {"st": [[P, s], [P, s]]})]
    return out


def c_sol(square):
    def configs(tier):
        out = []
        hi = 3 if tier == "quick" else 4
        for P in range(1, hi + 1):
            for i, (L, e, d, r) in enumerate(systems(P, square)):
                for dt in ("float64", "complex128"):
                    for z in (True, False):
                        for niter, tol in ((1, "sym"), (2, 0.0), (2, "sym"), (0, 0.0), (3, 0.0)):
                            if tier == "quick" and niter >= 2 and (P == 3 or dt[0] == "c") and (i + z) % 2:
                                continue
                            if niter == 3 and (P > 1 or i > 3) and (tier == "quick" or dt[0] == "c"):
                                continue
                            if dt[0] == "c" and niter > 1 and (i not in (0, 4, 8) or P > 2 or niter > 2 or not z):
                                continue
                            if tier == "quick" and not square and dt[0] == "c" and not z and i in (0, 1, 2, 3, 4)[P % 2::2]:
                                continue
                            if tier == "quick" and not square and niter == 2 and tol == "sym" and P != 2:
                                continue
                            c = dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype=dt, zero=z, niter=niter, tol=tol)
                            if tier == "quick" and square and dt[0] == "c" and not z and P > 1 and niter and i in (1, 6) and \
                                    (P, i) != (2, 1):
                                continue
                            if not square:
                                c["damp"] = "sym" if niter == 1 or z else 0.0
                                if tier == "quick":
                                    if not z and (e == "H" or i == 3) and niter and P < 3 or e == "SB" and dt[0] == "c" and not z:
                                        continue
                                    if P == 3 and (dt[0] == "c" or niter > 1) and not z or tol == "sym" and niter == 2:
                                        continue
                                    if P > 1 and (not z or dt[0] == "c" or niter > 1) or e == "H" or niter > 2:
                                        c["damp"] = (0.0, 0.5, -1.5)[(i + P + z) % 3]
                            out.append(c)
                            if niter == 1 and i in (0, 2, 4, 5, 6, 7, 8) and not (tier == "quick" and not square and P == 3 and not z):
                                out.append(dict(c, show=True, low=True, niter=2 if dt[0] == "f" else 1, tol=0.0))
        return lines(tier, square) + out
    return configs


def lines(tier, square):
    """long runs: a fixed system, right-hand side and guess along one unknown
    direction, every tolerance"""
    out = []
    for P in range(1, 5 if tier == "quick" else 7):
        s = splits(13 if P < 4 else 9, P)
        u = [q + (r % 2) for r, q in enumerate(s)]
        v = [2 + r % 2 for r in range(P)]
        nv = sum(v)
        D = lambda k, **q: dict(dict(k="D", m=s, n=s, fix=k, spd=True), **q)
        sysl = [({"a": D(0)}, "a", s, s),
                ({"b": D(1, m=v, n=v)}, "b", v, v),
                ({"V": dict(k="V", m=v, n=[nv] * P, fix=2)}, ["@", ["H", "V"], "V"], "B", "B"),
                ({"a": D(3, m=v, n=v), "c": D(4, m=v, n=v), "SB": dict(k="SB", ops=["a", "c"])}, "SB", {"st": [[nv, v]] * 2},
                 {"st": [[nv, v]] * 2}),
                ({"a": D(3, m=v, n=v), "L": dict(k="L", m=5, n=5, fix=5, spd=True), "SB": dict(k="SB", ops=["a", "L"])}, "SB",
                 {"st": [[nv, v], [5, "B"]]}, {"st": [[nv, v], [5, "B"]]})]
        if not square:
            sysl += [({"a": dict(k="D", m=u, n=s, fix=6)}, "a", s, u), ({"a": dict(k="D", m=s, n=u, fix=7)}, "a", u, s),
                     ({"V": dict(k="V", m=v, n=[4] * P, fix=8)}, "V", "B", v), ({"H": dict(k="Hs", m=[4] * P, n=v, fix=9)}, "H", v, "B"),
                     ({"a": D(3, m=v, n=v), "e": dict(k="D", m=[1] * P, n=v, fix=10), "SV": dict(k="SV", ops=["a", "e"])}, "SV",
                      v, {"st": [[nv, v], [P, [1] * P]]}),
                     ({"e": dict(k="D", m=[1] * P, n=v, fix=11), "V": dict(k="V", m=v, n=[3] * P, fix=12),
                       "SB": dict(k="SB", ops=["e", "V"])}, "SB", {"st": [[nv, v], [3, "B"]]},
                      {"st": [[P, [1] * P], [nv, v]]})]
        for i, (L, e, d, r) in enumerate(sysl):
            for dt in ("float64", "complex128"):
                for z in (True, False):
                    for j, low in enumerate((False, True, "step", "run2", "again")):
                        if tier == "quick" and (i + j + P + z) % (3 if square else 5) and (P > 1 or not square):
                            continue
                        lo = dt[0] == "c" or P > 2 or i
                        for niter, tol in ((4 if lo and tier == "quick" else 11, 0.0), (2 if lo else 4, "sym")):
                            c = dict(P=P, leaves=L, expr=e, dom=d, ran=r, dtype=dt, zero=z, niter=niter, tol=tol, line=True, low=low)
                            if not square:
                                c["damp"] = (0.0, 0.5, 2)[(i + j + z) % 3]
                            if niter > 4:
                                c["show"] = low is True or low is False
                            out.append(c)
        if P < 3:               # options left at their documented defaults
            D = dict(k="D", m=splits(13, P), n=splits(13, P), fix=0, spd=True)
            for i, omit in enumerate((["niter", "tol", "show"], ["tol"], ["niter"])):
                for low in (False, True):
                    c = dict(P=P, leaves={"a": D}, expr="a", dom=D["n"], ran=D["n"], dtype="float64", zero=i != 1, line=True,
                             low=low, niter=10 if "niter" in omit else 5, tol=1e-4 if "tol" in omit else 0.0, omit=omit)
                    if not square:
                        c["damp"] = 0.0
                        c["omit"] = omit + ["damp"]
                    out.append(c)
    return out


@harness("C19", c_sol(True), budget=80, groups=25)
def cg(env, leaves, expr, dom, ran, dtype, zero, niter, tol, show=False, low=False, line=False, omit=()):
    op, M = Lib(env, leaves, dtype).ev(expr)
    n = M.shape[1]
    niter = min(niter, n)
    if line:
        t = env.scalar("t", nonzero=True)
        (gy, y), (gx, x0) = ray(env, ran, "y", n, dtype, t), ray(env, dom, "x0", n, dtype, t, zero)
    else:
        gy, y = give(env, ran, "y", n, dtype)
        gx, x0 = start(env, dom, n, dtype, zero)
    tol = scal(env, tol, "tol", nonneg=True)
    with env.no_breakdown():
        rx, rit, rcost, rxs, k = ref_cg(env, M, gy, gx, niter, tol)
    ss = snaps(env, y) + snaps(env, x0)
    seen = []
    kw = {q: v for q, v in (("niter", niter), ("tol", tol), ("show", show)) if q not in omit}
    O = sub("optimization.basic")
    with Quiet():
        if low:
            S = sub("optimization.cls_basic").CG(op)
            S.callback = lambda v: seen.append(v.asarray().copy())
            if isinstance(low, str):
                x = drive(S, low, y, x0, niter, seen, tol=tol)
                it, cost = S.iiter, S.cost
            else:
                x, it, cost = S.solve(y, x0, **kw)
        else:
            x, it, cost = O.cg(op, y, x0, **kw,
                               callback=lambda v: seen.append(v.asarray().copy()))
    env.true("iterations", int(it) == rit)
    env.eq("solution", x.asarray(), rx)
    check_cost(env, "cost", cost, rcost)
    env.true("callback once per iteration", len(seen) == rit)
    for i, (a, b) in enumerate(zip(seen, rxs)):
        env.eq("iterate %d" % i, a, b)
    res = gy - env.np.dot(M, x.asarray())
    env.eq("last cost is the residual norm", env.np.asarray(cost[-1] ** 2).reshape(-1),
           env.np.asarray(nrm2(env, res)).reshape(-1))
    for s in ss:
        s.check("input")


@harness("C20", c_sol(False), budget=80, groups=25)
def cgls(env, leaves, expr, dom, ran, dtype, zero, niter, tol, damp, show=False, low=False, line=False, omit=()):
    op, M = Lib(env, leaves, dtype).ev(expr)
    niter = min((niter,) + M.shape)     # more would divide rounding errors
    if line:
        t = env.scalar("t", nonzero=True)
        (gy, y), (gx, x0) = ray(env, ran, "y", M.shape[0], dtype, t), ray(env, dom, "x0", M.shape[1], dtype, t, zero)
    else:
        gy, y = give(env, ran, "y", M.shape[0], dtype)
        gx, x0 = start(env, dom, M.shape[1], dtype, zero)
    tol = scal(env, tol, "tol", nonneg=True)
    damp = scal(env, damp, "damp")
    with env.no_breakdown():
        rx, rit, rcost, rcost1, rxs, k = ref_cgls(env, M, gy, gx, niter, damp, tol)
    ss = snaps(env, y) + snaps(env, x0)
    seen = []
    kw = {q: v for q, v in (("niter", niter), ("tol", tol), ("damp", damp), ("show", show)) if q not in omit}
    with Quiet():
        if low:
            S = sub("optimization.cls_basic").CGLS(op)
            S.callback = lambda v: seen.append(v.asarray().copy())
            if isinstance(low, str):
                x = drive(S, low, y, x0, niter, seen, tol=tol, damp=damp)
                istop, it, r1, r2, cost = S.istop, S.iiter, S.r1norm, S.r2norm, S.cost
            else:
                x, istop, it, r1, r2, cost = S.solve(y, x0, **kw)
        else:
            x, istop, it, r1, r2, cost = sub("optimization.basic").cgls(
                op, y, x0, **kw, callback=lambda v: seen.append(v.asarray().copy()))
    env.true("iterations", int(it) == rit)
    env.eq("solution", x.asarray(), rx)
    check_cost(env, "cost", cost, rcost)
    one = lambda v: env.np.asarray(v).reshape(-1)
    env.eq("r1norm", one(r1), one(rcost[-1]))
    env.eq("r2norm", one(r2), one(rcost1[-1]))
    env.true("istop", int(istop) == (1 if k < tol else 2))
    env.true("callback once per iteration", len(seen) == rit)
    for i, (a, b) in enumerate(zip(seen, rxs)):
        env.eq("iterate %d" % i, a, b)
    res = gy - env.np.dot(M, x.asarray())
    env.eq("r1norm is the residual norm", one(r1 ** 2), one(nrm2(env, res)))
    for s in ss:
        s.check("input")


def c_dot(tier):
    out = []
    hi = 3 if tier == "quick" else 4
    for P in range(1, hi + 1):
        s, u = [1] * P, [2] + [1] * (P - 1)
        D = dict(k="D", m=u, n=s)
        E = dict(k="D", m=u, n=s)
        V, W = dict(k="V", m=u, n=[2] * P), dict(k="V", m=u, n=[2] * P)
        SB, SC = dict(k="SB", ops=["D", "V"]), dict(k="SB", ops=["E", "W"])
        H, K = dict(k="Hs", m=[2] * P, n=u), dict(k="Hs", m=[2] * P, n=u)
        for a, b, L, dom, ran in (
                ("D", "E", {"D": D, "E": E}, s, u), ("V", "W", {"V": V, "W": W}, "B", u),
                ("H", "K", {"H": H, "K": K}, u, "B"),
                ("SB", "SC", {"D": D, "E": E, "V": V, "W": W, "SB": SB, "SC": SC},
                 {"st": [[P, s], [2, "B"]]}, {"st": [[P + 1, u], [P + 1, u]]})):
            for dt in ("float64", "complex128"):
                for good in (True, False):
                    if not good and (dt[0] == "c" and (P > 2 or a == "SB" or a == "V" and P > 1) or a == "SB" and P > 1) \
                            and tier == "quick":
                        continue
                    for err, verb in ((False, False), (True, True), (True, False), (False, True)):
                        out.append(dict(P=P, leaves=L, fwd=a, adj=a if good else b, dom=dom, ran=ran, dtype=dt, err=err,
                                        verb=verb, sizes=("none", "given")[err]))
                        if P < 3 and err and not verb:
                            out.append(dict(out[-1], omit=["rtol", "atol", "raiseerror", "verb"]))
                    if P < 3:
                        for sz in ("nr", "nc", "swap"):
                            out.append(dict(P=P, leaves=L, fwd=a, adj=a if good else b, dom=dom, ran=ran, dtype=dt,
                                            err=True, verb=False, sizes=sz))
    return out


@harness("C21", c_dot, budget=60, groups=25)
def dottest(env, leaves, fwd, adj, dom, ran, dtype, err, verb, sizes, omit=()):
    pm = env.pm
    lib = Lib(env, leaves, dtype)
    (A, M), (B, N) = lib.ev(fwd), lib.ev(adj)
    if fwd == adj:
        op = A
    else:               # forward and adjoint that do not belong together
        base = pm.MPIStackedLinearOperator if isinstance(A, pm.MPIStackedLinearOperator) else pm.MPILinearOperator
        base = getattr(base, "_cls", base)

        class Pair(base):
            def _matvec(self, x):
                return A.matvec(x)

            def _rmatvec(self, x):
                return B.rmatvec(x)
        op = Pair(shape=M.shape, dtype=np.dtype(dtype), base_comm=env.comm)
    m, n = M.shape
    gu, u = give(env, dom, "u", n, dtype)
    gv, v = give(env, ran, "v", m, dtype)
    ss = snaps(env, u) + snaps(env, v)
    rt, at = (1e-6, 1e-21) if omit else (env.scalar("rtol", nonneg=True), env.scalar("atol", nonneg=True))
    kw = {"none": {}, "given": dict(nr=m, nc=n), "nr": dict(nr=m + 1), "nc": dict(nc=n + 1), "swap": dict(nr=n, nc=m)}[sizes]
    if sizes == "swap" and m == n:
        kw = dict(nr=m - 1, nc=n)
    if fwd == adj and not omit:
        kw.update(atol=1e-3)
    elif fwd != adj:
        kw.update(rtol=rt, atol=at)
    kw.update(raiseerror=err, verb=verb)
    for q in omit:
        kw.pop(q, None)
    res = None
    with Quiet():
        try:
            res = sub("utils").dottest(op, u, v, **kw)
        except AssertionError as e:
            env.reraise(e)
            res = "raised"
    for s in ss:
        s.check("input")
    if sizes in ("nr", "nc", "swap"):
        env.true("wrong size is reported", isinstance(res, str))
        return
    if fwd == adj:
        env.true("an operator with a correct adjoint passes", not isinstance(res, str))
        env.true("verdict", res)
        return
    dot = env.np.dot
    y = env.np.sum(dot(M, gu).conj() * gv)
    x = env.np.sum(gu.conj() * dot(herm(N), gv))
    gap, ax, ay = env.np.abs(x - y), env.np.abs(x), env.np.abs(y)
    ok = (gap <= at + rt * ax) | (gap <= at + rt * ay)       # close by the looser reading
    sure = (gap <= at + rt * ax) & (gap <= at + rt * ay)     # close by the stricter one
    if isinstance(res, str):
        env.true("raises only on request", err)
        env.true("failure only beyond the tolerance", ~sure if env.symbolic else not sure)
    else:
        env.true("no failure is swallowed", (not err) or ok)
        if not err:
            env.true("passes only within the tolerance", env.np.logical_or(env.np.logical_not(res), ok))
            env.true("fails only beyond the tolerance", env.np.logical_or(res, env.np.logical_not(sure)))
