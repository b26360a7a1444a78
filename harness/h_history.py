"""C23: results depend on the arguments only - not on what was computed
before - and share no memory with them."""
from . import harness
from .util import *
from .h_ops import Lib, give, herm, mark, snaps, sub
from .h_deriv import rows
from .h_solver import ref_cg, ref_cgls


def parts(x):
    return x.distarrays if hasattr(x, "distarrays") else [x]


def scribble(x, k=3):
    """overwrite the content of a distributed array, in place"""
    for d in parts(x):
        d.local_array[...] = d.local_array * k + 1


class Frozen:
    """content of an array at this moment"""

    def __init__(self, env, x):
        self.env, self.x = env, x
        self.vals = [d.local_array.copy() for d in parts(x)]

    def check(self, label):
        for i, (d, v) in enumerate(zip(parts(self.x), self.vals)):
            self.env.eq("%s[%d]" % (label, i), d.local_array, v)


# --------------------------------------------------------------- operators

def c_hist(tier):
    out = []
    hi = 3 if tier == "quick" else 5
    for P in range(1, hi + 1):
        one, two = [1 + r % 2 for r in range(P)], [2 - r % 2 for r in range(P)]
        s1 = [1] * P
        a, b = dict(k="D", m=one, n=two), dict(k="D", m=two, n=one)
        V, V2 = dict(k="V", m=one, n=[2] * P), dict(k="V", m=s1, n=[2] * P)
        L, I = dict(k="L", m=2, n=2), dict(k="id", n=one)
        nr = 2 * P + 1
        fd = splits(nr, P)
        FD, FB = dict(k="FD", dims=[nr], kind="centered", edge=True), dict(k="FD", dims=[nr], kind="backward")
        r3 = rows(2 * P, P, 3)
        Gr = dict(k="Gr", dims=[2 * P, 3], kind="forward")
        Lap = dict(k="Lap", dims=[2 * P, 3], axes=[0, 1], weights=[1, 2], smp=[1.0, 0.5])
        gst = {"st": [[sum(r3), r3]] * 2}
        nsl = [3] + [2] * (P - 1)
        Fr = [dict(k="Fr", nsl=nsl, nx=2, ny=1, nz=1 + i % 2, saveGt=bool(i & 1), usematmul=bool(i & 2)) for i in range(4)]
        cases = [({"a": a}, "a", two, one), ({"V": V}, "V", "B", one), ({"H": dict(k="Hs", m=[2] * P, n=one)}, "H", one, "B"),
                 ({"L": L}, "L", "B", "B"), ({"I": I}, "I", one, one), ({"g": dict(k="diag", n=two)}, "g", two, two),
                 ({"FD": FD}, "FD", fd, fd), ({"SD": dict(k="SD", dims=[nr])}, "SD", fd, fd), ({"Lap": Lap}, "Lap", r3, r3),
                 ({"Gr": Gr}, "Gr", r3, gst),
                 ({"a": a, "b": b}, ["@", "b", "a"], two, two), ({"a": a}, ["@", ["H", "a"], "a"], two, two),
                 ({"a": a, "b": a}, ["+", "a", "b"], two, one), ({"a": a}, ["-", "a", ["sc", "z", "a"]], two, one),
                 ({"a": b}, ["T", "a"], two, one), ({"a": a}, ["conj", "a"], two, one), ({"I": I}, ["pow", "I", 2], one, one),
                 ({"I": I}, ["sc", 1.0, "I"], one, one), ({"I": I}, ["H", "I"], one, one), ({"I": I}, ["@", "I", "I"], one, one),
                 ({"a": a, "V": V2, "SB": dict(k="SB", ops=["a", "V"])}, "SB", {"st": [[sum(two), two], [2, "B"]]},
                  {"st": [[sum(one), one], [P, s1]]}),
                 ({"V": V, "W": V2, "SV": dict(k="SV", ops=["V", "W"])}, "SV", "B", {"st": [[sum(one), one], [P, s1]]}),
                 ({"I": I, "SB": dict(k="SB", ops=["I", "I"])}, "SB", {"st": [[sum(one), one]] * 2},
                  {"st": [[sum(one), one]] * 2}),
                 ({"I": I, "SB": dict(k="SB", ops=["I", "I"])}, ["@", "SB", ["H", "SB"]], {"st": [[sum(one), one]] * 2},
                  {"st": [[sum(one), one]] * 2}),
                 ({"I": I, "SV": dict(k="SV", ops=["I", "I"])}, "SV", one, {"st": [[sum(one), one]] * 2}),
                 ({"a": a, "Gr": Gr, "L": Lap}, ["@", ["H", "Gr"], "Gr"], r3, r3)]
        # several blocks on a process (the first process has one more)
        bm, bn = [[1, 2, 1][r > 0:] for r in range(P)], [[2, 1, 1][r > 0:] for r in range(P)]
        sm, sn, sq = [sum(q) for q in bm], [sum(q) for q in bn], [[2] * len(q) for q in bm]
        t1 = [len(q) for q in bm]
        A2, V3, H3 = dict(k="D", m=bm, n=bn), dict(k="V", m=bm, n=sq), dict(k="Hs", m=sq, n=bm)
        cases += [({"A": A2}, "A", sn, sm), ({"V": V3}, "V", "B", sm), ({"H": H3}, "H", sm, "B"),
                  ({"A": dict(k="D", m=[[1] * q for q in t1], n=[[1] * q for q in t1], rep=[[0] * q for q in t1])}, "A", t1, t1),
                  ({"A": A2, "B": A2}, ["@", ["H", "A"], "B"], sn, sn),
                  ({"A": A2, "V": dict(k="V", m=bm, n=sq), "SB": dict(k="SB", ops=["A", "V"])}, "SB",
                   {"st": [[sum(sn), sn], [2, "B"]]}, {"st": [[sum(sm), sm]] * 2})]
        if P == 1:
            cases.append(({"I": I}, ["+", "I", "I"], one, one))
        for i, f in enumerate(Fr):
            cases.append(({"F": f}, "F", "B", "B"))
        for i, (lv, e, dom, ran) in enumerate(cases):
            for dt in ("complex128", "float64"):
                if dt[0] == "f" and (i + P) % 2 and tier == "quick":
                    continue
                out.append(mark(dict(P=P, leaves=lv, expr=e, dom=dom, ran=ran, dtype=dt,
                                     steps=3 if P < 3 and i % 3 == 0 or tier != "quick" else 2)))
    return out


@harness("C23", c_hist, budget=60)
def calls(env, leaves, expr, dom, ran, dtype, steps):
    """any sequence of forward and adjoint applications on vectors that are
    overwritten between the calls"""
    op, M = Lib(env, leaves, dtype).ev(expr)
    N = herm(M)
    gu, u = give(env, dom, "u", M.shape[1], dtype)
    gv, v = give(env, ran, "v", M.shape[0], dtype)
    old = []
    for k in range(steps):
        fwd = bool(env.scalar("step%d" % k) > 0)
        new = bool(env.scalar("over%d" % k) > 0) if k else False
        x, g = (u, gu) if fwd else (v, gv)
        if new:             # same objects, new content
            scribble(x, k + 1)
            if fwd:
                gu = g = g * (k + 1) + 1
            else:
                gv = g = g * (k + 1) + 1
        for f in old:
            f.check("an earlier result")
        sx = snaps(env, x)
        y = op.matvec(x) if fwd else op.rmatvec(x)
        env.eq("call %d" % k, y.asarray(), env.np.dot(M if fwd else N, g))
        for s in sx:
            s.check("argument of call %d" % k)
        if k + 1 < steps and bool(env.scalar("scr%d" % k) > 0):
            scribble(y)      # the caller reuses the result
            for s in sx:
                s.check("argument after its result was overwritten")
        old.append(Frozen(env, y))
    for f in old:
        f.check("an earlier result")


# ------------------------------------------------------------------ arrays

OPS = ("add", "sub", "mul", "neg", "conj", "copy", "zeros_like", "ravel", "scale", "rscale", "to_dist", "ghost")


def c_alias(tier):
    out = []
    hi = 3 if tier == "quick" else 5
    for P in range(1, hi + 1):
        for shape, axis in (([2 * P + 1], 0), ([2 * P, 2], 0), ([2, 2 * P + 1], 1)):
            for part in ("SCATTER", "BROADCAST"):
                if part == "BROADCAST" and axis:
                    continue
                for op in OPS:
                    for dt in ("float64", "complex128"):
                        if op == "ghost" and (part == "BROADCAST"):
                            continue
                        out.append(dict(P=P, shape=shape, axis=axis, part=part, op=op, dtype=dt))
                for op in ("add", "sub", "mul", "neg", "conj", "copy", "scale"):
                    out.append(dict(P=P, shape=shape, axis=axis, part=part, op=op, dtype="complex128", stacked=True))
    return out


def compute(env, op, x, y, raw):
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "neg":
        return -x
    if op == "conj":
        return x.conj()
    if op == "scale":
        return x * 1
    if op == "rscale":
        return 1 * x
    if op == "copy":
        return x.copy()
    if op == "ravel":
        return x.ravel()
    if op == "zeros_like":
        return x.zeros_like()
    raise AssertionError(op)


@harness("C23", c_alias)
def alias(env, shape, axis, part, op, dtype, stacked=False):
    """the result and the operands of an array operation share no memory"""
    pm = env.pm
    ga, gb = env.array("a", shape, dtype), env.array("b", shape, dtype)

    def mk(g, nm):
        d = place(env, g, part, axis)
        if stacked:
            return pm.StackedDistributedArray([d, place(env, env.array(nm + "2", shape, dtype), part, axis)])
        return d
    if op == "to_dist":
        raw = ga.copy()
        z = pm.DistributedArray.to_dist(x=raw, partition=part_of(env, part), axis=axis)
        f = Frozen(env, z)
        raw[...] = raw * 2 + 1
        f.check("the distributed array after its source changed")
        keep = raw.copy()
        scribble(z)
        env.eq("the source after the distributed array changed", raw, keep)
        return
    x, y = mk(ga, "a"), mk(gb, "b")
    if op == "ghost":
        n = [(0, 0), (1, 0), (0, 1), (1, 1)]
        for fr, bk in n:
            f = Frozen(env, x)
            z = x.add_ghost_cells(cells_front=fr or None, cells_back=bk or None)
            keep = z.copy()
            z[...] = z * 2 + 1
            f.check("array after its ghosted copy changed")
            scribble(x)
            env.eq("ghosted copy after the array changed", z, keep * 2 + 1)
        return
    fx, fy = Frozen(env, x), Frozen(env, y)
    z = compute(env, op, x, y, None)
    fx.check("left operand")
    fy.check("right operand")
    f = Frozen(env, z)
    scribble(x)
    scribble(y, 2)
    f.check("result after the operands changed")
    fx, fy = Frozen(env, x), Frozen(env, y)
    scribble(z, 4)
    fx.check("left operand after the result changed")
    fy.check("right operand after the result changed")


# ----------------------------------------------------------------- solvers

def c_again(tier):
    out = []
    for P in range(1, 4 if tier == "quick" else 6):
        s, u = [1] * P, [2] + [1] * (P - 1)
        for which in ("cg", "cgls"):
            for zero in (False, True):
                for st in (False, True):
                    L = {"a": dict(k="D", m=u, n=u)}
                    e, dom = "a", u
                    if st:
                        L.update(V=dict(k="L", m=1, n=1), SB=dict(k="SB", ops=["a", "V"]))
                        e, dom = "SB", {"st": [[sum(u), u], [1, "B"]]}
                    for dt in ("float64", "complex128"):
                        if dt[0] == "c" and (st or P > 2):
                            continue
                        out.append(dict(P=P, which=which, leaves=L, expr=e, lay=dom, zero=zero, dtype=dt))
                        if dt[0] == "f":
                            out.append(dict(P=P, which=which, leaves=L, expr=e, lay=dom, zero=zero, dtype=dt, other=True))
    return out


@harness("C23", c_again, budget=60)
def solve_again(env, which, leaves, expr, lay, zero, dtype, other=False):
    """a solver gives the same answer the second time, and its answer is not
    tied to the starting guess or the data"""
    op, M = Lib(env, leaves, dtype).ev(expr)
    gy, y = give(env, lay, "y", M.shape[0], dtype)
    gx, x0 = give(env, lay, "x0", M.shape[1], dtype)
    S = sub("optimization.cls_basic")
    sol = (S.CG if which == "cg" else S.CGLS)(op)
    kw = dict(niter=1, tol=0.0)
    if which == "cgls":
        kw["damp"] = 0.5
    with env.no_breakdown():
        z = gx * 0 if zero and which == "x" else gx
        ref_cg(env, M, gy, z, 1, 0.0) if which == "cg" else ref_cgls(env, M, gy, z, 1, 0.5, 0.0)
    start = None if zero and which == "x" else x0
    fy, fx = Frozen(env, y), Frozen(env, x0)
    r1 = sol.solve(y, start, **kw)
    fy.check("data"), fx.check("starting guess")
    f = Frozen(env, r1[0])
    c1 = [env.np.asarray(v).reshape(-1).copy() for v in r1[-1]]
    if zero:
        scribble(r1[0])
        fy.check("data"), fx.check("starting guess after the solution changed")
    if other:       # another problem in between, with the same solver and with a new one
        _, y2 = give(env, lay, "y2", M.shape[0], dtype)
        for q in (sol, (S.CG if which == "cg" else S.CGLS)(op)):
            q.solve(y2, y, **dict(kw, niter=0, tol=0.5, **({"damp": 2.0} if which == "cgls" else {})))
    r2 = sol.solve(y, start, **kw)
    for d, q in zip(parts(r2[0]), f.vals):
        env.eq("second solution", d.local_array, q)
    if not zero:
        f.check("first solution after the second run")
    env.true("second cost length", len(r2[-1]) == len(c1))
    for a, b in zip(r2[-1], c1):
        env.eq("second cost", env.np.asarray(a).reshape(-1), b)
    if zero:
        f = Frozen(env, r2[0])
        scribble(x0)
        scribble(y)
        f.check("solution after data and guess changed")
