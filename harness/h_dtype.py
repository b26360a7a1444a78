"""C25: nothing is lost to a type that is too narrow."""
from . import harness
from .util import *
from .h_ops import Lib, give, herm, snaps

DTS = ("float32", "float64", "complex64", "complex128", "int64")


def c_arr(tier):
    out = []
    for P in range(1, 4 if tier == "quick" else 6):
        for part in ("SCATTER", "BROADCAST"):
            for a in DTS:
                for b in DTS:
                    for op in ("add", "sub", "mul"):
                        if tier == "quick" and P > 2 and (DTS.index(a) + DTS.index(b)) % 2:
                            continue
                        out.append(dict(P=P, part=part, op=op, a=a, b=b))
                        if op != "sub" and part == "SCATTER":
                            out.append(dict(P=P, part=part, op=op, a=a, b=b, stacked=True))
                for sc in ("int", "float", "complex", "float32", "complex128"):
                    out.append(dict(P=P, part=part, op="scale", a=a, b=sc))
                    if sc == "complex128":
                        continue        # numpy's own scalars convert the array before it is asked
                    out.append(dict(P=P, part=part, op="rscale", a=a, b=sc, stacked=part == "SCATTER"))
                for op in ("neg", "conj", "copy", "ravel", "zeros_like", "asarray", "to_dist", "redistribute", "dot", "norm"):
                    out.append(dict(P=P, part=part, op=op, a=a, b=a))
                for b in DTS:
                    if b != a:
                        out.append(dict(P=P, part=part, op="dot", a=a, b=b))
    return out


@harness("C25", c_arr)
def arrays(env, part, op, a, b, stacked=False):
    pm, P = env.pm, env.P
    n = 2 * P + 1
    shape = (n, 2) if op == "ravel" else (n,)
    ga = env.array("a", shape, a)
    mk = lambda g: place(env, g, part)
    x = mk(ga)
    ta, A = np.dtype(a), np.empty(1, a)
    if op in ("scale", "rscale"):
        sv = {"int": lambda: 3, "float": lambda: 2.5, "complex": lambda: 1.5 + 2j, "float32": lambda: np.float32(0.5),
              "complex128": lambda: np.complex128(2 - 1j)}[b]()
        want, val = (A * sv).dtype, ga * sv
        if stacked:
            x = pm.StackedDistributedArray([x, mk(env.array("a2", shape, a))])
        z = x * sv if op == "scale" else sv * x
        if stacked:
            z = z[0]
    elif op in ("add", "sub", "mul"):
        gb = env.array("b", shape, b)
        y = mk(gb)
        want = np.result_type(a, b)
        f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[op]
        val = f(ga, gb)
        if stacked:
            x, y = (pm.StackedDistributedArray([mk(env.array("s", shape, b)), q]) for q in (x, y))
        z = f(x, y)
        if stacked:
            z = z[1]
    elif op == "dot":
        gb = env.array("b", shape, b)
        r = x.dot(mk(gb))
        env.eq("dot", env.np.asarray(r).reshape(-1), env.np.asarray(env.np.sum(ga * gb)).reshape(-1))
        return
    elif op == "norm":
        r = x.norm(1)
        env.eq("norm", env.np.asarray(r).reshape(-1), env.np.asarray(env.np.sum(env.np.abs(ga))).reshape(-1))
        env.true("the norm is real", not np.iscomplexobj(r))
        return
    elif op == "asarray":
        z = x.asarray()
        env.true("dtype of the gathered array", np.dtype(z.dtype) == ta, str(z.dtype))
        env.eq("gathered", z, ga)
        return
    else:
        want, val = ta, ga
        if op == "to_dist":
            z = pm.DistributedArray.to_dist(x=ga, partition=part_of(env, part))
        elif op == "redistribute":
            if not hasattr(x, "redistribute"):
                return env.true("not offered", True)
            z = x.redistribute(0)
        elif op == "neg":
            z, val = -x, -ga
        elif op == "conj":
            z, val = x.conj(), ga.conj()
        elif op == "copy":
            z = x.copy()
        elif op == "ravel":
            z, val = x.ravel(), ga.reshape(-1)
        else:
            z, val = x.zeros_like(), ga * 0
    env.true("declared dtype", np.dtype(z.dtype) == want, "%s instead of %s" % (z.dtype, want))
    env.true("dtype of the local data", np.dtype(z.local_array.dtype) == want, "%s instead of %s" % (z.local_array.dtype, want))
    env.eq("values", z.asarray(), val)


# --------------------------------------------------------------- operators

def c_opd(tier):
    out = []
    R, C = "float64", "complex128"
    for P in range(1, 4 if tier == "quick" else 6):
        s, u = [1] * P, [1 + r % 2 for r in range(P)]
        per = [("all", [C] * P), ("first", [C] + [R] * (P - 1)), ("last", [R] * (P - 1) + [C]),
               ("none", [R] * P)]
        for nm, dts in per:
            for leaf, dom, ran in ((dict(k="D", m=u, n=s), s, u), (dict(k="V", m=u, n=[2] * P), "B", u),
                                   (dict(k="Hs", m=[2] * P, n=u), u, "B")):
                for side in ("fwd", "adj"):
                    out.append(dict(P=P, leaves={"a": dict(leaf, dts=dts)}, expr="a", dom=dom, ran=ran, side=side))
            two = [[1, 1] for _ in range(P)]
            mixed = [[R, C] if d == C else [R, R] for d in dts]
            for leaf, dom, ran in ((dict(k="D", m=two, n=two), [2] * P, [2] * P), (dict(k="V", m=two, n=[[2, 2]] * P), "B", [2] * P),
                                   (dict(k="Hs", m=[[2, 2]] * P, n=two), [2] * P, "B")):
                for side in ("fwd", "adj"):
                    out.append(dict(P=P, leaves={"a": dict(leaf, dts=mixed)}, expr="a", dom=dom, ran=ran, side=side))
        a, b = dict(k="D", m=s, n=s, dt=R), dict(k="D", m=s, n=s, dt=C)
        L = {"a": a, "b": b, "SA": dict(k="SB", ops=["a", "a"]), "SC": dict(k="SB", ops=["a", "b"]),
             "SV": dict(k="SV", ops=["a", "b"]), "SW": dict(k="SV", ops=["a", "a"])}
        st = {"st": [[P, s]] * 2}
        for e, d, r in ((["+", "a", "b"], s, s), (["+", "b", "a"], s, s), (["-", "a", "b"], s, s), (["sc", "1+2j", "a"], s, s),
                        (["scr", "1+2j", "a"], s, s), (["sc", 2, "a"], s, s),
                        (["sc", 0.5, "b"], s, s), (["H", ["+", "a", "b"]], s, s), (["T", ["+", "a", "b"]], s, s),
                        (["conj", ["+", "a", "b"]], s, s), ("SC", st, st), ("SV", s, st), (["+", "SA", "SC"], st, st),
                        (["-", "SC", "SA"], st, st), (["sc", "1+2j", "SA"], st, st), (["scr", "1+2j", "SV"], s, st),
                        (["+", "SV", "SW"], s, st), (["H", "SC"], st, st), (["@", "b", "a"], s, s), (["@", "b", ["+", "a", "a"]], s, s)):
            for side in ("fwd", "adj"):
                if side == "adj" and isinstance(e, list) and e[0] == "@":
                    continue        # the real factor would be given complex data
                out.append(dict(P=P, leaves=L, expr=e, dom=d, ran=r, side=side))
    return out


@harness("C25", c_opd)
def operators(env, leaves, expr, dom, ran, side):
    """real vectors through operators with real and complex parts"""
    op, M = Lib(env, leaves, "complex128").ev(expr)      # (every leaf names its own)
    cplx = "complex128" in str(leaves) and "b" in str(expr) or "dts" in str(leaves) and "complex128" in str(leaves) \
        or "'1+2j'" in str(expr) or "SC" in str(expr) or "SV" in str(expr)
    want = np.dtype("complex128" if cplx else "float64")
    env.true("dtype of the operator", np.dtype(op.dtype) == want, "%s instead of %s" % (op.dtype, want))
    L, A = (dom, M) if side == "fwd" else (ran, herm(M))
    g, x = give(env, L, "x", A.shape[1], "float64")
    y = op.matvec(x) if side == "fwd" else op.rmatvec(x)
    env.eq(side, y.asarray(), env.np.dot(A, g))
    for q in (y.distarrays if hasattr(y, "distarrays") else [y]):
        if q.partition == env.pm.Partition.BROADCAST:
            env.eq("replicated part", q.local_array, q.asarray())


def c_decl(tier):
    out = []
    for P in range(1, 4 if tier == "quick" else 6):
        s, u = [1] * P, [1 + r % 2 for r in range(P)]
        n = 3 * P + 1
        g, g2 = splits(n, P), [2 * q for q in splits(n, P)]
        nsl = [2] * P
        kinds = [(dict(k="D", m=u, n=s), s, u), (dict(k="V", m=u, n=[2] * P), "B", u), (dict(k="Hs", m=[2] * P, n=u), u, "B"),
                 (dict(k="Fr", nsl=nsl, nx=2, ny=1, nz=2), "B", "B"), (dict(k="L", m=2, n=1), "B", "B"),
                 (dict(k="Fr", nsl=nsl, nx=1, ny=2, nz=1, saveGt=True, usematmul=False), "B", "B")]
        for i, kind in enumerate(("forward", "backward", "centered")):
            kinds += [(dict(k="FD", dims=[n, 2], kind=kind, edge=bool(P % 2)), g2, g2), (dict(k="SD", dims=[n], kind=kind), g, g),
                      (dict(k="Lap", dims=[n, 2], axes=[0, 1] if i else [0], weights=[1, 2][:1 + (i > 0)],
                            smp=[1.0, 0.5][:1 + (i > 0)], kind=kind), g2, g2) if i else
                      (dict(k="FD", dims=[4 * P + 1], order=5), splits(4 * P + 1, P), splits(4 * P + 1, P)),
                      (dict(k="Gr", dims=[n, 2], kind=kind), g2, {"st": [[2 * n, g2]] * 2})]
        for i, (leaf, dom, ran) in enumerate(kinds):
            if leaf["k"] == "Lap" and leaf["dims"][1] < 3:
                leaf = dict(leaf, dims=[n, 3])
                dom = ran = [3 * q for q in splits(n, P)]
            for dt in ("float32", "complex64", "float64", "complex128"):
                for v in ("int64", "float32", "complex64", "float64", "complex128"):
                    if np.result_type(dt, v) != np.dtype(dt):
                        continue
                    if tier == "quick" and P > 2 and (i + len(dt) + len(v)) % 3:
                        continue
                    out.append(dict(P=P, leaf=leaf, dom=dom, ran=ran, dtype=dt, vdt=v))
    return out


@harness("C25", c_decl)
def declared(env, leaf, dom, ran, dtype, vdt):
    """results of an operator have its declared type, whatever narrower type the data has"""
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    env.true("the operator's type covers the declared one", np.can_cast(np.dtype(dtype), np.dtype(op.dtype)), str(op.dtype))
    env.true("real stays real", np.dtype(op.dtype).kind == np.dtype(dtype).kind, str(op.dtype))
    gx, x = give(env, dom, "x", M.shape[1], vdt)
    gy, y = give(env, ran, "y", M.shape[0], vdt)
    for label, z, want in (("forward", op.matvec(x), env.np.dot(M, gx)), ("adjoint", op.rmatvec(y), env.np.dot(herm(M), gy)),
                           ("transpose", op.T.matvec(y), env.np.dot(M.T, gy)), ("adjoint's adjoint", op.H.rmatvec(x), env.np.dot(M, gx))):
        env.eq(label, z.asarray(), want)
        for q in (z.distarrays if hasattr(z, "distarrays") else [z]):
            env.true(label + ": type of the result", np.can_cast(np.dtype(dtype), np.dtype(q.dtype))
                     and np.dtype(q.dtype).kind == np.dtype(dtype).kind, str(q.dtype))
            env.true(label + ": type of the data", np.dtype(q.local_array.dtype) == np.dtype(q.dtype), str(q.local_array.dtype))
