"""C24: operands and arguments that do not fit together are reported by an
error; no result is returned and the operands stay as they were."""
from . import harness
from .util import *
from .h_ops import Lib, give, herm, snaps, sub
from .h_deriv import rows

ERR = (ValueError, TypeError, NotImplementedError, IndexError, AssertionError, AttributeError)


def lay(env, spec, nm, dtype):
    """an array from a layout description"""
    shape = spec.get("shape", [sum(spec["sizes"])] if "sizes" in spec else None)
    return place(env, env.array(nm, shape, dtype), spec.get("part", "SCATTER"), spec.get("axis", 0), spec.get("sizes"),
                 spec.get("mask"))


def c_pairs(tier):
    """pairs of arrays that cannot be combined, and the ranks that see it"""
    out = []
    hi = 4 if tier == "quick" else 6
    for P in range(1, hi + 1):
        n = 2 * P
        two = [2] * P
        A = dict(shape=[n], sizes=two)
        pairs = []
        for part in ("BROADCAST", "UNSAFE_BROADCAST"):
            pairs.append((A, dict(shape=[n], part=part), "part"))
        pairs.append((dict(shape=[n], part="BROADCAST"), dict(shape=[n], part="UNSAFE_BROADCAST"), "part"))
        pairs.append((A, dict(shape=[n + P], sizes=[3] * P), "shape"))
        pairs.append((A, dict(shape=[n, 2], sizes=two), "shape"))
        pairs.append((A, dict(shape=[P], sizes=[1] * P), "shape"))          # would broadcast in numpy
        pairs.append((dict(shape=[n, 2], sizes=two), dict(shape=[n, 1], sizes=two), "shape"))
        pairs.append((dict(shape=[n, 1], sizes=two), dict(shape=[n, 3], sizes=two), "shape"))
        pairs.append((dict(shape=[n], part="BROADCAST"), dict(shape=[n + 1], part="BROADCAST"), "shape"))
        pairs.append((dict(shape=[n], part="BROADCAST"), dict(shape=[1], part="BROADCAST"), "shape"))
        if P > 1:
            pairs.append((A, dict(shape=[n], sizes=[1] + [2] * (P - 2) + [3]), "shape"))
            pairs.append((A, dict(shape=[n], sizes=[3] + [2] * (P - 2) + [1]), "shape"))
            pairs.append((A, dict(shape=[n], sizes=[1, 3] + [2] * (P - 2)), "shape"))
            pairs.append((A, dict(shape=[n], sizes=two, mask=[0] + [1] * (P - 1)), "mask"))
            pairs.append((dict(A, mask=[1] * (P - 1) + [0]), dict(A, mask=[0] + [1] * (P - 1)), "mask"))
            pairs.append((dict(A, mask=[0] * P), A, "mask"))
            pairs.append((dict(shape=[P, P], sizes=[1] * P, axis=0), dict(shape=[P, P], sizes=[1] * P, axis=1), "shape"))
        for x, y, why in pairs:
            for op in ("add", "sub", "iadd", "isub", "mul", "dot"):
                if op in ("sub", "isub") and why == "shape" and P > 2 and sum(x.get("sizes", [])) == sum(y.get("sizes", [])):
                    continue        # starts with a collective negation
                out.append(dict(P=P, x=x, y=y, why=why, op=op, dtype="float64"))
                if op in ("add", "iadd", "mul"):
                    out.append(dict(P=P, x=y, y=x, why=why, op=op, dtype="complex128"))
    return out


def combine(op, x, y):
    if op == "iadd":
        x += y
        return x
    if op == "isub":
        x -= y
        return x
    return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "dot": lambda: x.dot(y)}[op]()


@harness("C24", c_pairs)
def misfits(env, x, y, why, op, dtype):
    a, b = lay(env, x, "a", dtype), lay(env, y, "b", dtype)
    ss = snaps(env, a) + snaps(env, b)
    bad = why != "shape" or tuple(a.local_shape) != tuple(b.local_shape)
    if bad:
        # (the ranks that see no misfit stay out of it: they would wait for the others)
        env.raises("%s of arrays that do not fit" % op, ERR, lambda: combine(op, a, b))
        for s in ss:
            s.check("operand")
        if why != "shape":      # every rank saw it: all of them can go on
            for v, nm, spec in ((a, "a", x), (b, "b", y)):
                g = env.array(nm, spec["shape"], dtype)
                env.eq("sum afterwards", (v + v).asarray(), g + g)
                mask, ss_ = spec.get("mask"), spec.get("sizes")
                if mask is None:
                    env.eq("dot afterwards", v.dot(v), env.np.sum(vec(g) * vec(g)))
    else:
        env.true("nothing wrong on this rank", True)


# ------------------------------------------------------------ constructors

def c_make(tier):
    out = []
    hi = 4 if tier == "quick" else 6
    for P in range(1, hi + 1):
        for case in ("axis", "axis2", "partition", "too few shapes", "too many shapes", "shapes sum short", "shapes sum long",
                     "other dimension", "broadcast shape", "unsafe shape", "to_dist shapes", "to_dist axis", "norm fro", "norm nuc",
                     "norm axis", "stack count", "stack shape", "stack norm"):
            out.append(dict(P=P, case=case))
    return out


@harness("C24", c_make)
def arrays(env, case):
    pm, P = env.pm, env.P
    D = pm.DistributedArray
    n = 2 * P
    x = env.array("x", (n,))
    two = [(2,)] * P
    S, B, U = pm.Partition.SCATTER, pm.Partition.BROADCAST, pm.Partition.UNSAFE_BROADCAST
    st = lambda *q: pm.StackedDistributedArray([place(env, env.array("s%d" % i, tuple(s)), "SCATTER", 0) for i, s in enumerate(q)])
    f = {
        "axis": lambda: D(global_shape=(n,), axis=1),
        "axis2": lambda: D(global_shape=(n, 2), axis=2),
        "partition": lambda: D(global_shape=(n,), partition="something else"),
        "too few shapes": lambda: D(global_shape=(n - 2,), local_shapes=two[1:] if P > 1 else [(1,), (1,)]),
        "too many shapes": lambda: D(global_shape=(n,), local_shapes=two + [(0,)]),
        "shapes sum short": lambda: D(global_shape=(n + 1,), local_shapes=two),
        "shapes sum long": lambda: D(global_shape=(n - 1,), local_shapes=two),
        "other dimension": lambda: D(global_shape=(n, 3), local_shapes=[(2, 2)] * P),
        "broadcast shape": lambda: D(global_shape=(n,), partition=B, local_shapes=[(n + 1,)] * P),
        "unsafe shape": lambda: D(global_shape=(n,), partition=U, local_shapes=[(n - 1,)] * P),
        "to_dist shapes": lambda: D.to_dist(x=x, local_shapes=[(1,)] * P),
        "to_dist axis": lambda: D.to_dist(x=x, axis=1),
        "norm fro": lambda: place(env, x).norm("fro"),
        "norm nuc": lambda: place(env, x).norm("nuc"),
        "norm axis": lambda: place(env, env.array("y", (n, 2)), "SCATTER", 0).norm(2, axis=1),
        "stack count": lambda: st([n], [n]) + st([n], [n], [n]),
        "stack shape": lambda: st([n], [n]) - st([n], [n + 1]),
        "stack norm": lambda: st([n], [n]).norm("fro"),
    }[case]
    env.raises(case, ERR, f)


# --------------------------------------------------------------- operators

def c_opr(tier):
    out = []
    hi = 3 if tier == "quick" else 5
    for P in range(1, hi + 1):
        one, two = [1 + r % 2 for r in range(P)], [2 - r % 2 + (r == 0) for r in range(P)]
        n, m = sum(two), sum(one)
        a = dict(k="D", m=one, n=two)
        leaves = {"a": (a, two, one), "V": (dict(k="V", m=one, n=[2] * P), "B", one),
                  "H": (dict(k="Hs", m=[2] * P, n=one), one, "B"), "L": (dict(k="L", m=2, n=3), "B", "B"),
                  "FD": (dict(k="FD", dims=[2 * P, 2]), rows(2 * P, P, 2), rows(2 * P, P, 2)),
                  "SD": (dict(k="SD", dims=[2 * P + 1]), splits(2 * P + 1, P), splits(2 * P + 1, P)),
                  "Fr": (dict(k="Fr", nsl=[2] * P, nx=2, ny=3, nz=1), "B", "B"),
                  "SB": (dict(k="SB", ops=["a", "a"]), {"st": [[n, two]] * 2}, {"st": [[m, one]] * 2}),
                  "SV": (dict(k="SV", ops=["a", "a"]), two, {"st": [[m, one]] * 2})}
        for nm, (leaf, dom, ran) in leaves.items():
            L = {"a": a, nm: leaf}
            for case in ("long", "short", "partition", "scalar @", "2d"):
                if case == "partition" and nm in ("a", "H", "SB", "SV", "L") and P > 0:
                    # block diagonal operators do accept their input by rank only
                    if nm not in ("a", "H"):
                        continue
                for side in ("fwd", "adj"):
                    if case in ("scalar @", "2d") and side == "adj":
                        continue
                    if case == "partition" and nm == "H" and side == "adj":
                        pass
                    out.append(dict(P=P, leaves=L, leaf=nm, dom=dom, ran=ran, case=case, side=side))
        for case in ("product", "sum", "difference", "power", "negative power", "fractional power", "stacked product",
                     "stacked sum", "stacked power", "V columns one rank", "H rows one rank", "stacked vstack columns"):
            out.append(dict(P=P, leaves={"a": a, "b": dict(k="D", m=two, n=two), "SB": dict(k="SB", ops=["a", "a"]),
                                         "SC": dict(k="SB", ops=["a", "b"]), "SD": dict(k="SB", ops=["b"])},
                            leaf="a", dom=two, ran=one, case=case, side="fwd"))
        for case in ("fd kind", "fd order", "sd kind", "lap sizes", "mdc even", "cg niter", "cgls niter", "fredholm split",
                     "grad kind", "V columns ranks", "H rows ranks"):
            if P == 1 and case in ("V columns ranks", "H rows ranks"):
                continue
            out.append(dict(P=P, leaves={"a": dict(k="D", m=two, n=two)}, leaf="a", dom=two, ran=two, case=case, side="fwd"))
    return out


@harness("C24", c_opr)
def operators(env, leaves, leaf, dom, ran, case, side):
    pm, pl, P = env.pm, env.pylops, env.P
    dt = "float64"
    lib = Lib(env, leaves, dt)
    (op, M) = lib.leaf(leaf)
    one = lambda nm, i, j: lib.mm(nm, i, j) if False else pl.MatrixMult(env.array(nm, (i, j), dt))
    apply = (lambda v: op.matvec(v)) if side == "fwd" else (lambda v: op.rmatvec(v))
    L, nn = (dom, M.shape[1]) if side == "fwd" else (ran, M.shape[0])
    if case in ("long", "short", "partition", "2d"):
        if case == "partition":
            g = env.array("u", (nn,), dt)
            x = place(env, g, "BROADCAST") if L != "B" else place(env, g, "SCATTER")
            if (leaf, side) in (("a", "fwd"), ("a", "adj"), ("H", "fwd"), ("V", "adj"), ("FD", "fwd"), ("FD", "adj"),
                                ("SD", "fwd"), ("SD", "adj"), ("V", "fwd"), ("H", "adj"), ("Fr", "fwd"), ("Fr", "adj")):
                ss = snaps(env, x)
                y, e = env.attempt(lambda: apply(x))
                if e is None:       # accepted: then it has to be right
                    env.eq("accepted partition", y.asarray(), env.np.dot(M if side == "fwd" else herm(M), g))
                else:
                    env.true("refused", isinstance(e, ERR), "%s: %s" % (type(e).__name__, e))
                for s in ss:
                    s.check("input")
            else:
                env.true("not applicable", True)
            return
        if case == "2d":
            x = place(env, env.array("u", (max(2, nn // 2), 2), dt))
            fn = lambda: op.dot(x)
        else:
            k = 1 if case == "long" else -1
            if isinstance(L, dict):
                L = {"st": [[q, s] for q, s in L["st"]]}
                q, s = L["st"][-1]
                L["st"][-1] = [q + k, bump(s, k)]
                nn += k
            else:
                nn, L = nn + k, bump(L, k)
            _, x = give(env, L, "u", nn, dt)
            fn = lambda: apply(x)
        ss = snaps(env, x)
        env.raises("%s vector" % case, ERR, fn)
        for s in ss:
            s.check("input")
        # and the operator is still usable
        L, nn = (dom, M.shape[1]) if side == "fwd" else (ran, M.shape[0])
        g, x = give(env, L, "w", nn, dt)
        env.eq("afterwards", apply(x).asarray(), env.np.dot(M if side == "fwd" else herm(M), g))
        return
    if case == "scalar @":
        env.raises("op @ scalar", ERR, lambda: op @ 2.0)
        env.raises("scalar @ op", ERR, lambda: 2.0 @ op)
        return
    r = env.rank
    g = lambda nm: lib.leaf(nm)[0]
    n = P * 2 + 1
    dv = lambda k: (lambda v: v)(give(env, [2] * P, k, 2 * P, dt)[1])
    fn = {
        "product": lambda: g("a") @ g("a"),
        "sum": lambda: g("a") + g("b"),
        "difference": lambda: g("b") - g("a"),
        "power": lambda: g("a") ** 2,
        "negative power": lambda: g("b") ** -1,
        "fractional power": lambda: g("b") ** 1.5,
        "stacked product": lambda: g("SB") @ g("SC"),
        "stacked sum": lambda: g("SB") + g("SC"),
        "stacked power": lambda: g("SB") ** 2,
        "V columns one rank": lambda: pm.MPIVStack(ops=[one("p", 1, 2), one("q", 2, 3)]),
        "H rows one rank": lambda: pm.MPIHStack(ops=[one("p", 2, 1), one("q", 3, 2)]),
        "V columns ranks": lambda: pm.MPIVStack(ops=[one("p", 1, 2 + (r == P - 1))]),
        "H rows ranks": lambda: pm.MPIHStack(ops=[one("p", 2 + (r == P - 1), 1)]),
        "stacked vstack columns": lambda: pm.MPIStackedVStack(ops=[g("a"), pm.MPIBlockDiag(ops=[one("p", 2, leaves["a"]["n"][r] + 1)])]),
        "fd kind": lambda: pm.MPIFirstDerivative(n, kind="sideways"),
        "fd order": lambda: pm.MPIFirstDerivative(n, kind="centered", order=7),
        "sd kind": lambda: pm.MPISecondDerivative(n, kind="sideways"),
        "grad kind": lambda: pm.MPIGradient(dims=(n, 2), kind="sideways"),
        "lap sizes": lambda: pm.MPILaplacian(dims=(n, 2), axes=(0, 1), weights=(1, 1, 1), sampling=(1, 1)),
        "mdc even": lambda: sub("waveeqprocessing").MPIMDC(env.array("G", (2, 1, 1), "complex128"), nt=4, nv=1, twosided=True),
        "cg niter": lambda: sub("optimization.cls_basic").CG(g("a")).solve(give(env, ran, "y", sum(ran), dt)[1],
                                                                         give(env, dom, "x", sum(dom), dt)[1], niter=None),
        "cgls niter": lambda: sub("optimization.cls_basic").CGLS(g("a")).solve(give(env, ran, "y", sum(ran), dt)[1],
                                                                             give(env, dom, "x", sum(dom), dt)[1], niter=None),
        "fredholm split": lambda: sub("signalprocessing").MPIFredholm1(env.array("G", (1 + (r > 0), 2, 2), dt), nz=1),
    }[case]
    env.raises(case, ERR, fn)


def bump(L, k):
    if L == "B":
        return L
    L = list(L)
    i = max(range(len(L)), key=lambda j: L[j])
    L[i] += k
    return L
