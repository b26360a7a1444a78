"""Derivative operators (C13, C14, C15) against stencil matrices."""
from . import harness
from .util import *
from .h_ops import Lib, both_ways, give, mark, same, herm, sides

KINDS = ("forward", "backward", "centered")


def variants(k):
    for kind in KINDS:
        for order in (3, 5) if k == "FD" and kind == "centered" else (3,):
            for edge in (False, True):
                if edge and kind != "centered":
                    continue
                v = dict(k=k, kind=kind, edge=edge)
                if k == "FD":
                    v["order"] = order
                yield v


def sizes(P, tier):
    ns = set(range(1, 5 * P + 1 if P < 5 else 2 * P + 2)) | {3 * P, 4 * P, 4 * P + 1, 5 * P - 1}
    if tier != "quick":
        ns |= set(range(1, 6 * P + 1)) | {6 * P + 1, 7 * P + 2, 8 * P}
    return sorted(n for n in ns if n >= 1)


def rows(n, P, b):
    return [b * q for q in splits(n, P)]


def c_deriv(k):
    def configs(tier):
        out = []
        hi = 6 if tier == "quick" else 8
        for P in range(1, hi + 1):
            for i, v in enumerate(variants(k)):
                for j, n in enumerate(sizes(P, tier)):
                    out.append(dict(P=P, leaf=dict(v, dims=[n], d="sym"), n=n, b=1,
                                    dtype="complex128" if (i + j) % 4 == 0 else "float64"))
                big = 4 * P + 1
                for dims in ([big, 2], [max(5, 2 * P + 1), 2, 2], [3 * P, 3], [4 * P, 1], [2 * P, 1, 2], [3 * P + 1, 2, 3],
                             [2 * P + 1, 5], [P, 2], [1, 3], [2, 2], [max(1, P - 1), 4]):
                    if tier == "quick" and P >= 4 and (len(dims) == 3 or P > 4 and i % 2):
                        continue
                    out.append(dict(P=P, leaf=dict(v, dims=dims, d="sym"), n=dims[0], b=int(np.prod(dims[1:])),
                                    dtype="float64"))
                out.append(dict(P=P, leaf=dict(v, dims=[big], int=True), n=big, b=1, dtype="float32"))
                for dims in ([big], [2 * P + 2, 2], [3 * P + 1, 1, 2]):
                    b = int(np.prod(dims[1:]))
                    for d in (-0.25, 4, 1.0):
                        out.append(dict(P=P, leaf=dict(v, dims=dims, d=d), n=dims[0], b=b, dtype="float64"))
                    out.append(dict(P=P, leaf=dict(v, dims=dims, d="sym"), n=dims[0], b=b, dtype="complex128",
                                    vdt="float64"))
                    out.append(dict(P=P, leaf=dict(v, dims=dims), n=dims[0], b=b, dtype="complex64", dom="B"))
                    out.append(dict(P=P, leaf=dict(v, dims=dims, d="sym"), n=dims[0], b=b, dtype="float64", dom="B"))
                out.append(dict(P=P, leaf=dict(v, dims=[big], d=0.5), n=big, b=1, dtype="float64", dom="B"))
                out.append(dict(P=P, leaf=dict(v, dims=[big, 2], d=2.0), n=big, b=2, dtype="complex128", dom="B"))
            if k == "FD":
                for n in (4 * P, 2 * P + 1):
                    out.append(dict(P=P, leaf=dict(k=k, dims=[n]), n=n, b=1, dtype="float64"))
            else:
                out.append(dict(P=P, leaf=dict(k=k, dims=[3 * P]), n=3 * P, b=1, dtype="float64"))
        return sides([mark(c) for c in out if not small(c)])
    return configs


def small(cfg):
    """one-sided rows of both edges must be different rows: shorter grids are
    outside what the operators define"""
    leaf = cfg["leaf"]
    need = 1
    if leaf["k"] == "FD" and leaf.get("edge"):
        need = 2 if leaf.get("order", 3) == 3 else 4
    if leaf["k"] == "SD" and leaf.get("edge"):
        need = 3
    return cfg["n"] < need


def derivative(env, leaf, n, b, dtype, dom=None, vdt=None, side=None):
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    lay = rows(n, env.P, b)
    if dom is not None:
        gx, x = give(env, dom, "x", n * b, dtype)
        gy, y = give(env, dom, "y", n * b, dtype)
        if side != "adj":
            same(env, "forward", op.matvec(x), env.np.dot(M, gx), lay)
        if side != "fwd":
            same(env, "adjoint", op.rmatvec(y), env.np.dot(herm(M), gy), lay)
        return
    both_ways(env, op, M, lay, lay, dtype, vdt=vdt, side=side)


@harness("C13", c_deriv("FD"), groups=40)
def first(env, **k):
    derivative(env, **k)


@harness("C14", c_deriv("SD"), groups=40)
def second(env, **k):
    derivative(env, **k)


# ------------------------------------------------------------------ C15

def c_multi(tier):
    out = []
    hi = 5 if tier == "quick" else 7
    for P in range(1, hi + 1):
        n = 3 * P
        for dims in ([n, 3], [2 * P + 1, 4], [n + 1, 3, 3], [n, 5], [max(3, 2 * P), 3], [n + P - 1, 3], [4, 4]):
            if tier == "quick" and P == 5 and dims[1] > 3:
                continue
            if len(dims) == 3 and P > (2 if tier == "quick" else 4):
                continue
            b = int(np.prod(dims[1:]))
            for kind in KINDS:
                for edge in (False, True):
                    if edge and kind != "centered":
                        continue
                    v = dict(dims=dims, kind=kind, edge=edge)
                    out.append(dict(P=P, leaf=dict(v, k="Gr", smp=["sym"] * len(dims)), n=dims[0], b=b, dtype="float64"))
                    axs = [[0, 1], [1, 0], [0], [1], [-2, -1], None] if len(dims) == 2 else \
                        [[0, 1, 2], [2, 0], [1, 2], [0, 2], [-1, -3], None]
                    for i, ax in enumerate(axs):
                        if ax is None:
                            if kind == "centered":
                                out.append(dict(P=P, leaf=dict(k="Lap", dims=dims, edge=edge), n=dims[0], b=b,
                                                dtype="float64"))
                            continue
                        out.append(dict(P=P, leaf=dict(v, k="Lap", axes=ax, weights=["sym"] * len(ax),
                                                       smp=["sym"] * len(ax)), n=dims[0], b=b,
                                        dtype="complex128" if i == 2 else "float64"))
        for dims in ([n, 3], [3, n]) if n > 3 else ([3, 4],):      # every option left at its default
            out.append(dict(P=P, leaf=dict(k="Lap", dims=dims), n=dims[0], b=dims[1], dtype="float64"))
            out.append(dict(P=P, leaf=dict(k="Lap", dims=dims, smp=["sym"] * 2), n=dims[0], b=dims[1], dtype="float64"))
            out.append(dict(P=P, leaf=dict(k="Gr", dims=dims), n=dims[0], b=dims[1], dtype="complex128"))
        if P < 4:
            out.append(dict(P=P, leaf=dict(k="Lap", dims=[2, 3, 4]), n=2, b=12, dtype="float64"))
        for kind in KINDS:
            for w, h in (([1, -2], [0.5, 2.0]), ([0, 1], [1, 3]), ([2.5, 0], [-1.0, 1.0]), ([1, 1], [0.5, 0.5])):
                for ax in ([0, 1], [1, 0], [-2, -1], [-1, 0]):
                    out.append(dict(P=P, leaf=dict(k="Lap", kind=kind, dims=[n, 3], axes=ax, weights=w, smp=h), n=n, b=3,
                                    dtype="float64"))
                out.append(dict(P=P, leaf=dict(k="Gr", kind=kind, dims=[n, 3], smp=h), n=n, b=3, dtype="float32"))
            out.append(dict(P=P, leaf=dict(k="Gr", kind=kind, dims=[n, 3], scalar=0.5), n=n, b=3, dtype="complex128",
                            vdt="float64"))
        out.append(dict(P=P, leaf=dict(k="Gr", dims=[n, 3], kind="forward", scalar="sym"), n=n, b=3, dtype="float64"))
        out.append(dict(P=P, leaf=dict(k="Gr", dims=[n], kind="backward", smp=["sym"]), n=n, b=1, dtype="float64"))
    return sides([mark(c) for c in out])


@harness("C15", c_multi, groups=40)
def multi(env, leaf, n, b, dtype, vdt=None, side=None):
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    lay = rows(n, env.P, b)
    ran = {"st": [[n * b, lay]] * len(leaf["dims"])} if leaf["k"] == "Gr" else lay
    both_ways(env, op, M, lay, ran, dtype, vdt=vdt, side=side)
