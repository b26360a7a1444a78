"""Fredholm integrals (C17) and multi-dimensional convolution (C18)."""
import math
from . import harness
from .util import *
from .h_ops import MIX, Lib, both_ways, give, same, herm, sub, snaps


def c_fred(tier):
    out = []
    hi = 4 if tier == "quick" else 6
    for P in range(1, hi + 1):
        for nsl in ([2] * P, [3] + [2] * (P - 1), [2] * (P - 1) + [4], [2 + r % 3 for r in range(P)],
                    [5 - r % 4 for r in range(P)]):
            for i, (nx, ny, nz) in enumerate(((2, 3, 1), (3, 2, 2), (1, 2, 2), (2, 1, 3), (1, 1, 1), (2, 2, 2), (1, 3, 1),
                                              (3, 1, 1), (2, 2, 1), (4, 2, 3))):
                for j, (sg, um) in enumerate(((False, True), (True, True), (False, False), (True, False))):
                    if tier == "quick" and P > 2 and (i + j) % 3 == P % 3:
                        continue
                    if max(nsl) > 3 and tier == "quick" and (P > 3 or nx * ny * nz > 8):
                        continue
                    leaf = dict(k="Fr", nsl=nsl, nx=nx, ny=ny, nz=nz, saveGt=sg, usematmul=um)
                    out.append(dict(P=P, leaf=leaf, dtype="complex128" if (i + j) % 4 else "float64",
                                    lay="U" if i == 1 else "B"))
                    if not sg and um:
                        omit = ["saveGt", "usematmul"] + (["nz"] if nz == 1 else [])
                        out.append(dict(P=P, leaf=dict(leaf, omit=omit), dtype="complex128", lay="B"))
                    if (i + j) % 2:
                        dt, vdt = MIX[(i + 3 * j) % len(MIX)]
                        out.append(dict(P=P, leaf=leaf, dtype=dt, vdt=vdt, lay="B" if i % 3 else "U"))
    return out


@harness("C17", c_fred, groups=40)
def fredholm(env, leaf, dtype, lay, vdt=None):
    op, M = Lib(env, {"o": leaf}, dtype).leaf("o")
    nsl, nx, ny, nz = sum(leaf["nsl"]), leaf["nx"], leaf["ny"], leaf["nz"]
    env.true("dims", tuple(int(i) for i in op.dims) == (nsl, ny, nz) and
             tuple(int(i) for i in op.dimsd) == (nsl, nx, nz))
    f, a = both_ways(env, op, M, lay, lay, dtype, check_lay=False, vdt=vdt)
    env.true("replicated", f.partition is env.pm.Partition.BROADCAST and a.partition is env.pm.Partition.BROADCAST)
    # slice by slice, as in the definition
    G = env.array("o", (nsl, nx, ny), dtype)
    gx = env.array("x", (nsl * ny * nz,), vdt or dtype).reshape(nsl, ny, nz)
    want = env.np.concatenate([env.np.dot(G[k], gx[k]).reshape(-1) for k in range(nsl)])
    env.eq("slices", f.local_array, want)
    env.eq("kernel untouched", op.G, G[block(leaf["nsl"], env.rank)])


# ------------------------------------------------------------------ C18

def c_mdc(tier):
    out = []
    hi = 3 if tier == "quick" else 4
    for P in range(1, hi + 1):
        for nt, two in ((3, True), (5, True), (4, False), (5, False), (7, True), (6, False)):
            nfft = (nt + 2) // 2
            for nf in {nfft, nfft - 1}:
                sizes = splits(nf, P)
                if min(sizes) < 2:
                    continue
                for i, (ns, nr, nv) in enumerate(((2, 1, 1), (1, 2, 2), (2, 2, 1), (1, 1, 1))):
                    if nt > 5 and i not in (0, 3) and tier == "quick":
                        continue
                    for j, (conj, pre) in enumerate(((False, False), (True, False), (False, True))):
                        if tier == "quick" and (i + j + nt) % 2 and nt > 3:
                            continue
                        out.append(dict(P=P, nt=nt, two=two, nf=sizes, ns=ns, nr=nr, nv=nv, conj=conj, pre=pre,
                                        dt=0.5, dr=2.0 if i else 1.0, sg=bool(j % 2), um=bool(i % 2)))
                        if P == 1 and i == 0 and j == 0:
                            out.append(dict(P=P, nt=nt, two=two, nf=sizes, ns=ns, nr=nr, nv=nv, conj=conj, pre=pre,
                                            sg=True, um=True, more=True))
    for P, nt, sizes in ((2, 7, [2, 2]), (3, 11, [2, 2, 2]), (2, 8, [3, 2]), (2, 9, [2, 3]), (2, 6, [2, 2])):
        for two in (True, False):
            if two and nt % 2 == 0:
                continue
            for conj in (False, True):
                out.append(dict(P=P, nt=nt, two=two, nf=sizes, ns=2 if nt < 9 else 1, nr=1, nv=1, conj=conj, pre=conj,
                                dt=0.25, dr=3.0, sg=conj, um=two))
    # options left at their defaults
    for P, nt, sizes in ((1, 3, [2]), (1, 5, [3]), (2, 7, [2, 2]), (2, 9, [3, 2])):
        for omit in (["twosided", "saveGt", "conj", "usematmul", "prescaled"], ["twosided"], ["conj", "prescaled"]):
            out.append(dict(P=P, nt=nt, two=True, nf=sizes, ns=2, nr=1, nv=1, conj=False, pre=False, sg=True, um=False,
                            dt=0.5, dr=2.0, omit=omit))
    # every combination of options, uneven numbers of frequencies, more shapes
    shapes = ((1, 1, 2), (2, 1, 2), (1, 2, 1), (1, 3, 1), (3, 1, 1), (2, 3, 1), (1, 2, 3), (2, 2, 2))
    grids = ((1, 3, [2]), (1, 4, [3]), (1, 5, [2]), (2, 7, [2, 2]), (2, 8, [2, 3]), (2, 9, [3, 2]), (2, 10, [2, 2]),
             (3, 11, [2, 2, 2]), (3, 13, [2, 3, 2]), (3, 12, [3, 2, 2]), (4, 15, [2, 2, 2, 2]))
    i = 0
    for P, nt, sizes in grids:
        for q in range(32):
            two, conj, pre, sg, um = (bool(q >> b & 1) for b in range(5))
            if two and nt % 2 == 0:
                continue
            i += 1
            if tier == "quick" and i % (1 if nt < 6 else 2 if nt < 9 else 4):
                continue
            ns, nr, nv = shapes[(i * 5 + q) % (len(shapes) if nt < 6 else 5 if nt < 9 else 2)]
            out.append(dict(P=P, nt=nt, two=two, nf=sizes, ns=ns, nr=nr, nv=nv, conj=conj, pre=pre, sg=sg, um=um,
                            dt=(1.0, 0.004)[i % 2], dr=(1.0, 0.5, 3.0)[i % 3], gdt=("complex128", "complex64")[i % 5 == 0]))
    return out


def dft(nt, nf, shift):
    """orthonormal real DFT (first nf frequencies), the time axis circularly
    shifted so that the middle sample comes first when `shift`"""
    A = np.zeros((nf, nt), dtype=complex)
    for k in range(nf):
        c = 1.0 if k == 0 or 2 * k == nt else math.sqrt(2)
        for t in range(nt):
            a = 2 * math.pi * ((k * t) % nt) / nt
            A[k, (t + nt // 2) % nt if shift else t] = c / math.sqrt(nt) * complex(math.cos(a), -math.sin(a))
    return A


@harness("C18", c_mdc, budget=90, groups=25)
def mdc(env, nt, two, nf, ns, nr, nv, conj, pre, sg, um, dt=1.0, dr=1.0, more=False, gdt="complex128", omit=()):
    W = sub("waveeqprocessing", env)
    n = sum(nf)
    G = env.array("G", (n, ns, nr), gdt)
    kw = {}
    if (dt, dr) != (1.0, 1.0):
        kw = dict(dt=dt, dr=dr)
    for q, v in (("twosided", two), ("saveGt", sg), ("conj", conj), ("usematmul", um), ("prescaled", pre)):
        if q not in omit:
            kw[q] = v
    op = W.MPIMDC(G[block(nf, env.rank)], nt, nv, n + (3 if more and n == (nt + 2) // 2 else 0), **kw)
    env.true("shape", tuple(int(i) for i in op.shape) == (nt * ns * nv, nt * nr * nv))
    env.true("dtype", np.dtype(op.dtype) == (np.float64 if gdt == "complex128" else np.float32))
    gx, x = give(env, "B", "x", nt * nr * nv, "float64")
    gy, y = give(env, "B", "y", nt * ns * nv, "float64")
    c = 1.0 if pre else dr * dt * math.sqrt(nt)
    K = (G.conj() if conj else G)
    A, A1 = dft(nt, n, two), dft(nt, n, False)
    dot = env.np.dot

    def run(B, kern, C, v, ni, no):
        X = v.reshape(nt, ni * nv)
        F = dot(B, X).reshape(n, ni, nv)
        Y = env.np.concatenate([dot(kern[k], F[k]).reshape(1, no * nv) for k in range(n)], axis=0)
        return dot(C.conj().T, Y).real.reshape(-1) * c
    s = snaps(env, x) + snaps(env, y)
    f = op.matvec(x)
    env.eq("forward", f.local_array, run(A, K, A1, gx, nr, ns), tol=1e-9)
    a = op.rmatvec(y)
    KH = env.np.concatenate([K[k].conj().T.reshape(1, nr, ns) for k in range(n)], axis=0)
    env.eq("adjoint", a.local_array, run(A1, KH, A, gy, ns, nr), tol=1e-9)
    if gdt == "complex128":     # (single precision rounds more than the tolerance)
        env.eq("dot test", env.np.sum(f.asarray() * gy), env.np.sum(gx * a.asarray()), tol=1e-8)
    for q in s:
        q.check("input")
    env.eq("kernel", G, env.array("G", (n, ns, nr), gdt))
