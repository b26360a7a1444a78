"""DistributedArray: layout, arithmetic, reductions, ghost cells."""
import inspect

from engine.poly import Unsupported
from . import harness
from .util import *

PARTS = ("SCATTER", "BROADCAST", "UNSAFE_BROADCAST")

# uneven layouts of one axis: (n, sizes per rank), some ranks may be empty
UNEVEN = {
    1: [(3, [3])],
    2: [(3, [1, 2]), (4, [0, 4]), (5, [5, 0]), (4, [3, 1])],
    3: [(4, [1, 2, 1]), (5, [0, 2, 3]), (4, [2, 0, 2]), (6, [1, 4, 1])],
    4: [(5, [1, 1, 0, 3]), (6, [0, 3, 0, 3]), (7, [3, 1, 2, 1])],
    5: [(6, [0, 0, 4, 1, 1])],
}


def ranks(tier, hi=4):
    return range(1, hi + 1) if tier == "quick" else range(1, hi + 3)


def comps(n, P):
    """all ways to cut n entries into P (possibly empty) pieces"""
    if P == 1:
        return [[n]]
    return [[k] + c for k in range(n + 1) for c in comps(n - k, P - 1)]


def many_cuts(tier):
    """(P, sizes): every cut of small axes, some of larger ones"""
    out = []
    for P, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3)):
        out += [(P, c) for c in comps(n, P)]
    out += thin([(3, c) for c in comps(6, 3)], 2) + thin([(4, c) for c in comps(5, 4)], 4)
    out += thin([(5, c) for c in comps(4, 5)], 7) + thin([(6, c) for c in comps(4, 6)], 13)
    if tier != "quick":
        out += [(3, c) for c in comps(7, 3)] + [(4, c) for c in comps(6, 4)] + [(5, c) for c in comps(5, 5)]
        out += thin([(7, c) for c in comps(5, 7)], 9)
    return out


# ------------------------------------------------------------------ C01

def c_split(tier):
    out = []
    for P in ranks(tier):
        for shape in ((1,), (3,), (5,), (7,), (4, 2), (2, 5), (3, 2, 2)):
            for axis in range(len(shape)):
                for part in PARTS:
                    if part != "SCATTER" and axis:
                        continue
                    dt = {1: "float64", 2: "complex128", 3: "int64"}[len(shape)]
                    out.append(dict(P=P, shape=list(shape), axis=axis, part=part, dtype=dt))
        for n, sizes in UNEVEN.get(P, []):
            out.append(dict(P=P, shape=[n], axis=0, part="SCATTER", dtype="float64", sizes=sizes))
            out.append(dict(P=P, shape=[2, n], axis=1, part="SCATTER", dtype="float32", sizes=sizes))
            out.append(dict(P=P, shape=[n, 2, 2], axis=0, part="SCATTER", dtype="complex128", sizes=sizes))
        if P > 1:
            for part in PARTS:
                out.append(dict(P=P, shape=[5], axis=0, part=part, dtype="float64", comm="dup"))
                out.append(dict(P=P, shape=[3, 3], axis=1, part=part, dtype="float64", comm="split"))
            out.append(dict(P=P, shape=[5], axis=0, part="SCATTER", dtype="float64",
                            mask=[r % 2 for r in range(P)]))
    # every length over every number of ranks
    for P in range(1, 9 if tier == "quick" else 13):
        for n in range(1, 2 * P + 3 if tier == "quick" else 4 * P + 4):
            shape, axis = (([n], 0), ([n, 2], 0), ([2, n], 1))[(n + P) % 3]
            out.append(dict(P=P, shape=shape, axis=axis, part="SCATTER", dtype="float64"))
    for i, (P, c) in enumerate(many_cuts(tier)):
        n = sum(c)
        shape, axis = (([n], 0), ([n, 2], 0), ([2, n], 1), ([2, n, 2], 1), ([n, 1, 2], 0), ([1, 2, n], 2))[i % 6]
        out.append(dict(P=P, shape=shape, axis=axis, part="SCATTER", dtype=("float64", "complex128")[i % 2], sizes=c))
    # arrays stored differently (column-major, views), more dimensions, larger arrays
    for P in ranks(tier):
        for i, st in enumerate(("F", "T", "step", "back")):
            for shape, axis in (([P + 1, 2], 0), ([2, P + 1], 1), ([2, P, 3], 1), ([P + 2], 0)):
                out.append(dict(P=P, shape=shape, axis=axis, part=PARTS[(i + axis) % 3 if axis == 0 and P < 4 else 0],
                                dtype="float64", stored=st))
        for axis in range(4):
            shape = [2, 1, 2, 1]
            shape[axis] = P + 1
            out.append(dict(P=P, shape=shape, axis=axis, part="SCATTER", dtype="complex128"))
    for P, n in ((3, 70), (4, 130), (8, 70), (12, 40)):
        out.append(dict(P=P, shape=[n], axis=0, part="SCATTER", dtype="float64"))
        out.append(dict(P=P, shape=[3, n], axis=1, part="SCATTER", dtype="complex128"))
    return out


def stored_as(env, g, how):
    """the same array, stored differently"""
    if how == "F":
        return g.copy(order="F")
    if how == "T":
        return g.T.copy().T
    if how == "step":
        return env.np.concatenate([g[..., None], g[..., None] * 0], axis=-1)[..., 0]
    if how == "back":
        return g[::-1].copy()[::-1]
    return g


@harness("C01", c_split)
def roundtrip(env, shape, axis, part, dtype, sizes=None, comm=None, mask=None, stored=None):
    pm = env.pm
    cm, rank, P, grp = comm_of(env, comm)
    nm = "x%d" % grp
    g = env.array(nm, shape, dtype)
    kw = {}
    if sizes is not None:
        kw["local_shapes"] = local_shapes(shape, axis, sizes)
    if mask is not None:
        kw["mask"] = mask
    d = pm.DistributedArray.to_dist(x=stored_as(env, env.array(nm, shape, dtype), stored), base_comm=cm,
                                    partition=part_of(env, part), axis=axis, **kw)
    env.true("global shape", tuple(d.global_shape) == tuple(shape))
    env.true("ndim", d.ndim == len(shape))
    env.eq("gathered", d.asarray(), g)
    env.true("dtype", d.dtype == np.dtype(dtype) and d.local_array.dtype == np.dtype(dtype))
    env.true("partition", d.partition is part_of(env, part) and d.axis == axis)
    env.true("rank and size", d.rank == rank and d.size == P)
    ls = [tuple(int(i) for i in s) for s in d.local_shapes]
    env.true("one local shape per rank", len(ls) == P)
    env.true("local shape is listed", tuple(int(i) for i in d.local_shape) == ls[rank])
    env.true("stored shape", tuple(d.local_array.shape) == ls[rank])
    if part == "SCATTER":
        n = shape[axis]
        want = splits(n, P) if sizes is None else sizes
        env.true("split sizes", [s[axis] for s in ls] == list(want))
        env.true("other axes whole", all(s[a] == shape[a] for s in ls for a in range(len(shape)) if a != axis))
        env.eq("local part", d.local_array, g[sl(len(shape), axis, block(want, rank))])
        env.eq("indexing reads the local part", d[sl(len(shape), axis, slice(0, 1))],
               g[sl(len(shape), axis, block(want, rank))][sl(len(shape), axis, slice(0, 1))])
    else:
        env.eq("local part", d.local_array, g)
        env.true("split sizes", all(s == tuple(shape) for s in ls))


def c_assemble(tier):
    out = []
    for P in ranks(tier):
        for n, sizes in UNEVEN.get(P, []) + [(2 * P, None), (P + 1, None), (max(1, P - 1), None)]:
            out.append(dict(P=P, shape=[n], axis=0, sizes=sizes, dtype="float64"))
            out.append(dict(P=P, shape=[n, 2], axis=0, sizes=sizes, dtype="complex128"))
            out.append(dict(P=P, shape=[2, n], axis=1, sizes=sizes, dtype="float64"))
    for i, (P, c) in enumerate(thin(many_cuts(tier), 3)):
        n = sum(c)
        shape, axis = (([n], 0), ([2, n], 1), ([n, 2], 0))[i % 3]
        out.append(dict(P=P, shape=shape, axis=axis, sizes=c, dtype="float64"))
    return out


@harness("C01", c_assemble)
def assemble(env, shape, axis, sizes, dtype):
    """rank-local assignments are gathered in rank order along the axis, and
    local_split announces exactly the shapes the array has"""
    pm = env.pm
    ss = sizes or splits(shape[axis], env.P)
    d = pm.DistributedArray(global_shape=tuple(shape), axis=axis, dtype=np.dtype(dtype),
                            local_shapes=local_shapes(shape, axis, sizes))
    parts = []
    for r in range(env.P):
        q = list(shape)
        q[axis] = ss[r]
        parts.append(env.array("p%d" % r, q, dtype))
    d[:] = parts[env.rank]
    env.eq("gathered", d.asarray(), env.np.concatenate(parts, axis=axis))
    env.eq("own part", d[:], parts[env.rank])
    if sizes is None:
        LS = getattr(sub("DistributedArray"), "local_split", None)
        got = LS(tuple(shape), env.comm, pm.Partition.SCATTER, axis) if LS else None
        if got is not None:
            env.true("announced split", tuple(int(i) for i in got) == tuple(int(i) for i in d.local_shape))
    # a flat integer shape is accepted too
    if len(shape) == 1:
        e = pm.DistributedArray(global_shape=shape[0], dtype=np.dtype(dtype),
                                local_shapes=None if sizes is None else list(sizes))
        e[:] = parts[env.rank]
        env.eq("integer shape", e.asarray(), env.np.concatenate(parts, axis=axis))


def c_any(tier):
    sizes = list(range(1, 13)) + [16, 24, 33] if tier == "quick" else list(range(1, 41)) + [48, 64, 65]
    return [dict(P=1, parts=p, ndim=k) for p in sizes for k in ((1, 2) if p < 9 else (1,))]


class OfSize:
    """what local_split may ask a communicator"""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __getattr__(self, name):
        raise Unsupported("communicator.%s" % name)


@harness("C01", c_any)
def split_any(env, parts, ndim):
    """the balanced split of an axis of any length"""
    pm = env.pm
    LS = getattr(sub("DistributedArray"), "local_split", None)
    # an internal function: it may go away or change its arguments
    if LS is None or list(inspect.signature(LS).parameters)[:4] != ["global_shape", "base_comm", "partition", "axis"]:
        return
    n = env.integer("n")
    for axis in range(ndim):
        shape = tuple(n if a == axis else 3 + a for a in range(ndim))
        got = [LS(shape, OfSize(r, parts), pm.Partition.SCATTER, axis) for r in range(parts)]
        env.true("dimensions", all(len(g) == ndim for g in got))
        env.true("other axes whole", all(g[a] == shape[a] for g in got for a in range(ndim) if a != axis))
        ns = [g[axis] for g in got]
        env.eq("pieces sum to the axis", env.np.asarray([sum(ns)]), env.np.asarray([n]))
        env.true("balanced", all(bool(q >= 0) and bool(q <= ns[0]) and bool(ns[0] <= q + 1) for q in ns))
        env.true("larger pieces first", all(bool(a >= b) for a, b in zip(ns, ns[1:])))
        for part in ("BROADCAST", "UNSAFE_BROADCAST"):
            w = LS(shape, OfSize(parts - 1, parts), part_of(env, part), axis)
            env.true("broadcast whole", len(w) == ndim and all(bool(a == b) for a, b in zip(w, shape)))


# ------------------------------------------------------------------ C02

def layouts(P, tier):
    """(shape, axis, part, sizes, mask, comm)"""
    out = [([max(1, P)], 0, "SCATTER", None, None, None), ([P + 2], 0, "SCATTER", None, None, None),
           ([3, P + 1], 1, "SCATTER", None, None, None), ([P, 2, 2], 0, "SCATTER", None, None, None),
           ([4], 0, "BROADCAST", None, None, None), ([2, 3], 1, "BROADCAST", None, None, None),
           ([4], 0, "UNSAFE_BROADCAST", None, None, None)]
    for n, s in UNEVEN.get(P, []):
        out.append(([n], 0, "SCATTER", s, None, None))
    for n, s in UNEVEN.get(P, [])[:2]:
        out.append(([2, n], 1, "SCATTER", s, None, None))
    if P > 1:
        out.append(([2 * P], 0, "SCATTER", None, [r % 2 for r in range(P)], None))
        out.append(([3], 0, "BROADCAST", None, [r // 2 for r in range(P)], None))
        out.append(([4], 0, "SCATTER", None, None, "split"))
        out.append(([3], 0, "BROADCAST", None, None, "split"))
        out.append(([P + 1], 0, "SCATTER", None, None, "dup"))
        out.append(([P, 2], 1, "BROADCAST", None, None, "dup"))
        out.append(([1], 0, "SCATTER", None, None, None))
        out.append(([2, P - 1], 1, "SCATTER", None, None, None))
        out.append(([2, P], 1, "SCATTER", None, [r // 2 for r in range(P)], None))
        out.append(([1, 3, 2], 0, "UNSAFE_BROADCAST", None, None, "split"))
    for i, (q, c) in enumerate(many_cuts(tier)):
        if q == P and i % (1 if tier != "quick" else 2) == 0:
            n = sum(c)
            shape, axis = (([n], 0), ([n, 2], 0), ([2, n], 1), ([2, n, 2], 1))[(i // 2) % 4]
            out.append((shape, axis, "SCATTER", c, None, None))
    if P == 3:
        out += [([40], 0, "SCATTER", None, None, None), ([3, 17], 1, "SCATTER", [0, 16, 1], None, None),
                ([2, 1, 2, 4], 3, "SCATTER", None, None, None)]
    if tier != "quick":
        out += [([2, P + 1, 2], 1, "SCATTER", None, None, None), ([2, 2, P], 2, "SCATTER", None, None, None),
                ([3 * P + 1], 0, "SCATTER", None, None, None)]
    return out


def c_arith(tier):
    out = []
    for P in ranks(tier):
        for i, (shape, axis, part, sizes, mask, comm) in enumerate(layouts(P, tier)):
            for dt in (("float64", "complex128") if tier != "quick" or i % 2 == 0 else ("float64",)):
                out.append(dict(P=P, shape=shape, axis=axis, part=part, sizes=sizes, mask=mask, comm=comm, dtype=dt))
        out.append(dict(P=P, shape=[P + 1], axis=0, part="SCATTER", sizes=None, mask=None, comm=None, dtype="int64"))
        out.append(dict(P=P, shape=[2, P], axis=1, part="SCATTER", sizes=None, mask=None, comm=None, dtype="complex64"))
    for P in (6, 8):
        out.append(dict(P=P, shape=[P + 3], axis=0, part="SCATTER", sizes=None, mask=None, comm=None, dtype="float64"))
        out.append(dict(P=P, shape=[2, P - 1], axis=1, part="SCATTER", sizes=None, mask=None, comm=None, dtype="float32"))
    return out


def same_layout(env, label, got, like):
    m, w = meta(got), meta(like)
    for k in m:
        env.true("%s keeps %s" % (label, k), m[k] == w[k], "%s instead of %s" % (m[k], w[k]))
    env.true(label + " same ranks", got.size == like.size and got.rank == like.rank)


@harness("C02", c_arith)
def arithmetic(env, shape, axis, part, sizes, mask, comm, dtype):
    cm, rank, P, grp = comm_of(env, comm)
    k = "complex" if dtype.startswith("c") else "float"
    gx, gy = env.array("x%d" % grp, shape, dtype), env.array("y%d" % grp, shape, dtype)
    al = env.scalar("alpha", k) if dtype != "int64" else 3

    def fresh(g):
        return place(env, g, part, axis, sizes, mask, cm)
    x, y = fresh(gx), fresh(gy)
    sx, sy = Snap(env, x), Snap(env, y)
    cases = [("neg", lambda: -x, lambda: -gx), ("add", lambda: x + y, lambda: gx + gy),
             ("sub", lambda: x - y, lambda: gx - gy), ("mul", lambda: x * y, lambda: gx * gy),
             ("scalar right", lambda: x * al, lambda: gx * al), ("scalar left", lambda: al * x, lambda: al * gx),
             ("add()", lambda: y.add(x), lambda: gx + gy), ("multiply()", lambda: x.multiply(y), lambda: gx * gy),
             ("self add", lambda: x + x, lambda: gx + gx), ("self mul", lambda: x * x, lambda: gx * gx),
             ("conj", lambda: x.conj(), lambda: gx.conj()), ("copy", lambda: x.copy(), lambda: gx),
             ("zeros_like", lambda: x.zeros_like(), lambda: gx * 0),
             ("nested", lambda: -(x + y * al) * y - x, lambda: -(gx + gy * al) * gy - gx)]
    ss = sizes or (splits(shape[axis], P) if part == "SCATTER" else None)
    for name, f, ref in cases:
        r, want = f(), ref()
        same_layout(env, name, r, x)
        env.true(name + " dtype", r.dtype == want.dtype and r.local_array.dtype == want.dtype)
        env.eq(name, r.asarray(), want)
        env.eq(name + " local", r.local_array, want if ss is None else want[sl(len(shape), axis, block(ss, rank))])
        # the result is a new array: writing to it leaves the operands alone
        r.local_array[...] = r.local_array + 1
        sx.check(name + ": first operand")
        sy.check(name + ": second operand")


@harness("C02", c_arith)
def inplace(env, shape, axis, part, sizes, mask, comm, dtype):
    cm, rank, P, grp = comm_of(env, comm)
    gx, gy = env.array("x%d" % grp, shape, dtype), env.array("y%d" % grp, shape, dtype)
    for name in ("iadd", "isub", "iadd()", "self"):
        x = place(env, gx, part, axis, sizes, mask, cm)
        y = place(env, gy, part, axis, sizes, mask, cm)
        alias = x
        sy = Snap(env, y)
        if name == "iadd":
            x += y
            want = gx + gy
        elif name == "isub":
            x -= y
            want = gx - gy
        elif name == "self":
            x += x
            want = gx + gx
        else:
            x = x.iadd(y)
            want = gx + gy
        env.true(name + " in place", x is alias)
        env.eq(name, x.asarray(), want)
        same_layout(env, name, x, y)
        sy.check(name + ": other operand")
    # indexed assignment and reading back
    if part == "SCATTER":
        x = place(env, gx, part, axis, sizes, mask, cm)
        v = env.array("v", [1], dtype)
        ss = sizes or splits(shape[axis], P)
        x[sl(len(shape), axis, slice(0, 1))] = v[0]
        want = gx.copy()
        lo = 0
        for r in range(P):
            if ss[r]:
                want[sl(len(shape), axis, slice(lo, lo + 1))] = v[0]
            lo += ss[r]
        env.eq("indexed assignment", x.asarray(), want)


# ------------------------------------------------------------------ C03

ORDS = [None, 0, 1, 2, 3, 4, "inf", "-inf", 0.5, 1.5]


def _ord(o):
    return {"inf": np.inf, "-inf": -np.inf}.get(o, o) if isinstance(o, str) else o


def ref_norm(env, a, ord, axis=None):
    """numpy.linalg.norm by its definition"""
    npx = env.np
    o = _ord(ord)
    if axis is None:
        a, axis = vec(a), 0
    ab = npx.abs(a)
    if o is None:
        o = 2
    if o == 0:
        return npx.sum((ab != 0) * 1.0, axis=axis)
    if o == np.inf:
        return npx.max(ab, axis=axis)
    if o == -np.inf:
        return npx.min(ab, axis=axis)
    if o == 2:
        q = (a * a.conj()).real if a.dtype.kind == "c" else a * a
        return npx.sqrt(npx.sum(q, axis=axis))
    return npx.power(npx.sum(npx.float_power(ab, o), axis=axis), 1. / o)


def c_dot(tier):
    out = []
    for P in ranks(tier):
        for i, (shape, axis, part, sizes, mask, comm) in enumerate(layouts(P, tier)):
            if mask is not None:
                continue
            for dt in ("float64", "complex128") if (i % 2 == 0 or tier != "quick") else ("complex128",):
                out.append(dict(P=P, shape=shape, axis=axis, part=part, sizes=sizes, comm=comm, dtype=dt))
        out.append(dict(P=P, shape=[P + 2], axis=0, part="SCATTER", sizes=None, comm=None, dtype="int64"))
    for P in (6, 8):
        out.append(dict(P=P, shape=[P + 3], axis=0, part="SCATTER", sizes=None, comm=None, dtype="complex128"))
        out.append(dict(P=P, shape=[2, P - 1], axis=1, part="SCATTER", sizes=None, comm=None, dtype="float32"))
        out.append(dict(P=P, shape=[P + 1], axis=0, part="BROADCAST", sizes=None, comm=None, dtype="complex128"))
    return out


@harness("C03", c_dot)
def dot(env, shape, axis, part, sizes, comm, dtype):
    cm, rank, P, grp = comm_of(env, comm)
    gx, gy = env.array("x%d" % grp, shape, dtype), env.array("y%d" % grp, shape, dtype)
    x = place(env, gx, part, axis, sizes, None, cm)
    y = place(env, gy, part, axis, sizes, None, cm)
    sx, sy = Snap(env, x), Snap(env, y)
    want = env.np.sum(vec(gx) * vec(gy))
    env.eq("dot", x.dot(y), want)
    env.eq("dot again", y.dot(x), want)
    env.eq("conjugate dot", x.conj().dot(y), env.np.sum(vec(gx).conj() * vec(gy)))
    env.eq("square", x.dot(x), env.np.sum(vec(gx) * vec(gx)))
    sx.check("operand")
    sy.check("operand")


def c_norm(tier):
    out = []
    for P in ranks(tier):
        for i, (shape, axis, part, sizes, mask, comm) in enumerate(layouts(P, tier)):
            if mask is not None:
                continue
            if tier == "quick" and P == 4 and i % 2 and sizes is None and comm is None:
                continue
            out.append(dict(P=P, shape=shape, axis=axis, part=part, sizes=sizes, comm=comm,
                            dtype="complex128" if i % 3 == 1 else "float64"))
        out.append(dict(P=P, shape=[P + 2], axis=0, part="SCATTER", sizes=None, comm=None, dtype="int64"))
        out.append(dict(P=P, shape=[2, P], axis=1, part="SCATTER", sizes=None, comm=None, dtype="complex64"))
    for P in (6, 8):
        out.append(dict(P=P, shape=[P + 3], axis=0, part="SCATTER", sizes=None, comm=None, dtype="float64"))
        out.append(dict(P=P, shape=[2, P - 1], axis=1, part="SCATTER", sizes=None, comm=None, dtype="float64"))
    return out


@harness("C03", c_norm)
def norm_flat(env, shape, axis, part, sizes, comm, dtype):
    cm, rank, P, grp = comm_of(env, comm)
    gx = env.array("x%d" % grp, shape, dtype)
    x = place(env, gx, part, axis, sizes, None, cm)
    sx = Snap(env, x)
    for o in ORDS:
        got = x.norm() if o is None else x.norm(_ord(o))
        env.eq("norm ord=%s" % o, env.np.asarray(got).reshape(-1), env.np.asarray(ref_norm(env, gx, o)).reshape(-1))
    sx.check("operand")


def c_norm_axis(tier):
    out = []
    for P in ranks(tier):
        for n, sizes in [(P + 1, None), (2 * P, None)] + UNEVEN.get(P, []):
            for shape, axis in (([n], 0), ([n, 2], 0), ([2, n], 1), ([2, n, 2], 1)):
                if len(shape) == 3 and tier == "quick" and P > 3:
                    continue
                out.append(dict(P=P, shape=shape, axis=axis, sizes=sizes, part="SCATTER",
                                dtype="complex128" if len(shape) == 2 and axis == 1 else "float64"))
        out.append(dict(P=P, shape=[3, 2], axis=0, sizes=None, part="BROADCAST", dtype="float64"))
        out.append(dict(P=P, shape=[3], axis=0, sizes=None, part="UNSAFE_BROADCAST", dtype="complex128"))
    return out


@harness("C03", c_norm_axis)
def norm_axis(env, shape, axis, sizes, part, dtype):
    gx = env.array("x", shape, dtype)
    x = place(env, gx, part, axis, sizes)
    for o in ORDS:
        got = x.norm(_ord(o), axis=axis)
        want = ref_norm(env, gx, o, axis)
        got, want = env.np.asarray(got), env.np.asarray(want)
        if len(shape) == 1:
            got, want = got.reshape(-1), want.reshape(-1)
        env.eq("norm ord=%s along the partition axis" % o, got, want)


# ------------------------------------------------------------------ C04

def c_mask(tier):
    out = []
    for P in ranks(tier):
        masks = {1: [[0], [5]], 2: [[0, 0], [0, 1], [1, 0]], 3: [[0, 0, 1], [0, 1, 0], [2, 1, 0], [1, 0, 0]],
                 4: [[0, 0, 1, 1], [0, 1, 0, 1], [1, 0, 0, 2], [3, 3, 0, 3]],
                 5: [[0, 1, 1, 0, 2]], 6: [[0, 1, 2, 0, 1, 2], [1, 1, 0, 0, 0, 0]]}[P]
        for m in masks:
            for n, sizes in [(2 * P, None), (P + 1, None)] + UNEVEN.get(P, [])[:2]:
                out.append(dict(P=P, shape=[n], axis=0, sizes=sizes, mask=m, dtype="float64"))
            out.append(dict(P=P, shape=[P + 1, 2], axis=0, sizes=None, mask=m, dtype="complex128"))
            out.append(dict(P=P, shape=[2, P + 1], axis=1, sizes=None, mask=m, dtype="float64"))
    # every way to group up to four ranks, some for more
    groups = [(P, m) for P in (2, 3, 4) for m in partitions(P)]
    groups += thin([(5, m) for m in partitions(5)], 6) + thin([(6, m) for m in partitions(6)], 29)
    cuts = many_cuts(tier)
    for i, (P, m) in enumerate(groups):
        cs = [c for q, c in cuts if q == P]
        for j in range(2 if tier == "quick" else 6):
            c = cs[(7 * i + 5 * j) % len(cs)]
            n = sum(c)
            shape, axis = (([n], 0), ([n, 2], 0), ([2, n], 1))[(i + j) % 3]
            out.append(dict(P=P, shape=shape, axis=axis, sizes=c, mask=[3 - g for g in m] if i % 2 else m,
                            dtype=("float64", "complex128")[j % 2]))
    return out


def partitions(P):
    """all ways to put P ranks into groups, named by order of appearance"""
    out = [[]]
    for _ in range(P):
        out = [m + [g] for m in out for g in range(max(m, default=-1) + 2)]
    return out


@harness("C04", c_mask)
def masked(env, shape, axis, sizes, mask, dtype):
    gx, gy = env.array("x", shape, dtype), env.array("y", shape, dtype)
    al = env.scalar("alpha")
    ss = sizes or splits(shape[axis], env.P)

    def grp(g):
        return env.np.concatenate([vec(g[sl(len(shape), axis, block(ss, r))]) for r in range(env.P)
                                   if mask[r] == mask[env.rank]])

    def check(label, d, e, ga, gb, ords=(None, 1, "inf")):
        a, b = grp(ga), grp(gb)
        env.true(label + " keeps the mask", d.mask is not None and list(d.mask) == list(mask))
        env.eq(label + " dot", d.dot(e), env.np.sum(a * b))
        for o in ords:
            if not (o in ("inf", "-inf") and a.size == 0):
                env.eq("%s norm ord=%s" % (label, o), env.np.asarray(d.norm(_ord(o))).reshape(-1),
                       env.np.asarray(ref_norm(env, a, o)).reshape(-1))
    allords = [o for o in ORDS if not (isinstance(o, str) and any(
        sum(ss[r] for r in range(env.P) if mask[r] == c) == 0 for c in set(mask)))]
    few = [o for o in (None, 1, "inf") if o in allords]
    x = place(env, gx, "SCATTER", axis, sizes, mask)
    y = place(env, gy, "SCATTER", axis, sizes, mask)
    check("array", x, y, gx, gy, allords)
    check("scattered by the library", env.pm.DistributedArray.to_dist(
        x=gx, axis=axis, mask=mask, local_shapes=local_shapes(shape, axis, sizes)), y, gx, gy, few)
    check("neg", -x, y, -gx, gy, few)
    check("sum", x + y, y, gx + gy, gy, few)
    check("product", x * y, x, gx * gy, gx, few)
    check("scaled", al * x, y, gx * al, gy, few)
    check("conj", x.conj(), y, gx.conj(), gy, few)
    check("copy", x.copy(), y, gx, gy, few)
    check("zeros_like", x.zeros_like(), y, gx * 0, gy, ())
    z = x.copy()
    z -= y
    check("in-place", z, y, gx - gy, gy, few)
    S = env.pm.StackedDistributedArray
    for label, st, ga2 in (("stack", S([x, y]), (gx, gy)), ("neg of a stack", -S([x, y]), (-gx, -gy)),
                           ("scaled stack", S([x, y]) * al, (gx * al, gy * al)),
                           ("difference of stacks", S([x, y]) - S([y, x]), (gx - gy, gy - gx))):
        a, b, c, e = grp(ga2[0]), grp(ga2[1]), grp(gx), grp(gy)
        env.eq(label + " dot", st.dot(S([x, y])), env.np.sum(a * c) + env.np.sum(b * e))
        env.true(label + " keeps the masks", all(q.mask is not None and list(q.mask) == list(mask) for q in st.distarrays))
        for o in few[:1]:
            env.eq("%s norm ord=%s" % (label, o), env.np.asarray(st.norm(_ord(o))).reshape(-1),
                   env.np.asarray(ref_norm(env, env.np.concatenate([a, b]), o)).reshape(-1))
    f = x.ravel()
    env.true("ravel keeps the mask", f.mask is not None and list(f.mask) == list(mask))
    env.eq("ravel dot", f.dot(y.ravel()), env.np.sum(grp(gx) * grp(gy)))
    # along the partition axis
    ga = env.np.concatenate([gx[sl(len(shape), axis, block(ss, r))] for r in range(env.P)
                             if mask[r] == mask[env.rank]], axis=axis)
    for o in few:
        env.eq("norm along the axis ord=%s" % o, env.np.asarray(x.norm(_ord(o), axis=axis)).reshape(-1),
               env.np.asarray(ref_norm(env, ga, o, axis)).reshape(-1))


# ------------------------------------------------------------------ C05

def c_ravel(tier):
    out = []
    for P in ranks(tier):
        for n, sizes in [(P + 1, None), (2 * P, None)] + UNEVEN.get(P, []):
            for shape, axis in (([n], 0), ([n, 3], 0), ([2, n], 1), ([n, 2, 2], 0), ([2, n, 2], 1), ([2, 2, n], 2)):
                if tier == "quick" and P == 4 and len(shape) == 3 and sizes is not None:
                    continue
                out.append(dict(P=P, shape=shape, axis=axis, sizes=sizes, part="SCATTER", mask=None, comm=None))
        for part in PARTS[1:]:
            out.append(dict(P=P, shape=[2, 3], axis=0, sizes=None, part=part, mask=None, comm=None))
            out.append(dict(P=P, shape=[2, 2, 3], axis=1, sizes=None, part=part, mask=None, comm=None))
        if P > 1:
            out.append(dict(P=P, shape=[2, P, 2], axis=1, sizes=None, part="SCATTER",
                            mask=[r // 2 for r in range(P)], comm=None))
            out.append(dict(P=P, shape=[P + 1, 2], axis=0, sizes=None, part="SCATTER",
                            mask=[r % 2 for r in range(P)], comm=None))
            for part in ("SCATTER", "BROADCAST"):
                out.append(dict(P=P, shape=[3, 2], axis=0, sizes=None, part=part, mask=None, comm="split"))
                out.append(dict(P=P, shape=[2, 3, 2], axis=1, sizes=None, part=part, mask=None, comm="dup"))
    for i, (P, c) in enumerate(many_cuts(tier)):
        n = sum(c)
        shape, axis = (([n, 2], 0), ([2, n], 1), ([n], 0), ([n, 3, 2], 0), ([2, n, 2], 1), ([2, 3, n], 2))[i % 6]
        out.append(dict(P=P, shape=shape, axis=axis, sizes=c, part="SCATTER", mask=None, comm=None))
    return out


@harness("C05", c_ravel)
def ravel(env, shape, axis, sizes, part, mask, comm):
    cm, rank, P, grp = comm_of(env, comm)
    g = env.array("x%d" % grp, shape, "complex128" if len(shape) == 2 else "float64")
    x = place(env, g, part, axis, sizes, mask, cm)
    sx = Snap(env, x)
    ss = sizes or splits(shape[axis], P)
    for order in (None, "C", "F"):
        f = x.ravel() if order is None else x.ravel(order=order)
        o = order or "C"
        if part == "SCATTER":
            loc = [g[sl(len(shape), axis, block(ss, r))].copy() for r in range(P)]
            flat = [env.np.ravel(a, order=o) for a in loc]
        else:
            flat = [env.np.ravel(g, order=o)] * P
        env.eq("local part %s" % order, f.local_array, flat[rank])
        env.true("global shape", tuple(int(i) for i in f.global_shape) == (int(np.prod(shape)),))
        env.true("flat layout", f.axis == 0 and f.ndim == 1 and f.partition is x.partition and f.dtype == x.dtype)
        env.true("mask kept", (f.mask is None) == (mask is None) and (mask is None or list(f.mask) == list(mask)))
        env.true("same group of ranks", f.size == P and f.rank == rank)
        env.true("local shapes", [tuple(int(i) for i in s) for s in f.local_shapes] == [tuple(a.shape) for a in flat])
        env.eq("gathered %s" % order, f.asarray(),
               env.np.concatenate(flat) if part == "SCATTER" else flat[0])
        if part == "SCATTER" and axis == 0 and o == "C":
            env.eq("order of the global array", f.asarray(), vec(g))
        # a copy, not a view
        f.local_array[...] = f.local_array + 1
        sx.check("the array")


# ------------------------------------------------------------------ C06

def c_ghost(tier):
    out = []
    for P in ranks(tier):
        for shape, axis, sizes in (([2 * P], 0, None), ([2 * P + 1], 0, None), ([2, 3 * P], 1, None),
                                   ([2 * P, 2, 2], 0, None),
                                   ([2 * P + 2], 0, [2] * (P - 1) + [4]), ([2 * P + 1, 2], 0, [3] + [2] * (P - 1))):
            for f, b in ((1, 1), (0, 2), (2, 0), (2, 1), (None, 1), (1, None), (2, 2), (0, 0), (None, None)):
                if tier == "quick" and len(shape) == 3 and (f, b) not in ((1, 1), (2, 1), (None, 1)):
                    continue
                out.append(dict(P=P, shape=shape, axis=axis, sizes=sizes, front=f, back=b))
        # per-rank counts
        out.append(dict(P=P, shape=[3 * P], axis=0, sizes=None, front=[r % 3 for r in range(P)],
                        back=[(r + 1) % 3 for r in range(P)]))
        out.append(dict(P=P, shape=[3 * P + 1, 2], axis=0, sizes=None, front=[(2 * r) % 4 for r in range(P)],
                        back=[(2 * r + 1) % 4 for r in range(P)]))
        out.append(dict(P=P, shape=[2, 3 * P], axis=1, sizes=None, front=[3] * P, back=[3] * P))
        if P > 2:
            s = [2] * P
            s[1] = 0
            out.append(dict(P=P, shape=[sum(s)], axis=0, sizes=s, front=[0] * 2 + [0] + [1] * (P - 3),
                            back=[0, 2] + [0] * (P - 2)))
            out.append(dict(P=P, shape=[sum(s)], axis=0, sizes=s, front=[0, 1] + [0] * (P - 2),
                            back=[0] * P))
        if P > 1:
            # not enough cells: an error, never wrong cells
            out.append(dict(P=P, shape=[P], axis=0, sizes=None, front=2, back=None, _partial=True))
            out.append(dict(P=P, shape=[P], axis=0, sizes=None, front=None, back=2, _partial=True))
            out.append(dict(P=P, shape=[2 * P, 2], axis=0, sizes=[1, 3] + [2] * (P - 2), front=2, back=1,
                            _partial=True))
            out.append(dict(P=P, shape=[2, 2 * P], axis=1, sizes=[2] * (P - 2) + [3, 1], front=1, back=2,
                            _partial=True))
            out.append(dict(P=P, shape=[P - 1], axis=0, sizes=None, front=1, back=1, _partial=True))
    for P, n in ((3, 40), (8, 19), (6, 40)):
        for f, b in ((2, 1), (1, 2), (None, 2), (2, None)):
            out.append(dict(P=P, shape=[n], axis=0, sizes=None, front=f, back=b))
            out.append(dict(P=P, shape=[2, n], axis=1, sizes=None, front=b, back=f))
    out.append(dict(P=3, shape=[40, 2], axis=0, sizes=[13, 14, 13], front=13, back=13))
    out.append(dict(P=3, shape=[2, 2, 2, 6], axis=3, sizes=None, front=1, back=2))
    # any cut with any widths; asking for more than the neighbour owns may be refused
    widths = [(f, b) for f in (None, 0, 1, 2, 3) for b in (None, 0, 1, 2, 3)]
    for i, (P, c) in enumerate(many_cuts(tier)):
        n = sum(c)
        shape, axis = (([n], 0), ([n, 2], 0), ([2, n], 1), ([2, n, 2], 1))[i % 4]
        for j in range(1 if tier == "quick" else 4):
            f, b = widths[(11 * i + 7 * j + 6) % len(widths)]
            ok = all((f or 0) <= s for s in c[:-1]) and all((b or 0) <= s for s in c[1:])
            out.append(dict(P=P, shape=shape, axis=axis, sizes=c, front=f, back=b, **({} if ok else {"_partial": True})))
        # widths that differ between ranks, as wide as the neighbours allow
        F = [0] + [(s if (i + r) % 2 else max(0, s - 1)) for r, s in enumerate(c[:-1])]
        B = [(s if (i + r) % 3 else 0) for r, s in enumerate(c[1:])] + [1]
        out.append(dict(P=P, shape=shape, axis=axis, sizes=c, front=F, back=B if i % 2 else None))
    return out


@harness("C06", c_ghost)
def ghost(env, shape, axis, sizes, front, back):
    g = env.array("x", shape)
    x = place(env, g, "SCATTER", axis, sizes)
    sx = Snap(env, x)
    ss = sizes or splits(shape[axis], env.P)
    r = env.rank
    F = front if isinstance(front, list) else [front] * env.P
    B = back if isinstance(back, list) else [back] * env.P
    kw = {}
    if F[r] is not None:
        kw["cells_front"] = F[r]
    if B[r] is not None:
        kw["cells_back"] = B[r]
    got = x.add_ghost_cells(**kw)
    # neighbours must own the cells asked from them
    pieces = []
    nd = len(shape)
    loc = [g[sl(nd, axis, block(ss, q))] for q in range(env.P)]
    if F[r] and r > 0:
        n = ss[r - 1]
        env.true("enough cells in front", F[r] <= n)
        pieces.append(loc[r - 1][sl(nd, axis, slice(max(0, n - F[r]), n))])
    pieces.append(loc[r])
    if B[r] and r < env.P - 1:
        env.true("enough cells behind", B[r] <= ss[r + 1])
        pieces.append(loc[r + 1][sl(nd, axis, slice(0, B[r]))])
    env.eq("ghosted", got, env.np.concatenate(pieces, axis=axis))
    sx.check("the array")
    if got.size:
        got[...] = got + 1
    sx.check("the array (ghosted copy written)")


# ------------------------------------------------------------------ C07

def c_bcast(tier):
    out = []
    for P in ranks(tier):
        for shape in ([3], [2, 3], [1], [2, 1, 2]):
            for comm in (None, "split", "dup") if P > 1 else (None,):
                out.append(dict(P=P, shape=shape, dtype="complex128" if len(shape) == 1 else "float64", comm=comm))
    return out


@harness("C07", c_bcast)
def broadcast(env, shape, dtype, comm):
    pm = env.pm
    cm, rank, P, grp = comm_of(env, comm)
    root = (lambda name: env.array("%s@%d" % (name, grp if comm == "split" else 0), shape, dtype))
    mine = (lambda name: env.array("%s@%d" % (name, env.rank), shape, dtype))
    nd = len(shape)

    def mk(name):
        d = pm.DistributedArray(global_shape=tuple(shape), base_comm=cm, partition=pm.Partition.BROADCAST,
                                dtype=np.dtype(dtype))
        d[:] = mine(name)
        return d
    x, y = mk("x"), mk("y")
    gx, gy = root("x"), root("y")
    env.eq("assignment", x.local_array, gx)
    env.eq("gathered", x.asarray(), gx)
    # a partial, rank dependent update
    idx = sl(nd, nd - 1, slice(1, 2))
    x[idx] = mine("u")[idx]
    gx = gx.copy()
    gx[idx] = root("u")[idx]
    env.eq("partial assignment", x.asarray(), gx)
    x[(0,) * nd] = mine("s")[(0,) * nd]
    gx[(0,) * nd] = root("s")[(0,) * nd]
    env.eq("element assignment", x.asarray(), gx)
    for i, how in enumerate(([0, -1], [-1], slice(None, None, -1), Ellipsis, "mask", -1)):
        n0 = shape[0]
        ix = np.arange(n0) % 2 == 0 if how == "mask" else how
        x[ix] = mine("v%d" % i)[ix]
        gx[ix] = root("v%d" % i)[ix]
        env.eq("assignment to %s" % (how,), x.asarray(), gx)
    env.eq("to_dist", pm.DistributedArray.to_dist(mine("x"), base_comm=cm, partition=pm.Partition.BROADCAST)
           .local_array, root("x"))
    # results computed from operands that differ between ranks
    a, b = mk("a"), mk("b")
    ga, gb = root("a"), root("b")
    a.local_array[...] = mine("d")
    gd = root("d")
    for name, f, want in (("neg", lambda: -a, -gd), ("add", lambda: a + b, gd + gb), ("mul", lambda: a * b, gd * gb),
                          ("scale", lambda: a * 2.0, gd * 2.0), ("conj", lambda: a.conj(), gd.conj()),
                          ("copy", lambda: a.copy(), gd), ("sub", lambda: a - b, gd - gb),
                          ("zeros_like", lambda: a.zeros_like(), gd * 0), ("ravel", lambda: a.ravel(), vec(gd))):
        r = f()
        env.true(name + " is replicated", r.partition is pm.Partition.BROADCAST)
        env.eq(name, r.local_array, want)
    b += a
    env.eq("in-place", b.local_array, gb + gd)
    # factors and fill values that differ between ranks
    k = "complex" if dtype.startswith("c") else "float"
    al, al0 = env.scalar("al@%d" % env.rank, k), env.scalar("al@%d" % (grp if comm == "split" else 0), k)
    env.eq("scaled by rank", (a * al).local_array, gd * al0)
    env.eq("scaled by rank (left)", (al * b).local_array, (gb + gd) * al0)
    c = mk("c")
    gc = root("c").copy()
    c[sl(nd, nd - 1, slice(None, None, 2))] = al
    gc[sl(nd, nd - 1, slice(None, None, 2))] = al0
    env.eq("strided scalar assignment", c.local_array, gc)
    c[:] = al
    env.eq("scalar assignment", c.local_array, gc * 0 + al0)
    # reductions count every entry once, on every rank
    a, b, gb = mk("a"), mk("b"), root("b")
    env.eq("dot", a.dot(b), env.np.sum(vec(ga) * vec(gb)))
    for o in (None, 1, "inf", 0):
        env.eq("norm %s" % o, env.np.asarray(a.norm() if o is None else a.norm(_ord(o))).reshape(-1),
               env.np.asarray(ref_norm(env, ga, o)).reshape(-1))
    # the unsafe variant leaves every rank its own values
    u = pm.DistributedArray(global_shape=tuple(shape), base_comm=cm, partition=pm.Partition.UNSAFE_BROADCAST,
                            dtype=np.dtype(dtype))
    u[:] = mine("w")
    env.eq("unsafe assignment", u.local_array, mine("w"))
    env.eq("unsafe arithmetic", (u * 2.0).local_array, mine("w") * 2.0)


# ------------------------------------------------------------------ C08

def c_stack(tier):
    out = []
    for P in ranks(tier):
        A = [dict(shape=[P + 1], part="SCATTER"), dict(shape=[2 * P], part="SCATTER"),
             dict(shape=[2, P], part="SCATTER", axis=1), dict(shape=[3], part="BROADCAST"),
             dict(shape=[2], part="UNSAFE_BROADCAST")]
        if P in UNEVEN:
            n, s = UNEVEN[P][-1]
            A.append(dict(shape=[n], part="SCATTER", sizes=s))
        for sel in ([0], [0, 1], [2, 0], [3, 1], [0, 3, 2], [4, 3]) + (([5, 0], [1, 5, 3]) if len(A) > 5 else ()):
            for dt in ("float64", "complex128") if len(sel) == 2 or tier != "quick" else ("float64",):
                out.append(dict(P=P, items=[A[i] for i in sel], dtype=dt))
        # parts of different types
        for sel in ([0, 1], [3, 0], [2, 4, 1]):
            for m in range(1, 2 ** len(sel) - 1):
                out.append(dict(P=P, items=[dict(A[i], dtype=("float64", "complex128")[m >> j & 1])
                                            for j, i in enumerate(sel)], dtype="complex128"))
        if P > 1:
            for comm in ("dup", "split"):
                for sel in ([0, 1], [3, 0], [2, 4, 1]):
                    out.append(dict(P=P, items=[A[i] for i in sel], dtype="complex128", comm=comm))
        out.append(dict(P=P, items=[A[0]] * 6, dtype="float64"))
    for P in (6, 8):
        out.append(dict(P=P, items=[dict(shape=[P + 3], part="SCATTER"), dict(shape=[2, P - 1], part="SCATTER", axis=1)],
                        dtype="float64"))
    for P, c in thin(many_cuts(tier), 4):
        n = sum(c)
        out.append(dict(P=P, items=[dict(shape=[n], part="SCATTER", sizes=c),
                                    dict(shape=[2, n], part="SCATTER", axis=1, sizes=c[::-1])], dtype="float64"))
    return out


@harness("C08", c_stack)
def stacked(env, items, dtype, comm=None):
    pm = env.pm
    cm, rank, P, grp = comm_of(env, comm)
    k = "complex" if dtype.startswith("c") else "float"
    gx = [env.array("x%d.%d" % (i, grp), it["shape"], it.get("dtype", dtype)) for i, it in enumerate(items)]
    gy = [env.array("y%d.%d" % (i, grp), it["shape"], it.get("dtype", dtype)) for i, it in enumerate(items)]
    al = env.scalar("alpha", k)

    def mk(gs):
        return pm.StackedDistributedArray([place(env, g, it["part"], it.get("axis", 0), it.get("sizes"), comm=cm)
                                           for g, it in zip(gs, items)], **({} if comm is None else {"base_comm": cm}))

    def flat(gs):
        """concatenation of the flattened gathered arrays"""
        return env.np.concatenate([vec(g) for g in gs])
    x, y = mk(gx), mk(gy)
    sx = [Snap(env, d) for d in x.distarrays] + [Snap(env, d) for d in y.distarrays]
    fx, fy = flat(gx), flat(gy)
    env.eq("gathered", x.asarray(), fx)
    env.true("number of arrays", x.narrays == len(items))
    for name, f, want in (("neg", lambda: -x, -fx), ("add", lambda: x + y, fx + fy), ("sub", lambda: x - y, fx - fy),
                          ("mul", lambda: x * y, fx * fy), ("scalar right", lambda: x * al, fx * al),
                          ("scalar left", lambda: al * x, fx * al), ("conj", lambda: x.conj(), fx.conj()),
                          ("copy", lambda: x.copy(), fx), ("nested", lambda: (x + y) * x - y * al,
                                                           (fx + fy) * fx - fy * al)):
        r = f()
        env.eq(name, r.asarray(), want)
        for i, it in enumerate(items):
            env.true(name + " layout", meta(r[i]) == meta(x[i]))
            r[i].local_array[...] = r[i].local_array + 1
        for s in sx:
            s.check(name + ": operand")
    env.eq("dot", x.dot(y), env.np.sum(fx * fy))
    env.eq("conjugate dot", x.conj().dot(y), env.np.sum(fx.conj() * fy))
    for o in (None, 0, 1, 2, 3, "inf", "-inf", 0.5):
        got = x.norm() if o is None else x.norm(_ord(o))
        env.eq("norm ord=%s" % o, env.np.asarray(got).reshape(-1), env.np.asarray(ref_norm(env, fx, o)).reshape(-1))
    z = mk(gx)
    w = z
    z += y
    env.true("in place", z is w)
    env.eq("iadd", z.asarray(), fx + fy)
    z -= y
    z -= x
    env.eq("isub", z.asarray(), fx * 0)
    z[0] = y[0].local_array
    env.eq("item assignment", z[0].asarray(), gy[0])
    for s in sx:
        s.check("operand")
