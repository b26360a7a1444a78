"""helpers shared by the harnesses (backend neutral)"""
import importlib
import itertools
from fractions import Fraction

import numpy as np

__all__ = ["itertools", "Fraction", "splits", "block", "np", "comm_of", "sl", "local_shapes", "place", "part_of",
           "unchanged", "Snap", "meta", "rank_array", "vec", "thin", "sub", "grouped"]


def splits(n, P):
    """the documented default: sizes differ by at most one, larger ones first"""
    return [n // P + (1 if r < n % P else 0) for r in range(P)]


def block(sizes, r):
    lo = sum(sizes[:r])
    return slice(lo, lo + sizes[r])


def sl(ndim, axis, s):
    o = [slice(None)] * ndim
    o[axis] = s
    return tuple(o)


def comm_of(env, kind):
    """communicator, rank in it, size, label of the group"""
    W = env.MPI.COMM_WORLD
    if kind in (None, "world"):
        return W, W.Get_rank(), env.P, 0
    if kind == "dup":
        c = W.Dup()
        return c, c.Get_rank(), c.Get_size(), 0
    color = W.Get_rank() % 2
    c = W.Split(color=color, key=W.Get_rank())
    return c, c.Get_rank(), c.Get_size(), color


def part_of(env, name):
    return getattr(env.pm.Partition, name)


def local_shapes(shape, axis, sizes):
    if sizes is None:
        return None
    out = []
    for s in sizes:
        q = list(shape)
        q[axis] = s
        out.append(tuple(q))
    return out


def place(env, g, part="SCATTER", axis=0, sizes=None, mask=None, comm=None):
    """A distributed array holding the global array g, built without the
    library's own scatter: constructor + local assignment."""
    pm = env.pm
    comm = comm or env.comm
    r, P = comm.Get_rank(), comm.Get_size()
    kw = dict(global_shape=tuple(g.shape), base_comm=comm, partition=part_of(env, part), axis=axis, dtype=g.dtype)
    if mask is not None:
        kw["mask"] = list(mask)
    if part == "SCATTER":
        if sizes is not None:
            kw["local_shapes"] = local_shapes(g.shape, axis, sizes)
        d = pm.DistributedArray(**kw)
        ss = sizes if sizes is not None else splits(g.shape[axis], P)
        loc = g[sl(g.ndim, axis, block(ss, r))]
        d.local_array[...] = loc
    else:
        d = pm.DistributedArray(**kw)
        d.local_array[...] = g
    return d


def meta(d):
    return dict(gs=tuple(int(i) for i in d.global_shape), part=d.partition, axis=d.axis,
                ls=tuple(int(i) for i in d.local_shape), mask=None if d.mask is None else list(d.mask),
                engine=d.engine)


class Snap:
    """remembers the content of a distributed array"""

    def __init__(self, env, d):
        self.env, self.d = env, d
        self.loc = d.local_array
        self.val = d.local_array.copy()
        self.meta = meta(d)

    def check(self, label):
        e = self.env
        e.eq(label + " content", self.d.local_array, self.val)
        e.true(label + " layout", meta(self.d) == self.meta)


def unchanged(env, label, *ds):
    return [Snap(env, d) for d in ds]


def rank_array(env, name, shape, dtype="float64"):
    """different symbolic content on every rank"""
    return env.array("%s@%d" % (name, env.rank), shape, dtype)


def vec(x):
    return x.reshape(-1)


def thin(seq, k, off=0):
    """every k-th element (deterministic thinning of a configuration list)"""
    return [x for i, x in enumerate(seq) if i % k == off]


def sub(name, env=None):
    m = importlib.import_module("pylops_mpi." + name)
    return Names(m, env.comm) if isinstance(env, GroupEnv) else m


# ------------------------------------------- operators on a communicator of
# their own: the processes form groups which all do the same at the same time,
# each with its own data, or some processes do nothing at all

GROUPS = ("alt", "halves", "rest", "rev")


def grouped(cfgs, count, maxp=6):
    """about `count` of the configurations, run by groups of processes"""
    cfgs = [c for c in cfgs if c["P"] <= 3]
    out = []
    step = max(1, len(cfgs) // count) if count else 1
    while step > 1 and any(step % q == 0 for q in (2, 3, 5)):
        step -= 1
    for i, c in enumerate(cfgs[::step]):
        for k in range(len(GROUPS)):
            g = GROUPS[(i + k) % len(GROUPS)]
            n = {"alt": 2 * c["P"], "halves": 2 * c["P"], "rest": c["P"] + 1, "rev": c["P"]}[g]
            if n <= maxp and n > 1:
                out.append(dict(c, P=n, grp=g))
                break
    return out


class Made:
    """a class of the library whose objects get the group's communicator"""

    def __init__(self, cls, comm):
        self._cls, self._comm = cls, comm

    def __call__(self, *a, **kw):
        kw.setdefault("base_comm", self._comm)
        return self._cls(*a, **kw)

    def __instancecheck__(self, x):
        return isinstance(x, self._cls)

    def __getattr__(self, k):
        return getattr(self._cls, k)


class Names:
    """pylops_mpi (or one of its modules) as seen by a group"""

    def __init__(self, mod, comm):
        self._mod, self._comm = mod, comm

    def __getattr__(self, k):
        v = getattr(self._mod, k)
        if k == "asmpilinearoperator":
            return lambda Op: self.MPILinearOperator(Op, base_comm=self._comm)
        if k in ("MPIMDC", "StackedDistributedArray", "DistributedArray") or \
                k.startswith("MPI") and isinstance(v, type) and k != "MPI":
            return Made(v, self._comm)
        return v


class GroupEnv:
    def __init__(self, env, comm, color):
        self._env, self.comm, self._color = env, comm, color
        self.P, self.rank = comm.Get_size(), comm.Get_rank()
        self.pm = Names(env.pm, comm)

    def __getattr__(self, k):
        return getattr(self._env, k)

    def _own(self, name):
        return name if self._color == 0 else "%s~%d" % (name, self._color)

    def array(self, name, *a, **kw):
        return self._env.array(self._own(name), *a, **kw)

    def scalar(self, name, *a, **kw):
        return self._env.scalar(self._own(name), *a, **kw)

    def integer(self, name):
        return self._env.integer(self._own(name))

    def mat(self, name, *a, **kw):
        return self._env.mat(self._own(name), *a, **kw)

    def shared(self, key, fn):
        return self._env.shared((key, self._color), fn)


def group_env(env, kind):
    W = env.MPI.COMM_WORLD
    r, n = W.Get_rank(), W.Get_size()
    color = {"alt": r % 2, "halves": int(2 * r >= n), "rest": int(r == n - 1), "rev": 0}[kind]
    c = W.Split(color=color, key=-r if kind == "rev" else r)
    if kind == "rest" and color:
        return None
    return GroupEnv(env, c, color)
