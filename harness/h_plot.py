"""C26: what the plotting helpers are given to draw."""
from . import harness
from .util import *
from .h_ops import sub


class Any:
    """stands for every matplotlib object: notes what it is asked to draw"""

    def __init__(self, log, rank, tag, name=None):
        self.__dict__.update(_log=log, _rank=rank, _tag=tag, _name=name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any(self._log, self._rank, self._tag, name)

    def __call__(self, *a, **k):
        self._log.append((self._rank(), self._tag, self._name, a, k))
        if self._name == "subplots":
            nr, nc = k.get("nrows", a[0] if a else 1), k.get("ncols", a[1] if len(a) > 1 else 1)
            ax = [Any(self._log, self._rank, ("ax", i)) for i in range(nr * nc)]
            if nr * nc == 1 and k.get("squeeze", True):
                return Any(self._log, self._rank, "fig"), ax[0]
            box = np.empty(len(ax), dtype=object)
            box[:] = ax
            return Any(self._log, self._rank, "fig"), box if 1 in (nr, nc) and k.get("squeeze", True) else box.reshape(nr, nc)
        return Any(self._log, self._rank, "x")

    def __getitem__(self, i):
        return Any(self._log, self._rank, self._tag, "%s[%s]" % (self._name, i))

    def __iter__(self):
        return iter([Any(self._log, self._rank, "x"), Any(self._log, self._rank, "x")])


LOG = []
PLT = [None, 0]


class Plt:
    """replace pyplot in the module under test while any rank is inside"""

    def __init__(self, env):
        self.env, self.mod = env, sub("plotting.plotting")

    def __enter__(self):
        env = self.env
        if PLT[1] == 0:
            # under whatever name the module knows it
            PLT[0] = {k: v for k, v in vars(self.mod).items() if getattr(v, "__name__", "") == "matplotlib.pyplot"}
            del LOG[:]
        PLT[1] += 1
        for k in PLT[0]:
            setattr(self.mod, k, Any(LOG, lambda: env.rank, "plt"))
        return self.mod

    def __exit__(self, *a):
        PLT[1] -= 1
        if PLT[1] == 0:
            for k, v in PLT[0].items():
                setattr(self.mod, k, v)


def c_plot(tier):
    out = []
    for P in range(1, 5 if tier == "quick" else 7):
        for shape in ([2 * P + 1, 3], [3, P + 2], [P, 2]):
            for axis in (0, 1):
                n = shape[axis]
                lays = [None]
                if n >= P and P > 1:
                    lays.append([n - P + 1] + [1] * (P - 1))
                    lays.append([1] * (P - 1) + [n - P + 1])
                    if n > P:
                        lays.append([0] + [n - P + 2] + [1] * (P - 2))
                for s in lays:
                    for which in ("owners", "locals"):
                        for comm in (None, "dup"):
                            out.append(dict(P=P, shape=shape, axis=axis, sizes=s, which=which, comm=comm))
        for bad in ("type", "broadcast"):
            out.append(dict(P=P, shape=[2, 2], axis=0, sizes=None, which=bad))
    return out


@harness("C26", c_plot)
def drawn(env, shape, axis, sizes, which, comm=None):
    W, r, P, _ = comm_of(env, comm)
    g = env.array("g", shape)
    if which in ("type", "broadcast"):
        mod = sub("plotting.plotting")
        x = g if which == "type" else place(env, g, "BROADCAST")
        env.raises(which, (TypeError, NotImplementedError), lambda: mod.plot_distributed_array(x))
        return
    x = place(env, g, "SCATTER", axis, sizes, comm=W)
    s = Snap(env, x)
    ss = sizes if sizes is not None else splits(shape[axis], P)
    with Plt(env) as mod:
        if which == "owners":
            mod.plot_distributed_array(x)
        else:
            mod.plot_local_arrays(x, "title", vmin=-1, vmax=1)
        mine = [q for q in LOG if q[0] == env.rank]
    shown = [(q[1], q[3][0], q[4]) for q in mine if q[2] in ("matshow", "imshow", "pcolormesh", "pcolor")]
    s.check("the array")
    if r != 0:
        env.true("only the first rank draws", not mine)
        return
    if which == "owners":
        env.true("two pictures", len(shown) == 2)
        env.eq("the gathered array", shown[0][1], g)
        own = np.zeros(shape)
        for q in range(P):
            own[sl(2, axis, block(ss, q))] = q
        env.eq("owner of every element", shown[1][1], own)
    else:
        env.true("one picture per rank", [q[0] for q in shown] == [("ax", i) for i in range(P)])
        for q in range(P):
            env.eq("local array of rank %d" % q, shown[q][1], g[sl(2, axis, block(ss, q))])
            env.true("same colour range", (shown[q][2].get("vmin"), shown[q][2].get("vmax")) == (-1, 1))
