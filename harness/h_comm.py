"""C22: every collective operation of the library ends on every rank, under
every schedule and buffering.  The scenarios of the other properties are run
for their communication only: what is computed is not looked at, but every
path is checked for collectives that do not match, ranks left waiting, and
(engine/sched.py) for schedules that deadlock."""
import hashlib
import json

from . import harness, load_all, REG
from .util import *

# scenario -> how many of its configurations are taken
SCENES = {
    "h_array.roundtrip": 30, "h_array.assemble": 12, "h_array.arithmetic": 8, "h_array.inplace": 4, "h_array.dot": 24,
    "h_array.norm_flat": 30, "h_array.norm_axis": 20, "h_array.masked": 30, "h_array.ravel": 16, "h_array.ghost": 60,
    "h_array.broadcast": 24, "h_array.stacked": 16,
    "h_ops.algebra": 30, "h_ops.stacked_algebra": 30, "h_ops.blocks": 30, "h_ops.adjoint": 24,
    "h_deriv.first": 24, "h_deriv.second": 20, "h_deriv.multi": 24,
    "h_redist.moved": 48, "h_redist.chained": 20, "h_redist.gradient": 12,
    "h_integral.fredholm": 20, "h_integral.mdc": 8,
    "h_solver.cg": 20, "h_solver.cgls": 20, "h_solver.dottest": 16,
}


def spread(cs, n):
    """n of the configurations, the same ones every time, from all over the list"""
    return sorted(cs, key=lambda c: hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest())[:n]


def c_comm(tier):
    load_all()
    out = []
    for name, n in SCENES.items():
        cs = [c for c in REG[name].configs(tier) if c["P"] > 1 and not c.get("_partial")]
        if name in ("h_solver.cg", "h_solver.cgls"):
            cs = [c for c in cs if c["dtype"] == "float64" and c["niter"] <= 2]
        if name == "h_solver.dottest":
            cs = [c for c in cs if c["fwd"] == c["adj"]]
        q = 2 if tier == "quick" else 8
        chosen = spread([c for c in cs if "grp" not in c], n * q) + spread([c for c in cs if "grp" in c], n * q // 4)
        for i, c in enumerate(chosen):
            out.append({"P": c["P"], "scene": name, "cfg": {x: v for x, v in c.items() if x != "P" and x[0] != "_"},
                        "_sched": True, "_start": i % c["P"]})
    return out


class Mute:
    """the environment without its comparisons"""

    def __init__(self, env):
        self.__dict__["_e"] = env

    def __getattr__(self, n):
        return getattr(self._e, n)

    def eq(self, *a, **k):
        pass

    def true(self, *a, **k):
        pass


@harness("C22", c_comm, budget=60)
def collective(env, scene, cfg):
    REG[scene].run(Mute(env), **cfg)
    env.true("this rank got through", True)
