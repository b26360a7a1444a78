"""Replay of one concrete counterexample on the real code: real numpy, real
mpi4py.  Run as   mpiexec -n P python engine/replay_main.py FILE OUTDIR [ssend]
Each rank writes OUTDIR/<rank>.json."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    spec = json.load(open(sys.argv[1]))
    outdir = sys.argv[2]
    mode = sys.argv[3] if len(sys.argv) > 3 else ""
    sys.path.insert(0, HERE)
    from engine import target, env as envmod
    target._env()
    target._fresh_code()
    from mpi4py import MPI
    rank = MPI.COMM_WORLD.Get_rank()
    with open(os.path.join(outdir, "%d.pid" % rank), "w") as f:
        f.write(str(os.getpid()))
    size = MPI.COMM_WORLD.Get_size()
    if mode == "ssend":
        class SComm(MPI.Intracomm):
            def send(self, obj, dest, tag=0):
                return MPI.Intracomm.ssend(self, obj, dest, tag)
        MPI.COMM_WORLD = SComm(MPI.COMM_WORLD)
    elif mode.startswith("slow"):       # messages of one rank arrive late
        class DComm(MPI.Intracomm):
            def send(self, obj, dest, tag=0):
                if rank == int(mode[4:]):
                    time.sleep(0.3)
                return MPI.Intracomm.send(self, obj, dest, tag)

            def isend(self, obj, dest, tag=0):
                if rank == int(mode[4:]):
                    time.sleep(0.3)
                return MPI.Intracomm.isend(self, obj, dest, tag)
        MPI.COMM_WORLD = DComm(MPI.COMM_WORLD)
    import numpy as np
    import pylops
    import importlib
    pm = importlib.import_module("pylops_mpi")
    assert os.path.realpath(pm.__file__).startswith(os.path.realpath(target.REPO) + os.sep)
    # uninitialised memory is arbitrary: fill it with garbage
    import types

    class NP(types.ModuleType):
        def __getattr__(self, n):
            if n == "empty":
                return garbage
            return getattr(np, n)
    garbage = _garbage(np)
    proxy = NP("numpy")
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name.startswith("pylops_mpi") or name == "pylops.utils.backend"):
            for k, v in list(vars(mod).items()):
                if v is np:
                    setattr(mod, k, proxy)
    import harness
    h = harness.get(spec["harness"])
    cfg = dict(spec["cfg"])
    P = cfg.pop("P")
    cfg = {k: v for k, v in cfg.items() if k[0] != "_"}
    assert P == size, (P, size)
    open(os.path.join(outdir, "%d.started" % rank), "w").close()
    e = envmod.ConEnv(pm, pylops, P, spec.get("inputs") or {}, MPI, spec.get("seed", 1))
    res = {"rank": rank}
    try:
        h.run(e, **cfg)
        res["failures"] = e.failures
    except BaseException as ex:
        res["failures"] = e.failures + ["rank %d raised %s: %s" % (rank, type(ex).__name__, str(ex)[:500])]
        res["trace"] = traceback.format_exc()[-2000:]
    res["nchecks"] = e.nchecks
    tmp = os.path.join(outdir, "%d.tmp" % rank)
    json.dump(res, open(tmp, "w"))
    os.rename(tmp, os.path.join(outdir, "%d.json" % rank))
    # leave together (nobody may be stuck in MPI by now)
    t = time.time()
    while time.time() - t < 60:
        if all(os.path.exists(os.path.join(outdir, "%d.json" % r)) for r in range(size)):
            break
        time.sleep(0.02)
    time.sleep(0.05)
    sys.stdout.flush()
    os._exit(0)


def _garbage(np):
    def empty(shape, dtype=float, order="C", **k):
        r = np.empty(shape, dtype=dtype, order=order)
        if r.dtype.kind in "fc":
            r[...] = 7.0e5 + 3.0 * np.arange(r.size).reshape(r.shape)
        elif r.dtype.kind in "iu":
            r[...] = 77
        return r
    return empty


main()
