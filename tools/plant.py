#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turn bug specifications into /verif/seeded/<id>/ and
validate each (build, stable tests, demo with and without, this property's check).
Needs exclusive use of /repo while it runs; always restores it."""
import json, os, subprocess, sys, time, shutil, runpy
SEED = "/verif/seeded"
SH = '''#!/bin/bash
# exit 0: the property holds on /repo; nonzero: it does not (or the run hangs)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg %(env)s
d=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
timeout -k 5 %(timeout)d mpiexec --oversubscribe %(margs)s -n %(n)d /opt/venv/bin/python -m mpi4py "$d/demo.py"
'''
PRE = '''import numpy as np
import pylops
import pylops_mpi
from mpi4py import MPI
from pylops_mpi import DistributedArray, StackedDistributedArray, Partition
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
rng = np.random.RandomState(7)


def agree(ok, what):
    """every rank must find ok"""
    ok = bool(comm.allreduce(int(bool(ok)), op=MPI.MIN))
    if rank == 0:
        print(what, "ok" if ok else "WRONG")
    if not ok:
        raise SystemExit(1)


def cut(x, sizes, **kw):
    return DistributedArray.to_dist(x, local_shapes=[(s,) for s in sizes], **kw)


'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")

def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in spec:
        if only and b["id"] not in only: continue
        d = os.path.join(SEED, b["id"])
        if not only and os.path.exists(os.path.join(d, "meta.json")): continue
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH % dict(n=b.get("n", 3), timeout=b.get("timeout", 60), env=b.get("env", ""), margs=b.get("margs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        res = {}
        try:
            for f, old, new in b["edits"]:
                p = "/repo/pylops_mpi/" + f
                s = open(p).read()
                k = b.get("count", 1)
                assert s.count(old) >= 1, (b["id"], f, "not found", old)
                if s.count(old) != 1 and not b.get("nth"):
                    raise AssertionError((b["id"], "ambiguous", s.count(old)))
                if b.get("nth"):
                    i = -1
                    for _ in range(b["nth"]): i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                else:
                    s = s.replace(old, new)
                open(p, "w").write(s)
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode == 0
            r = sh("cd /repo && bash %s/demo.sh" % d); res["demo_patched"] = r.returncode; tail = (r.stdout + r.stderr)[-300:]
            r = sh("rm -f /tmp/plant.json; timeout 300 bash /opt/vp/test.sh /tmp/plant.json; test -f /tmp/plant.json || echo '{\"passed\": []}' > /tmp/plant.json")
            t = json.load(open("/tmp/plant.json")); miss = sorted(set(base) - set(t["passed"])); res["tests_failed"] = len(miss)
            if not miss:
                t0 = time.time()
                r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py %s" % b["property"])
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                res["check"] = "caught" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
                res["check_s"] = round(time.time() - t0, 1)
        except AssertionError as e:
            print(e); shutil.rmtree(d); clean(); continue
        finally:
            clean()
        r = sh("cd /repo && bash %s/demo.sh" % d); res["demo_clean"] = r.returncode
        good = res["build"] and res["demo_patched"] != 0 and res["demo_clean"] == 0 and res["tests_failed"] == 0
        res["good"] = bool(good)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], b["property"], json.dumps(res), "" if good else (miss[:3], r.stderr[-300:], tail), flush=True)
        if not good:
            shutil.rmtree(d)
main()
