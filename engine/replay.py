"""Driving a replay under real MPI from the checker."""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MPIARGS = ["--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
           "--mca", "btl_vader_single_copy_mechanism", "none"]


def mpi_replay(path, P, hang_s=12.0, start_s=120.0, mode=""):
    """-> (status, failures); status in ok / fail / hang / error"""
    work = tempfile.mkdtemp(prefix="vrep")
    out = os.path.join(work, "out")
    os.mkdir(out)
    e = dict(os.environ)
    e.update(TMPDIR=work, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMPI_MCA_mpi_yield_when_idle="1")
    e.setdefault("HOME", "/root")
    cmd = ["mpiexec"] + MPIARGS + ["-n", str(P), sys.executable, os.path.join(HERE, "engine", "replay_main.py"),
                                   os.path.abspath(path), out] + ([mode] if mode else [])
    log = open(os.path.join(work, "log"), "wb")
    try:
        p = subprocess.Popen(cmd, env=e, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True,
                             cwd=work)
    except OSError as ex:
        shutil.rmtree(work, ignore_errors=True)
        return "error", [str(ex)]
    t0 = time.time()
    started = None
    status = None
    try:
        while True:
            done = len(glob.glob(os.path.join(out, "*.json")))
            if done == P:
                status = "done"
                break
            if started is None and len(glob.glob(os.path.join(out, "*.started"))) == P:
                started = time.time()
            if p.poll() is not None:
                time.sleep(0.3)
                status = "done" if len(glob.glob(os.path.join(out, "*.json"))) == P else "died"
                break
            if started is not None and time.time() - started > hang_s:
                status = "hang"
                break
            if started is None and time.time() - t0 > start_s:
                status = "error"
                break
            time.sleep(0.05)
        fails = []
        n = 0
        for f in sorted(glob.glob(os.path.join(out, "*.json"))):
            r = json.load(open(f))
            n += r.get("nchecks", 0)
            for x in r["failures"]:
                fails.append(x if x.startswith("rank") else "rank %d: %s" % (r["rank"], x))
        if status == "hang":
            fin = [int(os.path.basename(f)[:-5]) for f in glob.glob(os.path.join(out, "*.json"))]
            return "hang", fails + ["ranks %s never finished" % sorted(set(range(P)) - set(fin))]
        if status == "done":
            return ("fail" if fails else "ok"), fails
        if status == "died" and started is not None:
            log.flush()
            tail = open(os.path.join(work, "log"), errors="replace").read()[-1500:]
            return "fail", fails + ["the MPI job died: " + tail]
        log.flush()
        tail = open(os.path.join(work, "log"), errors="replace").read()[-1500:]
        return "error", [tail]
    finally:
        try:
            os.killpg(p.pid, signal.SIGTERM)
            p.wait(3)
        except Exception:
            pass
        # mpiexec's children live in their own process groups
        _kill_children(out)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        try:
            p.wait(5)
        except Exception:
            pass
        log.close()
        shutil.rmtree(work, ignore_errors=True)


def _kill_children(out):
    """end the ranks of this replay that survived mpiexec (each wrote its pid)"""
    for f in glob.glob(os.path.join(out, "*.pid")):
        try:
            os.kill(int(open(f).read()), signal.SIGKILL)
        except (OSError, ValueError):
            pass
