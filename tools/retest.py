#!/usr/bin/env python3
"""Run the check of each planted bug against a scratch clone of /repo with the
bug applied; prints which are caught.  usage: retest.py [ID-PREFIX ...]"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
sel = sys.argv[1:]


def one(b):
    meta = json.load(open(os.path.join(SEED, b, "meta.json")))
    d = tempfile.mkdtemp(prefix="rt_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "-C", d + "/r", "apply", os.path.join(SEED, b, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return b, "does not apply", 0
        t = time.time()
        # the checks write evidence: run them from a copy
        shutil.copytree(HERE, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        r = subprocess.run(["/opt/venv/bin/python", "check.py", meta["property"], "--jobs", "4"], cwd=d + "/v",
                           env=dict(os.environ, VERIF_REPO=d + "/r"), capture_output=True, text=True)
        hit = r.returncode == 1 and ("VIOLATION property=%s " % meta["property"]) in r.stdout
        return b, ("caught" if hit else "MISSED rc=%d %s" % (r.returncode, r.stdout[-250:])), round(time.time() - t)
    finally:
        shutil.rmtree(d)


bugs = sorted(b for b in os.listdir(SEED) if not sel or any(b.startswith(s) for s in sel))
with ThreadPoolExecutor(2) as ex:
    for b, res, t in ex.map(one, bugs):
        print(b, res, "%ss" % t, flush=True)
