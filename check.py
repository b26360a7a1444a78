#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--jobs N]

Exit 0: the property held on everything explored.  Exit 1 with a line
VIOLATION property=<id> replay=<path>: a counterexample found by the solver
was reproduced on the real code.  Exit 2: nothing could be decided."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True

PM = None


def worker(conn, pm, pylops, tier):
    import threading
    from engine import runner, sym, target
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import harness
    while True:
        try:
            t = conn.recv()
        except EOFError:
            return
        if t is None:
            return
        hname, cfg = t
        h = harness.REG[hname]
        sym.STATS.__init__()
        target.COVER.clear()
        try:
            sys.monitoring.restart_events()
        except Exception:
            pass
        res = {"harness": hname, "cfg": cfg}
        try:
            mult = 4.0 if tier == "thorough" else 1.0
            v = runner.run_config(h, cfg, pm, pylops, budget_s=h.budget * mult, max_paths=int(h.max_paths * mult),
                                  query_ms=int(h.query_ms * mult))
            res.update(paths=v.paths, checks=v.checks, queries=sym.STATS.queries, verdict_queries=v.queries,
                       nontrivial=v.nontrivial, solver_s=sym.STATS.solver_s, unknown=sym.STATS.unknown,
                       cands=v.cands, incon=v.incon, decisions=v.decisions, mpi_events=v.collectives,
                       used=sorted(v.used), assumptions=sorted(v.assumptions), sample=v.sample,
                       exhausted=v.exhausted, feasible=v.feasible_paths, wall=v.wall)
        except MemoryError:
            res.update(incon=["out of memory"], cands=[{"label": "resources", "detail": "memory", "inputs": {},
                                                        "weak": True}])
        except BaseException as e:
            res.update(incon=["engine error: %s: %s" % (type(e).__name__, e)],
                       error=traceback.format_exc()[-1500:],
                       cands=[{"label": "engine", "detail": str(e), "inputs": {}, "weak": True}])
        sym.set_ctx(None)
        # concrete run of the same configuration: validates the encoding when
        # it agrees, and pre-screens candidate counterexamples
        val = []
        conc = 0
        try:
            cands = res.get("cands") or []
            tries = []
            for c in cands:
                tries.append((c, c.get("inputs") or {}, 1))
                if c.get("alt"):
                    tries.append((c, c["alt"], 1))
                tries.append((c, {}, 2))
            if not tries:
                tries = [(None, {}, 1)]
                if res.get("sample") is not None:
                    tries.append((None, res["sample"], 3))
            for c, inp, seed in tries:
                fails, e, w = runner.run_concrete(h, cfg, inp, pm, pylops, seed)
                conc += 1
                if c is None:
                    if fails:
                        val.append({"label": "concrete", "detail": fails[0], "inputs": inp, "seed": seed,
                                    "conc": fails[:3]})
                    else:
                        res["validated"] = res.get("validated", 0) + 1
                elif fails and "conc" not in c:
                    c["conc"] = fails[:3]
                    c["inputs"], c["seed"] = inp, seed
                if e.nchecks == 0 and not fails:
                    res["vacuous"] = True
        except BaseException as e:
            res["conc_error"] = "%s: %s" % (type(e).__name__, e)
        res["concrete_runs"] = conc
        res["disagree"] = val
        res["cover"] = sorted(target.COVER)
        conn.send(res)


class Pool:
    def __init__(self, n, pm, pylops, tier, hard):
        self.args = (pm, pylops, tier)
        self.ctx = mp.get_context("fork")
        self.n = n
        self.hard = hard

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "task": None, "t": 0}

    def run(self, tasks, on_result, stop):
        from multiprocessing.connection import wait
        todo = list(tasks)[::-1]
        ws = [self.spawn() for _ in range(min(self.n, max(1, len(todo))))]
        while todo or any(w["task"] for w in ws):
            for i, w in enumerate(ws):
                if w["task"] is None and todo and not stop():
                    t = todo.pop()
                    w["task"], w["t"] = t, time.time()
                    try:
                        w["c"].send((t[0], t[1]))
                    except OSError:
                        ws[i] = self.spawn()
                        todo.append(t)
            if stop():
                break
            busy = [w for w in ws if w["task"]]
            if not busy:
                break
            ready = wait([w["c"] for w in busy], timeout=1.0)
            for i, w in enumerate(ws):
                if w["task"] is None:
                    continue
                if w["c"] in ready:
                    try:
                        r = w["c"].recv()
                    except (EOFError, OSError):
                        r = dead(w["task"], "worker died (memory or crash)")
                        w["p"].kill()
                        ws[i] = self.spawn()
                        on_result(r)
                        continue
                    on_result(r)
                    w["task"] = None
                elif time.time() - w["t"] > self.hard(w["task"]):
                    r = dead(w["task"], "configuration exceeded its hard time limit")
                    w["p"].kill()
                    ws[i] = self.spawn()
                    on_result(r)
        for w in ws:
            w["p"].kill()


def dead(task, why):
    return {"harness": task[0], "cfg": task[1], "incon": [why],
            "cands": [{"label": "resources", "detail": why, "inputs": {}, "weak": True, "hard": True}]}


def load_known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status") == "known"]


def matches(k, hname, cfg, text):
    if k["harness"] != hname:
        return False
    for a, b in (k.get("cfg") or {}).items():
        if cfg.get(a) != b:
            return False
    return re.search(k.get("pattern", ""), text) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-mpi", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.selftest:
        import z3
        import harness
        harness.load_all()
        x = z3.Int("x")
        s = z3.Solver()
        s.add(x * x == 2)
        ok = s.check() == z3.unsat and harness.REG
        for d in ("evidence", os.path.join("evidence", "replays")):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        print("z3 %s, %d harnesses" % (z3.get_version_string(), len(harness.REG)))
        return 0 if ok else 1
    if not a.prop:
        ap.error("which property?")
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = a.budget or (540.0 if tier == "quick" else 6 * 3600.0)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)

    from engine import target
    try:
        pm, pylops = target.load_symbolic()
    except Exception as e:
        print("cannot load the code under test: %s: %s" % (type(e).__name__, e))
        traceback.print_exc()
        return 2
    import engine.runner  # noqa: F401  (z3 before forking)
    import harness
    hs = harness.for_prop(a.prop)
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    if not hs:
        print("no harness for", a.prop)
        return 2
    tasks = []
    for h in hs:
        for c in h.configs(tier):
            tasks.append((h.name, c))
    results = []
    violations = []
    known = load_known(a.prop)
    known_hit = {}
    tried = [0]
    unrep = []
    suspects = []

    def confirm(hname, cfg, c):
        """replay under real MPI; True when it reproduces"""
        spec = {"property": a.prop, "harness": hname, "cfg": cfg, "inputs": c.get("inputs") or {},
                "seed": c.get("seed", 1), "label": c["label"], "detail": c["detail"],
                "how": "mpiexec -n %d /opt/venv/bin/python engine/replay_main.py THIS_FILE OUTDIR (or: "
                       "python check.py %s)" % (cfg["P"], a.prop)}
        txt = json.dumps(spec, sort_keys=True, indent=1)
        name = "%s-%s.json" % (a.prop, hashlib.sha1(txt.encode()).hexdigest()[:10])
        path = os.path.join(ev, "replays", name)
        with open(path, "w") as f:
            f.write(txt)
        if a.no_mpi:
            return ("fail", c.get("conc"), path) if c.get("conc") else ("ok", [], path)
        from engine import replay
        st, fails = replay.mpi_replay(path, cfg["P"])
        mode = None
        if st == "ok" and a.prop in SSEND_PROPS:
            for mode in ["ssend"] + ["slow%d" % r for r in range(cfg["P"])]:
                st, fails = replay.mpi_replay(path, cfg["P"], mode=mode)
                if st != "ok":
                    break
        if st == "hang" and mode is None:
            # make sure it is a hang and not a slow machine
            st2, fails2 = replay.mpi_replay(path, cfg["P"], hang_s=40.0)
            if st2 == "ok":
                st = "ok"
            else:
                st, fails = st2, fails2
        if cfg.get("_partial") and any(re.match(r"rank \d+ raised", x) for x in fails):
            st = "ok"
        return st, fails, path

    def handle(r):
        """candidates of one result -> confirmed violations"""
        for c in (r.get("cands") or []) + (r.get("disagree") or []):
            if violations and not a.v:
                return
            text = "%s | %s | %s" % (c["label"], c["detail"], " ".join(c.get("conc") or []))
            k = next((k for k in known if matches(k, r["harness"], r["cfg"], text)), None)
            if k is not None:
                # a listed finding: still there?
                known_hit.setdefault(k["id"], []).append((r["harness"], r["cfg"], text))
                continue
            if c.get("weak") and not c.get("conc") and not c.get("hard"):
                continue
            if not c.get("conc") and tried[0] >= 6:
                unrep.append({"harness": r["harness"], "cfg": r["cfg"], "label": c["label"], "detail": c["detail"],
                              "status": "not replayed"})
                continue
            tried[0] += 1
            if tried[0] > 40:
                continue
            st, fails, path = confirm(r["harness"], r["cfg"], c)
            if st in ("fail", "hang"):
                violations.append({"harness": r["harness"], "cfg": r["cfg"], "label": c["label"],
                                   "detail": c["detail"], "observed": fails[:3], "replay": path})
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
                print("   %s %s: %s" % (r["harness"], json.dumps(r["cfg"]), c["label"]))
                for x in fails[:3]:
                    print("   " + x[:400])
                sys.stdout.flush()
                return
            unrep.append({"harness": r["harness"], "cfg": r["cfg"], "label": c["label"], "detail": c["detail"],
                          "status": st, "conc": c.get("conc")})

    def on_result(r):
        results.append(r)
        if a.v:
            print("%-34s %s paths=%s checks=%s q=%s (%s) solver=%.2fs wall=%.2fs%s%s" % (
                r["harness"], json.dumps(r["cfg"]), r.get("paths"), r.get("checks"), r.get("queries"),
                r.get("nontrivial"), r.get("solver_s", 0), r.get("wall", 0),
                " INCON %s" % r["incon"][:2] if r.get("incon") else "",
                " CANDS %s" % [(c["label"], c["detail"][:200], c.get("conc")) for c in r["cands"]]
                if r.get("cands") else ""), flush=True)
            if r.get("error"):
                print(r["error"])
            if r.get("conc_error"):
                print("  conc_error", r["conc_error"])
            if r.get("disagree"):
                print("  DISAGREE", r["disagree"])
        if r.get("cands") or r.get("disagree"):
            suspects.append(r)
            if any(c.get("conc") for c in (r.get("cands") or []) + (r.get("disagree") or [])):
                handle(r)
                suspects.remove(r)

    def stop():
        return (bool(violations) and not a.v) or time.time() - t0 > total

    def hard(task):
        h = harness.REG[task[0]]
        return h.budget * (4.0 if tier == "thorough" else 1.0) * 1.5 + 30

    Pool(a.jobs, pm, pylops, tier, hard).run(tasks, on_result, stop)
    for r in suspects:
        if violations:
            break
        handle(r)
    for k in known:
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    decided = [r for r in results if not r.get("incon") and r.get("paths")]
    evidence(a.prop, tier, seed, hs, tasks, results, decided, violations, unrep, known_hit, time.time() - t0)
    nin = len([r for r in results if r.get("incon")])
    print("%s: %d/%d configurations decided (%d inconclusive, %d not run), %d paths, %d solver queries "
          "(%.1fs in the solver), %.1fs" % (
              a.prop, len(decided), len(tasks), nin, len(tasks) - len(results),
              sum(r.get("paths") or 0 for r in results), sum(r.get("queries") or 0 for r in results),
              sum(r.get("solver_s") or 0 for r in results), time.time() - t0))
    for u in unrep[:5]:
        print("not reproduced on the real code (no alarm): %s %s %s: %s" % (
            u["harness"], json.dumps(u["cfg"]), u["label"], str(u["detail"])[:200]))
    if violations:
        return 1
    if not decided:
        print("nothing could be decided")
        return 2
    return 0


SSEND_PROPS = {"C22"}


def evidence(prop, tier, seed, hs, tasks, results, decided, violations, unrep, known_hit, wall):
    S = lambda k: sum(r.get(k) or 0 for r in results)
    cover = sorted({f for r in results for f in r.get("cover") or []})
    samples = []
    for h in hs:
        for r in results:
            if r["harness"] == h.name and r.get("paths"):
                samples.append({"harness": h.name, "cfg": r["cfg"], "paths": r["paths"],
                                "assertions": r["checks"], "solver_s": round(r.get("solver_s", 0), 4),
                                "model_of_one_path": r.get("sample")})
                break
    bounds = {}
    for h in hs:
        cs = [t[1] for t in tasks if t[0] == h.name]
        keys = sorted({k for c in cs for k in c})
        bounds[h.name] = {k: sorted({json.dumps(c.get(k)) for c in cs if k in c})[:60] for k in keys}
    cov = {
        "states": S("paths"),
        "transitions": S("decisions") + S("mpi_events"),
        "traces_validated_against_impl": S("validated"),
        "samples": samples[:12],
        "explanation": "states: complete symbolic paths (all ranks); transitions: symbolic branch decisions plus "
                       "MPI calls executed on them; every path ends in a solver query over all input values.",
        "functions_encoded": cover,
        "numpy_semantics_used": sorted({f for r in results for f in r.get("used") or []}),
        "configurations": len(tasks), "configurations_run": len(results), "configurations_decided": len(decided),
        "inconclusive": [{"harness": r["harness"], "cfg": r["cfg"], "why": r["incon"][:2]}
                         for r in results if r.get("incon")][:40],
        "partially_explored": len([r for r in results if r.get("paths") and not r.get("exhausted", True)]),
        "assertions": S("checks"), "solver_queries": S("queries"), "verdict_queries": S("verdict_queries"),
        "verdict_queries_not_settled_by_rewriting": S("nontrivial"),
        "solver_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 3),
        "paths_with_feasibility_witness": S("feasible"),
        "concrete_runs": S("concrete_runs"),
        "vacuous": len([r for r in results if r.get("vacuous")]),
        "bounds": bounds,
        "side_assumptions": sorted({x for r in results for x in r.get("assumptions") or []}),
        "unreproduced_counterexamples": unrep[:10],
        "known_findings_seen": {k: len(v) for k, v in known_hit.items()},
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": ["real arithmetic instead of IEEE rounding (comparison up to exact rational equality)",
                           "simulated MPI: standard-conforming collectives, sends buffered (C22: synchronous, and any buffering in the schedule queries)",
                           "numpy/pylops structure operations are executed by numpy itself on object arrays"],
           "wall_s": round(wall, 2), "violations": len(violations)}
    d = os.path.join(HERE, "evidence")
    tmp = os.path.join(d, prop + ".tmp")
    json.dump(doc, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
