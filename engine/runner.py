"""Symbolic execution of one harness configuration, and its verdict."""
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import poly, sched, sym, symarr, simmpi, target, env as envmod
from .poly import Unsupported
from .sym import Context, Z3Env, timed_check, STATS

DEADLINE = [None]


class TimeUp(Unsupported):
    pass


def _install_deadline():
    orig = poly.Poly.__mul__

    def mul(self, o):
        if DEADLINE[0] is not None and len(self.t) * len(o.t) > 400 and time.time() > DEADLINE[0]:
            raise TimeUp("time budget of this configuration exhausted")
        return orig(self, o)
    poly.Poly.__mul__ = mul
    ow = simmpi.World.wait

    def wait(self, r, cond, what):
        if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise TimeUp("time budget of this configuration exhausted")
        return ow(self, r, cond, what)
    simmpi.World.wait = wait


_install_deadline()


class Run:
    def __init__(self):
        self.records = []
        self.facts = []
        self.cache = {}


def _elements(x):
    a = symarr.lift(x)
    return a.shape, a.view(np.ndarray).reshape(-1)


def _split(v):
    if isinstance(v, sym.SymBool):
        t = v.truth()
        return sym.as_val(int(t), tag=False)
    return v


def tolerated(cfg, excs):
    """configurations marked _partial may be refused by an error on some rank
    (an MPI job ends with it), but must not compute anything wrong"""
    return bool(cfg.get("_partial")) and any(isinstance(x, REFUSALS) for x in excs)


REFUSALS = (ValueError, TypeError, NotImplementedError, IndexError, KeyError, AttributeError, AssertionError)


def _model_inputs(model, env, simplify=True):
    out = {}
    for i, v in env.vars.items():
        a = poly.ATOMS[i]
        if a.kind != "var" or a.name.startswith("uninit"):
            continue
        val = model.eval(v, model_completion=True)
        f = z3_to_float(val)
        if f is not None:
            out[a.name] = f
    return out


def z3_to_float(val):
    try:
        if z3.is_rational_value(val):
            return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
        if z3.is_algebraic_value(val):
            w = val.approx(12)
            return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
        if z3.is_int_value(val):
            return float(val.as_long())
        s = z3.simplify(val)
        if z3.is_rational_value(s):
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    except Exception:
        pass
    return None


def _solver(timeout_ms):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


def _load(s, exprs, env):
    for e in exprs:
        s.add(e)
    i = 0
    while i < len(env.cons):
        s.add(env.cons[i])
        i += 1


class Verdict:
    """accumulates the result of one configuration"""

    def __init__(self):
        self.paths = 0
        self.checks = 0
        self.nontrivial = 0
        self.queries = 0
        self.cands = []       # candidate violations {label, inputs, detail}
        self.incon = []       # reasons
        self.switches = 0
        self.decisions = 0
        self.collectives = 0
        self.used = set()
        self.assumptions = set()
        self.sample = None
        self.exhausted = True
        self.feasible_paths = 0
        self.loud = 0
        self.schedules = 0


def run_config(h, cfg, pm, pylops, budget_s=60.0, max_paths=64, query_ms=10000):
    v = Verdict()
    t0 = time.time()
    DEADLINE[0] = t0 + budget_s
    prefixes = [[]]
    P = cfg["P"]
    try:
        while prefixes:
            if v.paths >= max_paths or time.time() > DEADLINE[0]:
                v.exhausted = False
                break
            pre = prefixes.pop()
            poly.reset()
            sym.reset_inputs()
            ctx = Context(pre)
            sym.set_ctx(ctx)
            run = Run()
            e = envmod.SymEnv(pm, pylops, P, run)
            w = simmpi.World(P, start=cfg.get("_start", 0), eager=not cfg.get("_sched"))
            nch = [0]

            def choose():
                nch[0] += 1
                return bool(e.scalar("__match%d" % nch[0]) > 0)
            w.choose = choose

            def body(r):
                return h.run(e, **{k: x for k, x in cfg.items() if k != "P" and k[0] != "_"})
            outcomes = w.run(body)
            # all fork outcomes not yet explored
            for i in range(len(pre), len(ctx.taken)):
                out, forced = ctx.taken[i]
                if not forced:
                    prefixes.append(ctx.taken[:i] + [(not out, False)])
            v.decisions += len(ctx.taken)
            v.switches += w.nswitch
            v.collectives += sum(len(t) for t in w.trace)
            v.used |= ctx.used
            v.assumptions.update(ctx.assumptions)
            if any(o[0] == "exc" and isinstance(o[1], sym.Infeasible) for o in outcomes):
                continue
            v.paths += 1
            unsup = [o[1] for o in outcomes if o[0] == "exc" and isinstance(o[1], Unsupported)]
            if unsup:
                v.incon.append("unsupported: %s" % unsup[0])
                continue
            bad = []
            for r, o in enumerate(outcomes):
                if o[0] == "exc":
                    tb = traceback.extract_tb(o[1].__traceback__)
                    where = "%s:%d" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else "?"
                    # an exception inside the engine is a limitation, unless it reproduces concretely
                    bad.append("rank %d raised %s: %s (%s)" % (r, type(o[1]).__name__, str(o[1])[:200], where))
                elif o[0] == "hang":
                    bad.append("rank %d blocked forever in %s" % (r, o[1]))
                elif o[0] == "mismatch":
                    bad.append("collective mismatch: %s" % o[1])
            if bad and tolerated(cfg, [o[1] for o in outcomes if o[0] == "exc"]):
                v.checks += 1
                v.loud += 1
                run.records, run.facts = [], [(0, "reported by an error", True, "")]
                bad = []
            if bad:
                v.cands.append({"label": "execution", "detail": "; ".join(bad[:4]),
                                "inputs": path_model(ctx, query_ms)})
                continue
            if cfg.get("_sched"):
                left = [m["id"] for q in w.mail.values() for m in q]
                v.queries += 1
                st, txt = sched.decide(w.ev, timed_check) if not left else ("sat", "messages %s are never received" % left)
                v.checks += 1
                v.schedules += 1
                if st == "sat":
                    v.cands.append({"label": "schedule", "detail": txt, "inputs": path_model(ctx, query_ms)})
                    continue
                if st == "unknown":
                    v.incon.append("solver: unknown for the schedules")
            try:
                decide_path(v, ctx, run, query_ms)
            except Unsupported as ex:
                v.incon.append("unsupported in verdict: %s" % ex)
            except sym.Infeasible:
                v.paths -= 1
            if len(v.cands) >= 3:
                v.exhausted = False
                break
    finally:
        DEADLINE[0] = None
        sym.set_ctx(None)
    v.wall = time.time() - t0
    return v


def path_model(ctx, ms=3000):
    env = Z3Env()
    s = _solver(ms)
    conds = ctx.z3_conds(env)
    _load(s, conds, env)
    if timed_check(s) == z3.sat:
        return _model_inputs(s.model(), env)
    return {}


def decide_path(v, ctx, run, query_ms):
    pairs = []       # (label, rank, index, got SymVal, want SymVal, tol)
    for rank, label, got, want, tol in run.records:
        try:
            gs, ge = _elements(got)
            ws, we = _elements(want)
        except Unsupported as ex:
            raise Unsupported("%s: %s" % (label, ex))
        v.checks += 1
        if gs != ws:
            v.cands.append({"label": label, "detail": "rank %d: shape %s instead of %s" % (rank, gs, ws),
                            "inputs": path_model(ctx)})
            return
        for i, (g, wv) in enumerate(zip(ge, we)):
            g, wv = _split(g), _split(wv)
            if g.re is None or wv.re is None:
                if (g.re is None) != (wv.re is None) or sym.inf_sign(g) != sym.inf_sign(wv):
                    v.cands.append({"label": label, "detail": "rank %d element %d: %s instead of %s" % (
                        rank, i, g, wv), "inputs": path_model(ctx)})
                    return
                continue
            pairs.append((label, rank, i, g, wv, tol))
    bools = []
    for rank, label, cond, detail in run.facts:
        v.checks += 1
        if isinstance(cond, np.ndarray):
            cond = symarr.f_all(cond) if isinstance(cond, symarr.SymArr) else bool(cond.all())
        b = sym.as_bool(cond)
        if b is NotImplemented:
            b = sym.as_bool(bool(cond))
        bools.append((label, rank, b, detail))
    # path feasibility witness
    env = Z3Env()
    s = _solver(800)
    _load(s, ctx.z3_conds(env), env)
    r = timed_check(s)
    if r == z3.unsat:
        v.paths -= 1
        return
    if r == z3.sat:
        v.feasible_paths += 1
        if v.sample is None:
            v.sample = {k: x for k, x in list(_model_inputs(s.model(), env).items())[:8]}
    exact = [p for p in pairs if p[5] is None]
    approx = [p for p in pairs if p[5] is not None]
    # group the negated assertions in one query per path; split on unknown
    disj = []
    for p in exact:
        g, w = p[3], p[4]
        for a, b in ((g.re, w.re), (g.im, w.im)):
            disj.append((p, a, b))
    for (label, rank, b, detail) in bools:
        c = b.const()
        if c is True:
            continue
        disj.append(((label, rank, 0, b, None, None), b, None))
        if c is False:
            v.cands.append({"label": label, "detail": "rank %d: %s" % (rank, detail or "condition is false"),
                            "inputs": path_model(ctx)})
            return
    _query(v, ctx, disj, query_ms)
    if approx:
        _query_tol(v, ctx, approx, query_ms)


def _neg(p, a, b, env):
    if b is None:
        return z3.Not(a.z3(env))
    if a == b:
        return env.poly(a) != env.poly(b)
    return env.poly(a - b) != 0


def _query(v, ctx, disj, query_ms, depth=0):
    if not disj:
        return
    v.queries += 1
    trivial = all(b is not None and a == b for _, a, b in disj)
    if not trivial:
        v.nontrivial += 1
    env = Z3Env()
    s = _solver(query_ms)
    negs = []
    for p, a, b in disj:
        negs.append(_neg(p, a, b, env))
    goal = z3.Or(negs)
    conds = ctx.z3_conds(env) if not trivial else []
    _load(s, [goal] + conds, env)
    r = timed_check(s)
    if r == z3.unsat:
        return
    rest = [d for d in disj if not (d[2] is not None and d[1] == d[2])]
    if r == z3.unknown:
        if len(rest) > 1 and depth < 6:
            k = len(rest) // 2
            if len(rest) < len(disj):
                _query(v, ctx, [d for d in disj if d[2] is not None and d[1] == d[2]], query_ms, depth)
            _query(v, ctx, rest[:k], query_ms, depth + 1)
            if not v.cands:
                _query(v, ctx, rest[k:], query_ms, depth + 1)
            return
        p = rest[0][0] if rest else disj[0][0]
        # undecided: let the concrete runs at least try generic inputs
        v.incon.append("solver: unknown for %s (rank %d, element %d)" % (p[0], p[1], p[2]))
        v.cands.append({"label": p[0], "detail": "undecided by the solver", "inputs": {}, "weak": True})
        return
    inputs = _model_inputs(s.model(), env)
    m = s.model()
    which = None
    for (p, a, b), n in zip(disj, negs):
        if z3.is_true(m.eval(n, model_completion=True)):
            which = p
            break
    # a counterexample with a visible difference, if there is one
    better = _bigger(ctx, disj, query_ms)
    p = which or rest[0][0]
    v.cands.append({"label": p[0], "detail": "rank %d element %d" % (p[1], p[2]),
                    "inputs": better or inputs, "alt": inputs if better else None})


def _bigger(ctx, disj, ms):
    env = Z3Env()
    s = _solver(min(ms, 4000))
    gs = []
    for p, a, b in disj:
        if b is None or a == b:
            continue
        d = env.poly(a - b)
        gs.append(z3.Or(d > z3.Q(1, 8), d < z3.Q(-1, 8)))
    if not gs:
        return None
    conds = ctx.z3_conds(env)
    _load(s, [z3.Or(gs)] + conds, env)
    for i, x in env.vars.items():
        if poly.ATOMS[i].kind == "var":
            s.add(x <= 4, x >= -4)
    if timed_check(s) == z3.sat:
        return _model_inputs(s.model(), env)
    return None


SCALE = 10 ** 18


def _query_tol(v, ctx, approx, query_ms):
    """|got - want| <= tol for all inputs in the box [-1,1]: every monomial
    is abstracted by an independent real in [-1,1] (linear arithmetic), its
    coefficient rounded away from zero to a multiple of 1e-18 (the box is
    symmetric, so the bound remains an upper bound)."""
    for p in approx:
        g, w, tol = p[3], p[4], p[5]
        for a, b in ((g.re, w.re), (g.im, w.im)):
            d = a - b
            if not d.t:
                continue
            s = _solver(query_ms)
            terms = []
            for i, c in enumerate(d.t.values()):
                k = -((-abs(c) * SCALE) // 1)
                x = z3.Real("m%d" % i)
                s.add(x >= -1, x <= 1)
                terms.append(z3.RealVal(int(k)) * x)
            e = z3.Sum(terms)
            t = z3.Q(*sym._nd(Fraction(tol) * SCALE))
            s.add(e > t)          # -e > t is the same by symmetry
            v.queries += 1
            v.nontrivial += 1
            r = timed_check(s)
            if r == z3.unsat:
                continue
            big = float(sum(abs(c) for c in d.t.values()))
            detail = "rank %d element %d differs by up to %.3g" % (p[1], p[2], big)
            if r == z3.unknown:
                v.incon.append("solver: unknown for %s (%s)" % (p[0], detail))
                detail = "undecided by the solver"
            v.cands.append({"label": p[0], "detail": detail, "inputs": {}, "weak": r == z3.unknown})
            return


# ---------------------------------------------------------------------
# concrete execution in this process (simulated MPI, real numpy)

def run_concrete(h, cfg, inputs, pm, pylops, seed=1):
    sym.set_ctx(None)
    P = cfg["P"]
    e = envmod.ConEnv(pm, pylops, P, inputs, __import__("sys").modules["mpi4py.MPI"], seed)
    w = simmpi.World(P, start=cfg.get("_start", 0), eager=not cfg.get("_sched"))

    nch = [0]

    def choose():
        nch[0] += 1
        return float(inputs.get("__match%d" % nch[0], 1)) > 0
    w.choose = choose

    def body(r):
        return h.run(e, **{k: x for k, x in cfg.items() if k != "P" and k[0] != "_"})
    out = w.run(body)
    if tolerated(cfg, [o[1] for o in out if o[0] == "exc"]):
        e.nchecks += 1
        return [], e, w
    fails = list(e.failures)
    for r, o in enumerate(out):
        if o[0] == "exc":
            fails.append("rank %d raised %s: %s" % (r, type(o[1]).__name__, str(o[1])[:300]))
        elif o[0] == "hang":
            fails.append("rank %d blocked forever in %s" % (r, o[1]))
        elif o[0] == "mismatch":
            fails.append("collective mismatch: %s" % o[1])
    return fails, e, w
