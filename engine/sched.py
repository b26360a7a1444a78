"""All schedules of the communication of one symbolic path.

A path fixes what every rank sends, receives and which collectives it enters,
in program order (decisions that depend on data are part of the path).  What
stays open is the interleaving and, for every blocking send, whether the MPI
library buffers it.  Both become variables of one query:

  pc[r]   how many operations rank r has completed (it is inside the next one)
  buf[m]  whether message m is buffered

asserting that everything completed was able to complete and that nobody can
move although somebody is not finished.  unsat: no schedule and no buffering
policy can deadlock.  sat: pc and buf describe the deadlock."""
import z3


def decide(ev, timed_check, timeout_ms=10000):
    """-> (verdict, text); verdict in unsat / sat / unknown"""
    P = len(ev)
    pc = [z3.Int("pc%d" % r) for r in range(P)]
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    send_at, recv_at, colls = {}, {}, {}
    for r in range(P):
        for i, e in enumerate(ev[r]):
            if e[0] == "coll":
                colls.setdefault((e[1], e[2]), []).append((r, i))
    # ids: the sender appended ("send"/"post", id); the receiver's record ends in the id
    ids = {}
    for r in range(P):
        for i, e in enumerate(ev[r]):
            if e[0] == "send" or isinstance(e, tuple) and e[0] == "post":
                send_at[e[1]] = (r, i)
            elif e[0] in ("recv", "post") and isinstance(e, list):
                if len(e) > 1:
                    recv_at[e[1]] = (r, i)
    buf = {m: z3.Bool("buf%d" % m) for m in send_at}

    def reached(at):
        r, i = at
        return pc[r] >= i

    def complete(r, i, e):
        """condition under which operation i of rank r can complete"""
        if e[0] == "coll":
            members = colls[(e[1], e[2])]
            if len(members) < e[3]:
                return z3.BoolVal(False)
            return z3.And([reached(a) for a in members if a[0] != r])
        if e[0] == "send":
            return z3.Or(buf[e[1]], reached(recv_at[e[1]])) if e[1] in recv_at else buf[e[1]]
        if e[0] == "recv":
            return reached(send_at[e[1]]) if len(e) > 1 else z3.BoolVal(False)
        if e[0] == "wait":
            t = e[1]
            if len(t) < 2:
                return z3.BoolVal(False)
            m = t[1]
            if send_at.get(m, (None,))[0] == r and recv_at.get(m, (None,))[0] != r:
                return z3.Or(buf[m], reached(recv_at[m])) if m in recv_at else buf[m]
            return reached(send_at[m])
        return z3.BoolVal(True)     # posting never blocks
    stuck, unfinished = [], []
    for r in range(P):
        n = len(ev[r])
        s.add(pc[r] >= 0, pc[r] <= n)
        unfinished.append(pc[r] < n)
        for i, e in enumerate(ev[r]):
            c = complete(r, i, e)
            s.add(z3.Implies(pc[r] > i, c))
            stuck.append(z3.Implies(pc[r] == i, z3.Not(c)))
    s.add(z3.Or(unfinished), *stuck)
    r = timed_check(s)
    if r == z3.sat:
        m = s.model()
        where = []
        for q in range(P):
            i = m.eval(pc[q], model_completion=True).as_long()
            where.append("rank %d %s" % (q, "finished" if i == len(ev[q]) else "blocked in %s" % (ev[q][i],)))
        nb = [k for k in buf if not z3.is_true(m.eval(buf[k], model_completion=True))]
        return "sat", "; ".join(where) + "; unbuffered messages %s" % nb
    return ("unsat" if r == z3.unsat else "unknown"), ""
