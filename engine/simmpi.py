"""A deterministic stand-in for mpi4py: P ranks are threads that run one at a
time; collectives rendezvous, sends are buffered or synchronous, objects are
copied on the way as pickling would do."""
import copy
import sys
import threading
import types

import numpy as np

from .poly import Unsupported

_tls = threading.local()


class Deadlock(BaseException):
    """Every unfinished rank is blocked."""


class CollectiveMismatch(BaseException):
    """Ranks of one communicator entered different collectives."""


class MPIException(RuntimeError):
    pass


class World:
    def __init__(self, size, start=0, eager=True):
        self.size = size
        self.eager = eager                     # are blocking sends buffered?
        self.start = start
        self.sems = [threading.Semaphore(0) for _ in range(size)]
        self.main = threading.Semaphore(0)
        self.cond = [None] * size
        self.state = ["ready"] * size      # ready / blocked / done
        self.outcome = [None] * size
        self.dead = None
        self.trace = [[] for _ in range(size)]
        self.ev = [[] for _ in range(size)]    # communication events, for sched.py
        self.weak = [None] * size              # waiting for a message of any source
        self.choose = None                     # resolves such a choice
        self.cores = []
        self.core0 = self.new_core(list(range(size)))
        self.selfcores = [self.new_core([r]) for r in range(size)]
        self.mail = {}
        self.seq = 0
        self.nswitch = 0
        self.comms = [Comm(self, self.core0, r) for r in range(size)]
        self.blocked_on = [None] * size

    def new_core(self, members):
        c = Core(len(self.cores), members)
        self.cores.append(c)
        return c

    # scheduling ----------------------------------------------------------
    def run(self, fn):
        ths = []
        old = threading.stack_size()
        for r in range(self.size):
            t = threading.Thread(target=self._main, args=(r, fn), daemon=True)
            ths.append(t)
            t.start()
        self.sems[self.start % self.size].release()
        self.main.acquire()
        for t in ths:
            t.join()
        return self.outcome

    def _main(self, r, fn):
        _tls.world = self
        _tls.rank = r
        self.sems[r].acquire()
        try:
            if self.dead:
                raise self.dead
            self.outcome[r] = ("ok", fn(r))
        except Deadlock:
            self.outcome[r] = ("hang", self.blocked_on[r])
        except CollectiveMismatch as e:
            self.outcome[r] = ("mismatch", e)
        except BaseException as e:
            self.outcome[r] = ("exc", e)
        self.state[r] = "done"
        self._switch(r)

    def _next(self, r):
        for k in range(1, self.size + 1):
            q = (r + k) % self.size
            if self.state[q] == "ready":
                return q
            if self.state[q] == "blocked" and (self.dead or self.cond[q]()):
                return q
        # everybody waits: now every message that can be there is there
        for k in range(1, self.size + 1):
            q = (r + k) % self.size
            if self.state[q] == "blocked" and self.weak[q] and self.weak[q]():
                return q
        return None

    def _switch(self, r):
        """hand the baton to somebody else (called by rank r, which is
        blocked or done)"""
        q = self._next(r)
        if q is None:
            if all(s == "done" for s in self.state):
                self.main.release()
                return
            self.dead = Deadlock()
            q = self._next(r)
        self.nswitch += 1
        if q == r:
            return
        self.sems[q].release()
        if self.state[r] != "done":
            self.sems[r].acquire()

    def wait(self, r, cond, what):
        while not cond():
            if self.dead:
                raise self.dead
            self.state[r] = "blocked"
            self.cond[r] = cond
            self.blocked_on[r] = what
            self._switch(r)
            self.state[r] = "ready"
        self.blocked_on[r] = None

    def wait_any(self, r, cond, what):
        """wait for a message whose sender is left open: go on only when all
        possible senders have got as far as they can"""
        if self.dead:
            raise self.dead
        self.state[r], self.cond[r], self.weak[r] = "blocked", lambda: False, cond
        self.blocked_on[r] = what
        self._switch(r)
        self.state[r], self.weak[r] = "ready", None
        if self.dead:
            raise self.dead
        self.blocked_on[r] = None

    def pick(self, cands):
        """one of the messages that a receive from any source may get"""
        i = 0
        while i + 1 < len(cands) and self.choose is not None and not self.choose():
            i += 1
        return cands[i]


class Core:
    def __init__(self, cid, members):
        self.cid = cid
        self.members = members
        self.count = [0] * len(members)
        self.slots = {}


def _copy(x):
    """what the other side of a pickle sees"""
    if isinstance(x, np.ndarray):
        f = x.flags
        return x.copy(order="F" if (f.f_contiguous and not f.c_contiguous) else "C")
    if isinstance(x, (int, float, complex, str, bytes, type(None), np.generic)):
        return x
    if type(x) is tuple:
        return tuple(_copy(y) for y in x)
    if type(x) is list:
        return [_copy(y) for y in x]
    if type(x) is dict:
        return {k: _copy(v) for k, v in x.items()}
    if callable(x) and not hasattr(x, "__deepcopy__"):
        return x
    return copy.deepcopy(x)


class Op:
    def __init__(self, name, f, g):
        self.name, self.f, self.g = name, f, g

    def __call__(self, a, b):
        return self.f(a, b)

    def __repr__(self):
        return "MPI." + self.name

    @classmethod
    def Create(cls, f, commute=False):
        raise Unsupported("Op.Create")


SUM = Op("SUM", lambda a, b: a + b, np.add)
PROD = Op("PROD", lambda a, b: a * b, np.multiply)
MAX = Op("MAX", lambda a, b: b if b > a else a, np.maximum)
MIN = Op("MIN", lambda a, b: b if b < a else a, np.minimum)
LAND = Op("LAND", lambda a, b: bool(a) & bool(b), np.logical_and)
LOR = Op("LOR", lambda a, b: bool(a) | bool(b), np.logical_or)
LXOR = Op("LXOR", lambda a, b: bool(a) ^ bool(b), np.logical_xor)
BAND = Op("BAND", lambda a, b: a & b, np.bitwise_and)
BOR = Op("BOR", lambda a, b: a | b, np.bitwise_or)
BXOR = Op("BXOR", lambda a, b: a ^ b, np.bitwise_xor)
MAXLOC = Op("MAXLOC", lambda a, b: b if b > a else a, None)
MINLOC = Op("MINLOC", lambda a, b: b if b < a else a, None)


def _lift(x):
    if isinstance(x, np.ndarray):
        return x
    from . import symarr
    if isinstance(x, (symarr.SymVal, symarr.SymBool)):
        return symarr.lift(x)
    return np.asarray(x)


def _sendbuf(b):
    """flat copy (memory order) of a send buffer"""
    if isinstance(b, (list, tuple)):
        b = b[0]
    a = _lift(b)
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise BufferError("ndarray is not contiguous")
    return a.ravel(order="A").copy()


def _recvview(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    if not isinstance(b, np.ndarray):
        raise TypeError("expecting buffer or list/tuple")
    if not (b.flags.c_contiguous or b.flags.f_contiguous):
        raise BufferError("ndarray is not contiguous")
    if not b.flags.writeable:
        raise BufferError("Object is not writable.")
    return b


def _fill(b, flat):
    from . import symarr
    if flat.size > b.size:
        raise MPIException("MPI_ERR_TRUNCATE: message truncated")
    if not isinstance(b, symarr.SymArr) and isinstance(flat, symarr.SymArr):
        flat = symarr.concretise(flat, b.dtype)
    if flat.size == b.size:
        if b.flags.c_contiguous:
            b[...] = flat.reshape(b.shape)
        else:
            b[...] = flat.reshape(b.shape, order="F")
    else:
        v = b.reshape(-1, order="A")
        v[:flat.size] = flat


class Request:
    def __init__(self, world, rank, done, result, what, ev=None):
        self._w, self._r, self._done, self._res, self._what = world, rank, done, result, what
        self._ev = ev
        self._wait = lambda: self._w.wait(self._r, self._done, self._what)

    def wait(self, status=None):
        if self._ev is not None:
            self._w.ev[self._r].append(["wait", self._ev])
        self._wait()
        return self._res()
    Wait = wait

    def test(self, status=None):
        if self._done():
            return True, self._res()
        return False, None

    def Test(self, status=None):
        return self._done()

    @classmethod
    def waitall(cls, reqs, statuses=None):
        return [r.wait() for r in reqs]

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    def Free(self):
        pass


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class CommMeta(type):
    pass


class Comm:
    """One rank's handle on a communicator."""

    def __init__(self, world, core, rank):
        self._w, self._c, self._rk = world, core, rank

    # identity
    def _me(self):
        return self

    def Get_rank(self):
        return self._me()._rk

    def Get_size(self):
        return len(self._me()._c.members)

    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())
    name = "comm"

    def Get_name(self):
        return "comm"

    def __eq__(self, o):
        return isinstance(o, Comm) and self._me()._c is o._me()._c

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._me()._c.cid)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # collectives ------------------------------------------------------------
    def _coll(self, op, sig, payload, combine):
        me = self._me()
        w, c, r = me._w, me._c, me._rk
        wr = c.members[r]
        k = c.count[r]
        c.count[r] += 1
        w.trace[wr].append(("coll", c.cid, k, op, sig))
        w.ev[wr].append(("coll", c.cid, k, len(c.members)))
        slot = c.slots.setdefault(k, {"in": {}, "out": None, "err": None, "taken": 0})
        slot["in"][r] = (op, sig, payload)
        n = len(c.members)
        if len(slot["in"]) == n:
            ops = {(v[0], v[1]) for v in slot["in"].values()}
            if len(ops) > 1:
                slot["err"] = CollectiveMismatch("ranks entered different collectives: %s" % sorted(map(str, ops)))
                slot["out"] = []
            else:
                try:
                    slot["out"] = combine([slot["in"][i][2] for i in range(n)])
                except Exception as e:
                    slot["err"] = e
                    slot["out"] = []
        if n > 1:
            w.wait(wr, lambda: slot["out"] is not None, ("coll", c.cid, k, op, sig))
        if slot["err"] is not None:
            raise slot["err"]
        res = slot["out"][r]
        slot["taken"] += 1
        if slot["taken"] == n:
            del c.slots[k]
        return res

    def barrier(self):
        self._coll("barrier", None, None, lambda xs: [None] * len(xs))
    Barrier = barrier

    def allgather(self, sendobj):
        return self._coll("allgather", None, _copy(sendobj),
                          lambda xs: [[_copy(x) for x in xs] for _ in xs])

    def bcast(self, obj=None, root=0):
        me = self._me()
        own = obj
        r = self._coll("bcast", root, _copy(obj) if me._rk == root else None,
                       lambda xs: [_copy(xs[root]) for _ in xs])
        return own if me._rk == root else r

    def gather(self, sendobj, root=0):
        return self._coll("gather", root, _copy(sendobj),
                          lambda xs: [[_copy(x) for x in xs] if i == root else None for i in range(len(xs))])

    def scatter(self, sendobj=None, root=0):
        def comb(xs):
            s = xs[root]
            s = list(s)
            if len(s) != len(xs):
                raise ValueError("expecting %d items, got %d" % (len(xs), len(s)))
            return [_copy(x) for x in s]
        return self._coll("scatter", root, sendobj if self._me()._rk == root else None, comb)

    def alltoall(self, sendobj):
        return self._coll("alltoall", None, [_copy(x) for x in sendobj],
                          lambda xs: [[xs[j][i] for j in range(len(xs))] for i in range(len(xs))])

    def _fold(self, op, xs):
        acc = xs[0]
        for x in xs[1:]:
            acc = op(acc, x)
        return acc

    def allreduce(self, sendobj, op=SUM):
        return self._coll("allreduce", op.name, _copy(sendobj),
                          lambda xs: [_copy(self._fold(op, [_copy(x) for x in xs])) for _ in xs])

    def reduce(self, sendobj, op=SUM, root=0):
        return self._coll("reduce", (op.name, root), _copy(sendobj),
                          lambda xs: [_copy(self._fold(op, xs)) if i == root else None for i in range(len(xs))])

    def scan(self, sendobj, op=SUM):
        return self._coll("scan", op.name, _copy(sendobj),
                          lambda xs: [_copy(self._fold(op, xs[:i + 1])) for i in range(len(xs))])

    def exscan(self, sendobj, op=SUM):
        return self._coll("exscan", op.name, _copy(sendobj),
                          lambda xs: [None] + [_copy(self._fold(op, xs[:i])) for i in range(1, len(xs))])

    # buffers
    def Bcast(self, buf, root=0):
        b = _recvview(buf) if self._me()._rk != root else None
        r = self._coll("Bcast", root, _sendbuf(buf) if b is None else None,
                       lambda xs: [xs[root]] * len(xs))
        if b is not None:
            _fill(b, r)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        rb = _recvview(recvbuf)
        sb = _sendbuf(recvbuf) if sendbuf is IN_PLACE else _sendbuf(sendbuf)
        if sb.size != rb.size:
            raise ValueError("mismatch in send count %d and receive count %d" % (sb.size, rb.size))
        if sb.dtype != rb.dtype:
            raise ValueError("mismatch in send and receive MPI datatypes")

        def comb(xs):
            if len({x.size for x in xs}) > 1:
                raise CollectiveMismatch("Allreduce with different counts")
            acc = xs[0]
            for x in xs[1:]:
                acc = op.g(acc, x)
            return [acc] * len(xs)
        _fill(rb, self._coll("Allreduce", (op.name, sb.size), sb, comb))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        me = self._me()._rk
        sb = _sendbuf(recvbuf) if sendbuf is IN_PLACE else _sendbuf(sendbuf)

        def comb(xs):
            acc = xs[0]
            for x in xs[1:]:
                acc = op.g(acc, x)
            return [acc] * len(xs)
        r = self._coll("Reduce", (op.name, root, sb.size), sb, comb)
        if me == root:
            _fill(_recvview(recvbuf), r)

    def Allgather(self, sendbuf, recvbuf):
        rb = _recvview(recvbuf)
        n = self.Get_size()
        if sendbuf is IN_PLACE:
            raise Unsupported("Allgather IN_PLACE")
        sb = _sendbuf(sendbuf)

        def comb(xs):
            if len({x.size for x in xs}) > 1:
                raise CollectiveMismatch("Allgather with different counts")
            return [np.concatenate(xs)] * len(xs)
        r = self._coll("Allgather", sb.size, sb, comb)
        _fill(rb, r)

    def Allgatherv(self, sendbuf, recvbuf):
        if isinstance(recvbuf, (list, tuple)):
            rb = recvbuf[0]
            spec = list(recvbuf[1:])
            counts = displs = None
            if spec:
                counts = spec[0]
                if isinstance(counts, tuple) and len(counts) == 2 and not np.isscalar(counts[0]):
                    counts, displs = counts
                elif len(spec) > 1 and not isinstance(spec[1], Datatype):
                    displs = spec[1]
            counts = None if counts is None else [int(c) for c in counts]
            displs = None if displs is None else [int(d) for d in displs]
        else:
            rb, counts, displs = recvbuf, None, None
        rb = _recvview(rb)
        sb = _sendbuf(sendbuf)
        xs = self._coll("Allgatherv", None, sb, lambda xs: [list(xs)] * len(xs))
        if counts is None:
            _fill(rb, np.concatenate(xs))
            return
        if displs is None:
            displs = [sum(counts[:i]) for i in range(len(counts))]
        v = rb.reshape(-1, order="A")
        for x, c, d in zip(xs, counts, displs):
            if x.size != c:
                raise MPIException("MPI_ERR_TRUNCATE: message truncated")
            v[d:d + c] = x

    # point to point -----------------------------------------------------------
    def _post(self, payload, dest, tag, kind):
        me = self._me()
        w, c = me._w, me._c
        if dest == PROC_NULL:
            return {"done": True}
        if not (0 <= dest < len(c.members)):
            raise MPIException("MPI_ERR_RANK: invalid rank")
        wr = c.members[me._rk]
        w.trace[wr].append(("send", c.cid, dest, tag, kind))
        msg = {"src": me._rk, "tag": tag, "data": payload, "done": False, "kind": kind, "id": w.seq}
        w.seq += 1
        w.ev[wr].append(("send" if kind == "send" else "post", msg["id"]))
        w.mail.setdefault((c.cid, dest), []).append(msg)
        return msg

    def _heads(self, source, tag):
        """the messages a receive may match: the first fitting one of each sender"""
        me = self._me()
        out, seen = [], set()
        for m in me._w.mail.get((me._c.cid, me._rk), ()):
            if source in (ANY_SOURCE, m["src"]) and tag in (ANY_TAG, m["tag"]) and m["src"] not in seen:
                seen.add(m["src"])
                out.append(m)
        return out

    def _match(self, source, tag):
        h = self._heads(source, tag)
        return h[0] if h else None

    def _take(self, source, tag, status=None, ev=None):
        me = self._me()
        h = self._heads(source, tag)
        m = h[0] if len(h) == 1 else me._w.pick(h)
        me._w.mail[(me._c.cid, me._rk)].remove(m)
        m["done"] = True
        if ev is not None:
            ev.append(m["id"])
        if status is not None:
            status.source, status.tag = m["src"], m["tag"]
        return m["data"]

    def _await(self, source, tag, what):
        me = self._me()
        wr = me._c.members[me._rk]
        if source == ANY_SOURCE and len(me._c.members) > 1:
            me._w.wait_any(wr, lambda: self._heads_of(me, source, tag), what)
        else:
            me._w.wait(wr, lambda: bool(self._heads_of(me, source, tag)), what)

    @staticmethod
    def _heads_of(me, source, tag):
        return [m for m in me._w.mail.get((me._c.cid, me._rk), ())
                if source in (ANY_SOURCE, m["src"]) and tag in (ANY_TAG, m["tag"])]

    def _recv(self, source, tag, status=None):
        me = self._me()
        if source == PROC_NULL:
            return None
        if source != ANY_SOURCE and not (0 <= source < len(me._c.members)):
            raise MPIException("MPI_ERR_RANK: invalid rank")
        wr = me._c.members[me._rk]
        me._w.trace[wr].append(("recv", me._c.cid, source, tag, "p"))
        ev = ["recv"]
        me._w.ev[wr].append(ev)
        self._await(source, tag, ("recv", me._c.cid, source, tag))
        return me._take(source, tag, status, ev)

    def send(self, obj, dest, tag=0):
        me = self._me()
        m = self._post(_copy(obj), dest, tag, "send")
        if not me._w.eager:
            me._w.wait(me._c.members[me._rk], lambda: m["done"], ("send", me._c.cid, dest, tag))

    def ssend(self, obj, dest, tag=0):
        me = self._me()
        m = self._post(_copy(obj), dest, tag, "send")
        me._w.wait(me._c.members[me._rk], lambda: m["done"], ("ssend", me._c.cid, dest, tag))

    def bsend(self, obj, dest, tag=0):
        self._post(_copy(obj), dest, tag, "bsend")

    def isend(self, obj, dest, tag=0):
        me = self._me()
        m = self._post(_copy(obj), dest, tag, "isend")
        return Request(me._w, me._c.members[me._rk], lambda: m["done"], lambda: None, ("isend", dest, tag), ["post", m["id"]] if "id" in m else None)
    issend = isend

    def recv(self, buf=None, source=-2, tag=-1, status=None):
        return self._recv(source, tag, status)

    def irecv(self, buf=None, source=-2, tag=-1):
        me = self._me()
        wr = me._c.members[me._rk]
        got = {}
        if source == PROC_NULL:
            return Request(me._w, wr, lambda: True, lambda: None, None)
        me._w.trace[wr].append(("irecv", me._c.cid, source, tag, "p"))
        ev = ["post"]
        me._w.ev[wr].append(ev)

        def done():
            return "v" in got or me._match(source, tag) is not None

        def res():
            if "v" not in got:
                got["v"] = me._take(source, tag, None, ev)
            return got["v"]

        def wait():
            if "v" not in got:
                self._await(source, tag, ("irecv", source, tag))
        rq = Request(me._w, wr, done, res, ("irecv", source, tag), ev)
        rq._wait = wait
        return rq

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-2, recvtag=-1, status=None):
        me = self._me()
        m = self._post(_copy(sendobj), dest, sendtag, "isend")
        r = self._recv(source, recvtag, status)
        if "id" in m:
            me._w.ev[me._c.members[me._rk]].append(["wait", ["post", m["id"]]])
        me._w.wait(me._c.members[me._rk], lambda: m["done"], ("sendrecv", dest, sendtag))
        return r

    def Send(self, buf, dest, tag=0):
        me = self._me()
        m = self._post(_sendbuf(buf), dest, tag, "send")
        if not me._w.eager:
            me._w.wait(me._c.members[me._rk], lambda: m["done"], ("Send", dest, tag))

    def Ssend(self, buf, dest, tag=0):
        me = self._me()
        m = self._post(_sendbuf(buf), dest, tag, "send")
        me._w.wait(me._c.members[me._rk], lambda: m["done"], ("Ssend", dest, tag))

    def Recv(self, buf, source=-2, tag=-1, status=None):
        b = _recvview(buf)
        r = self._recv(source, tag, status)
        if r is not None:
            _fill(b, r)

    def Isend(self, buf, dest, tag=0):
        me = self._me()
        m = self._post(_sendbuf(buf), dest, tag, "isend")
        return Request(me._w, me._c.members[me._rk], lambda: m["done"], lambda: None, ("Isend", dest, tag), ["post", m["id"]] if "id" in m else None)

    def Irecv(self, buf, source=-2, tag=-1):
        b = _recvview(buf)
        rq = self.irecv(None, source, tag)
        old = rq._res
        rq._res = lambda: (lambda v: _fill(b, v) if v is not None else None)(old())
        return rq

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-2, recvtag=-1, status=None):
        me = self._me()
        b = _recvview(recvbuf)
        m = self._post(_sendbuf(sendbuf), dest, sendtag, "isend")
        r = self._recv(source, recvtag, status)
        if r is not None:
            _fill(b, r)
        if "id" in m:
            me._w.ev[me._c.members[me._rk]].append(["wait", ["post", m["id"]]])
        me._w.wait(me._c.members[me._rk], lambda: m["done"], ("Sendrecv", dest, sendtag))

    # communicators --------------------------------------------------------------
    def Split(self, color=0, key=0):
        me = self._me()
        w, c = me._w, me._c
        color, key = int(color), int(key)
        if color < 0 and color != UNDEFINED:
            raise MPIException("MPI_ERR_ARG: invalid argument of some other kind")

        def comb(xs):
            groups = {}
            for r, (col, k) in enumerate(xs):
                groups.setdefault(col, []).append((k, r))
            out = [None] * len(xs)
            for col in sorted(groups):
                if col == UNDEFINED:
                    continue
                mem = [r for k, r in sorted(groups[col])]
                core = w.new_core([c.members[r] for r in mem])
                for i, r in enumerate(mem):
                    out[r] = (core, i)
            return out
        r = self._coll("Split", None, (color, key), comb)
        return COMM_NULL if r is None else Comm(w, r[0], r[1])

    def Dup(self, info=None):
        return self.Split(0, self.Get_rank())
    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=0):
        raise SystemExit(code)

    def Get_group(self):
        raise Unsupported("groups")

    def py2f(self):
        return self._me()._c.cid


Intracomm = Comm


class WorldComm(Comm):
    """COMM_WORLD: resolves to the calling rank's handle."""

    def __init__(self):
        pass

    def _me(self):
        w = getattr(_tls, "world", None)
        if w is None:
            w = _MAIN
        return w.comms[getattr(_tls, "rank", 0)]
    name = "MPI_COMM_WORLD"


class SelfComm(Comm):
    def __init__(self):
        pass

    def _me(self):
        w = getattr(_tls, "world", None) or _MAIN
        r = getattr(_tls, "rank", 0)
        return Comm(w, w.selfcores[r], 0)


class NullComm(Comm):
    def __init__(self):
        pass

    def _me(self):
        raise MPIException("MPI_ERR_COMM: invalid communicator")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 0

    def __bool__(self):
        return False


class Datatype:
    def __init__(self, n):
        self.n = n


IN_PLACE = type("InPlace", (), {"__repr__": lambda s: "MPI.IN_PLACE"})()
ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
UNDEFINED = -32766
COMM_WORLD = WorldComm()
COMM_SELF = SelfComm()
COMM_NULL = NullComm()
_MAIN = World(1)


def make_module():
    MPI = types.ModuleType("mpi4py.MPI")
    for n in ("Comm", "Intracomm", "Op", "SUM", "PROD", "MAX", "MIN", "LAND", "LOR", "LXOR", "BAND", "BOR",
              "BXOR", "MAXLOC", "MINLOC", "IN_PLACE", "ANY_SOURCE", "ANY_TAG", "PROC_NULL", "UNDEFINED",
              "COMM_WORLD", "COMM_SELF", "COMM_NULL", "Request", "Status", "Datatype"):
        setattr(MPI, n, globals()[n])
    MPI.Exception = MPIException
    for n in ("DOUBLE", "FLOAT", "INT", "LONG", "INT64_T", "INT32_T", "COMPLEX", "DOUBLE_COMPLEX", "BOOL",
              "BYTE", "CHAR", "C_DOUBLE_COMPLEX", "C_FLOAT_COMPLEX"):
        setattr(MPI, n, Datatype(n))
    import time
    MPI.Wtime = time.time
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Get_processor_name = lambda: "sim"
    MPI.Query_thread = lambda: 3
    MPI.__file__ = "<simulated>"
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.MPI = MPI
    pkg.__version__ = "sim"
    return pkg, MPI


def install():
    pkg, MPI = make_module()
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = MPI
    return MPI
