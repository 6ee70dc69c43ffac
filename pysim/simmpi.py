"""A simulated MPI communicator: ranks are threads parked one at a time by the
seeded scheduler, each with its own copy of the process-wide Python state."""
import os
import random
import warnings

import numpy as np

from core import Violation


class MpiError(Exception):
    pass


class World:
    def __init__(self, ctl, sched, size):
        self.ctl, self.sched, self.size = ctl, sched, size
        self.calls = []                  # per collective: {"op", "root", "in": {rank: entry}}
        self.p2p = {}
        self.messages = 0


class SimComm:
    def __init__(self, world, rank):
        self._w, self._rank, self._n = world, rank, 0
        self.fail_at = None              # index of the collective at which this rank's call fails

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._w.size)
    Get_rank = lambda s: s._rank
    Get_size = lambda s: s._w.size

    def __bool__(self):
        return True

    # -- a collective operation: every rank enters with its data
    def _enter(self, op, root, data):
        w = self._w
        w.sched.yield_(0.5)
        k = self._n
        self._n += 1
        if self.fail_at is not None and k == self.fail_at:
            w.ctl.fault("mpi_error")
            raise MpiError("simulated communication failure in %s" % op)
        if k == len(w.calls):
            w.calls.append({"op": op, "root": root, "in": {}})
        c = w.calls[k]
        if c["op"] != op or c["root"] != root:
            raise Violation("collective mismatch", "call %d is %s(root=%s) on rank %d and %s(root=%s) on rank %d"
                            % (k, op, root, self._rank, c["op"], c["root"], min(c["in"])))
        c["in"][self._rank] = data
        w.ctl.count("messages")
        w.ctl.note("coll", k, self._rank)
        return c

    def _wait_all(self, c):
        n = self._w.size
        self._w.sched.block(lambda: len(c["in"]) == n)

    def _wait_root(self, c, root):
        self._w.sched.block(lambda: root in c["in"])

    def _maybe_wait(self, cond):
        """The library may return before (eager) or after (rendezvous) the peer is ready."""
        if self._w.ctl.chance("rendezvous", 0.5):
            self._w.ctl.count("rendezvous")
            self._w.sched.block(cond)

    def _leave(self):
        self._w.sched.yield_(0.5)

    def barrier(self):
        c = self._enter("barrier", None, None)
        self._wait_all(c)
        self._leave()
    Barrier = barrier

    def bcast(self, obj, root=0):
        import pickle
        c = self._enter("bcast", root, pickle.dumps(obj) if self._rank == root else None)
        if self._rank == root:
            n = self._w.size
            self._maybe_wait(lambda: len(c["in"]) == n)
            out = obj
        else:
            self._wait_root(c, root)
            out = pickle.loads(c["in"][root])
        self._leave()
        return out

    def Bcast(self, buf, root=0):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        c = self._enter("Bcast", root, np.ascontiguousarray(a).copy() if self._rank == root else None)
        if self._rank == root:
            n = self._w.size
            self._maybe_wait(lambda: len(c["in"]) == n)
        else:
            self._wait_root(c, root)
            src = c["in"][root]
            if a.nbytes < src.nbytes:
                raise MpiError("MPI_ERR_TRUNCATE: message truncated")
            a.reshape(-1).view(np.uint8)[:src.nbytes] = src.reshape(-1).view(np.uint8)
        self._leave()

    def gather(self, obj, root=0):
        import pickle
        c = self._enter("gather", root, pickle.dumps(obj))
        out = None
        if self._rank == root:
            self._wait_all(c)
            out = [pickle.loads(c["in"][r]) for r in range(self._w.size)]
        else:
            self._maybe_wait(lambda: root in c["in"])
        self._leave()
        return out

    def allgather(self, obj):
        import pickle
        c = self._enter("allgather", None, pickle.dumps(obj))
        self._wait_all(c)
        out = [pickle.loads(c["in"][r]) for r in range(self._w.size)]
        self._leave()
        return out

    def scatter(self, objs, root=0):
        import pickle
        if self._rank == root and len(objs) != self._w.size:
            raise ValueError("expecting %d items, got %d" % (self._w.size, len(objs)))
        c = self._enter("scatter", root, pickle.dumps(objs) if self._rank == root else None)
        self._wait_root(c, root)
        out = pickle.loads(c["in"][root])[self._rank]
        self._leave()
        return out

    def reduce(self, obj, op=None, root=0):
        import pickle
        c = self._enter("reduce", root, pickle.dumps(obj))
        out = None
        if self._rank == root:
            self._wait_all(c)
            out = self._fold([pickle.loads(c["in"][r]) for r in range(self._w.size)], op)
        else:
            self._maybe_wait(lambda: root in c["in"])
        self._leave()
        return out

    def allreduce(self, obj, op=None):
        import pickle
        c = self._enter("allreduce", None, pickle.dumps(obj))
        self._wait_all(c)
        out = self._fold([pickle.loads(c["in"][r]) for r in range(self._w.size)], op)
        self._leave()
        return out

    @staticmethod
    def _fold(xs, op):
        name = getattr(op, "name", str(op)).upper() if op is not None else "SUM"
        acc = xs[0]
        for x in xs[1:]:
            acc = max(acc, x) if "MAX" in name else min(acc, x) if "MIN" in name else acc + x
        return acc

    @staticmethod
    def _unpack(buf):
        """(array, counts, displacements) of a buffer specification."""
        if isinstance(buf, (list, tuple)):
            a = buf[0]
            rest = [x for x in buf[1:] if not (isinstance(x, str) or type(x).__name__ == "Datatype")]
            counts = displs = None
            if rest:
                if isinstance(rest[0], (list, tuple)) and len(rest[0]) == 2 and (rest[0][0] is None or np.ndim(rest[0][0]) == 1):
                    counts, displs = rest[0]
                else:
                    counts = rest[0]
                    displs = rest[1] if len(rest) > 1 else None
            return a, counts, displs
        return buf, None, None

    def Gatherv(self, sendbuf, recvbuf, root=0):
        sa, sc, _ = self._unpack(sendbuf)
        sa = np.asarray(sa)
        if not sa.flags.c_contiguous:
            raise ValueError("ndarray is not C-contiguous")
        if sc is not None and np.ndim(sc) == 0:
            sa = sa.reshape(-1)[:sc]
        c = self._enter("Gatherv", root, sa.reshape(-1).copy())
        if self._rank == root:
            ra, counts, displs = self._unpack(recvbuf)
            self._wait_all(c)
            n = self._w.size
            if not ra.flags.c_contiguous:
                raise ValueError("ndarray is not C-contiguous")
            flat = ra.reshape(-1)
            if counts is None:
                q, rem = divmod(flat.size, n)
                if rem:
                    raise ValueError("message: buffer size is not a multiple of the number of processes")
                counts = [q] * n
            if np.ndim(counts) == 0:
                counts = [int(counts)] * n
            counts = [int(x) for x in counts]
            if displs is None:
                displs = [sum(counts[:i]) for i in range(n)]
            if len(counts) != n or len(displs) != n:
                raise ValueError("message: expecting %d counts and displacements" % n)
            order = list(range(n))
            while order:                              # messages arrive in any order
                r = order.pop(self._w.ctl.pick("arrival", len(order)))
                src = c["in"][r]
                if src.dtype != ra.dtype:
                    src = np.frombuffer(src.tobytes(), dtype=np.uint8)
                    if len(src) > counts[r] * ra.itemsize:
                        raise MpiError("MPI_ERR_TRUNCATE: message truncated")
                    flat.view(np.uint8)[int(displs[r]) * ra.itemsize:int(displs[r]) * ra.itemsize + len(src)] = src
                    continue
                if src.size > counts[r]:
                    raise MpiError("MPI_ERR_TRUNCATE: message truncated")
                lo = int(displs[r])
                if lo < 0 or lo + src.size > flat.size:
                    raise Violation("receive out of bounds", "rank %d's part [%d, %d) lies outside the receive buffer of %d elements"
                                    % (r, lo, lo + src.size, flat.size))
                flat[lo:lo + src.size] = src
        else:
            self._maybe_wait(lambda: root in c["in"])
        self._leave()

    def Gather(self, sendbuf, recvbuf, root=0):
        self.Gatherv(sendbuf, recvbuf, root)

    def Allgatherv(self, sendbuf, recvbuf):
        sa = np.ascontiguousarray(self._unpack(sendbuf)[0]).reshape(-1).copy()
        c = self._enter("Allgatherv", None, sa)
        self._wait_all(c)
        ra, counts, displs = self._unpack(recvbuf)
        flat = ra.reshape(-1)
        n = self._w.size
        counts = [c["in"][r].size for r in range(n)] if counts is None else counts
        displs = [sum(counts[:i]) for i in range(n)] if displs is None else displs
        for r in range(n):
            if c["in"][r].size > counts[r]:
                raise MpiError("MPI_ERR_TRUNCATE: message truncated")
            flat[int(displs[r]):int(displs[r]) + c["in"][r].size] = c["in"][r]
        self._leave()
    Allgather = Allgatherv

    # -- point to point
    def send(self, obj, dest, tag=0):
        import pickle
        q = self._w.p2p.setdefault((self._rank, dest, tag), [])
        self._w.sched.yield_(0.5)
        q.append(pickle.dumps(obj))
        m = len(q)
        self._maybe_wait(lambda: len(q) < m)

    def recv(self, buf=None, source=0, tag=0, status=None):
        import pickle
        if source < 0:
            keys = lambda: [k for k in sorted(self._w.p2p) if k[1] == self._rank and (tag < 0 or k[2] == tag) and self._w.p2p[k]]
            self._w.sched.block(lambda: bool(keys()))
            ks = keys()
            q = self._w.p2p[ks[self._w.ctl.pick("arrival", len(ks))]]
        else:
            q = self._w.p2p.setdefault((source, self._rank, tag), [])
            self._w.sched.block(lambda: bool(q))
        out = pickle.loads(q.pop(0))
        self._leave()
        return out


class RankState:
    """Process-wide state that every rank has a copy of."""

    def __init__(self):
        self.env = dict(os.environ._data)
        self.filters = list(warnings.filters)
        self.show = warnings.showwarning
        self.impl = warnings._showwarnmsg_impl
        self.rnd = random.getstate()
        self.np_rnd = np.random.get_state()

    def save(self):
        self.env = os.environ._data
        self.filters = warnings.filters
        self.show, self.impl = warnings.showwarning, warnings._showwarnmsg_impl
        self.rnd = random.getstate()
        self.np_rnd = np.random.get_state()

    def load(self):
        os.environ._data = self.env
        warnings.filters = self.filters
        warnings.showwarning, warnings._showwarnmsg_impl = self.show, self.impl
        warnings._filters_mutated()
        random.setstate(self.rnd)
        np.random.set_state(self.np_rnd)
