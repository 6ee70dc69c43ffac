"""Deterministic control for the simulations of the Python package.

Every nondeterministic decision of a run (which thread or rank goes on, whether
a system call fails, when an asynchronous exception arrives, what the clock
reads) is drawn from a Ctl.  A decision is named by a stream and its position in
the stream; its default value is 0 (nothing happens, the running thread goes
on).  The recorded non-default decisions are the schedule and fault trace of
the run: replaying them repeats the run, and dropping some of them minimises
it."""
import hashlib
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Ctl:
    """Source of decisions: seeded, or replayed from a trace."""

    def __init__(self, seed, trace=None):
        self.rng = random.Random(seed)
        self.replay = trace
        self.pos = {}
        self.trace = {}
        self.ctr = {}
        self.h = hashlib.blake2b(digest_size=8)
        self.sim_ns = 0
        self.nontrivial = False

    def count(self, key, n=1):
        self.ctr[key] = self.ctr.get(key, 0) + n

    def decide(self, stream, gen):
        """Next decision of a stream: gen(rng) -> non-negative int."""
        k = self.pos.get(stream, 0)
        self.pos[stream] = k + 1
        key = "%s#%d" % (stream, k)
        if self.replay is None:
            v = int(gen(self.rng))
        else:
            v = self.replay.get(key, 0)
        if v:
            self.trace[key] = v
        return v

    def chance(self, stream, p, n=1):
        """0, or with probability p one of 1..n."""
        return self.decide(stream, lambda r: r.randint(1, n) if r.random() < p else 0)

    def pick(self, stream, n):
        return self.decide(stream, lambda r: r.randrange(n)) % n

    def note(self, *what):
        self.h.update(repr(what).encode())

    def fault(self, kind):
        self.count("fault_" + kind)
        self.nontrivial = True


# ---------------------------------------------------------------- processes
def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


class ChildDied(Exception):
    def __init__(self, status, timeout):
        super().__init__(status, timeout)
        self.status, self.timeout = status, timeout


def call_in_fork(func, *args, timeout=120.0):
    """Result of func(*args) computed in a forked process."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            try:
                out = ("ok", func(*args))
            except Violation as e:
                out = ("violation", (e.kind, e.detail))
            except BaseException as e:  # noqa
                out = ("exc", (type(e).__name__, str(e)[:2000], traceback.format_exc()[-3000:]))
            try:
                _send(wfd, out)
            except BaseException:  # noqa
                _send(wfd, ("exc", ("PickleError", "result cannot be sent", traceback.format_exc()[-2000:])))
        except BaseException:  # noqa
            code = 99
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        r, _, _ = select.select([rfd], [], [], min(left, 5.0))
        if not r:
            continue
        d = os.read(rfd, 1 << 20)
        if not d:
            break
        buf += d
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    os.close(rfd)
    if timed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed:
        raise ChildDied(st, True)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("<Q", buf[:8])[0]:
        raise ChildDied(st, False)
    tag, val = pickle.loads(buf[8:])
    if tag == "ok":
        return val
    if tag == "violation":
        raise Violation(*val)
    raise RuntimeError("in forked process: %s: %s\n%s" % val)


def describe_status(st):
    if os.WIFSIGNALED(st):
        return "signal %d (%s)" % (os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name)
    return "exit status %d" % os.WEXITSTATUS(st)


def still_planner():
    """FFTW's planner times its candidates; without a time budget its choice is repeatable."""
    import ctypes
    for name in ("libfftw3.so.3", "libfftw3.so"):
        try:
            f = ctypes.CDLL(name).fftw_set_timelimit
        except (OSError, AttributeError):
            continue
        f.argtypes, f.restype = [ctypes.c_double], None
        f(0.0)
        return True
    return False


# ---------------------------------------------------------------- comparison
def _key(k):
    return k if isinstance(k, (str, int, float, tuple)) else str(k)


def compare(a, b, tol=1e-9, path="", floor=0.0):
    """None if equal (floating-point arrays to tol of the largest entry), else a description."""
    import numpy as np
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%s: %s and %s" % (path, type(a).__name__, type(b).__name__)
        ka, kb = sorted(map(_key, a), key=str), sorted(map(_key, b), key=str)
        if ka != kb:
            return "%s: keys %s and %s" % (path, ka, kb)
        bb = {_key(k): v for k, v in b.items()}
        for k, v in a.items():
            d = compare(v, bb[_key(k)], tol, "%s[%s]" % (path, k), floor)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = compare(x, y, tol, "%s[%d]" % (path, i), floor)
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return None if a == b and type(a) is type(b) else "%s: %r and %r" % (path, str(a)[:200], str(b)[:200])
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
        if x.dtype.names and x.dtype == y.dtype and x.shape == y.shape:
            for n in x.dtype.names:
                d = compare(x[n], y[n], tol, "%s.%s" % (path, n), floor)
                if d:
                    return d
            return None
        return None if x.shape == y.shape and bool(np.all(x == y)) else "%s: %s and %s" % (path, str(a)[:200], str(b)[:200])
    if x.shape != y.shape:
        return "%s: shapes %s and %s" % (path, x.shape, y.shape)
    if x.dtype.kind != y.dtype.kind:
        return "%s: types %s and %s" % (path, x.dtype, y.dtype)
    if x.dtype.kind in "iub":
        if np.array_equal(x, y):
            return None
        i = int(np.flatnonzero(np.ravel(x != y))[0])
        return "%s[%d]: %s and %s" % (path, i, np.ravel(x)[i], np.ravel(y)[i])
    fx, fy = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(fx, fy):
        i = int(np.flatnonzero(np.ravel(fx != fy))[0])
        return "%s[%d]: %s and %s" % (path, i, np.ravel(x)[i], np.ravel(y)[i])
    if not x.size:
        return None
    xs, ys = np.where(fx, x, 0), np.where(fy, y, 0)
    scale = max(float(np.max(np.abs(xs))), float(np.max(np.abs(ys))))
    lim = max(tol * scale, floor)
    d = np.abs(xs - ys)
    if float(np.max(d)) <= lim:
        return None
    i = int(np.argmax(np.ravel(d)))
    return "%s[%d]: %r and %r (largest entry %.3g)" % (path, i, complex(np.ravel(xs)[i]) if x.dtype.kind == "c" else float(np.ravel(xs)[i]), complex(np.ravel(ys)[i]) if y.dtype.kind == "c" else float(np.ravel(ys)[i]), scale)


# ---------------------------------------------------------------- threads
class Deadlock(Exception):
    pass


class Sched:
    """Threads parked one at a time; a seeded scheduler picks who goes on at each yield."""

    class T:
        pass

    def __init__(self, ctl, stream="sched", p_switch=0.1, max_steps=2_000_000):
        import _thread
        self.mk = REAL_LOCK
        self.ctl, self.stream, self.p = ctl, stream, p_switch
        self.ts = []
        self.cur = None
        self.main = self.mk()
        self.main.acquire()
        self.dead = None
        self.steps = 0
        self.max_steps = max_steps
        self.on_switch = None     # (old, new)
        self.aborting = False
        self._start = _thread.start_new_thread

    def spawn(self, func, name):
        t = Sched.T()
        t.lock = self.mk()
        t.lock.acquire()
        t.done, t.name, t.func, t.exc, t.result = False, name, func, None, None
        t.blocked = None
        t.state = None
        t.idx = len(self.ts)
        self.ts.append(t)
        return t

    def _body(self, t):
        t.lock.acquire()
        try:
            if not self.aborting:
                t.result = t.func()
        except BaseException as e:  # noqa
            t.exc = e
        t.done = True
        sys.settrace(None)
        self._next(t)

    def _runnable(self):
        return [t for t in self.ts if not t.done and (t.blocked is None or t.blocked())]

    def _next(self, me):
        """Hand over to another runnable thread (me is finished or blocked)."""
        rs = self._runnable()
        if not rs:
            if all(t.done for t in self.ts):
                self.main.release()
                return
            self.dead = [t.name for t in self.ts if not t.done]
            self.main.release()
            return
        n = rs[self.ctl.pick(self.stream + ".who", len(rs))] if len(rs) > 1 else rs[0]
        self._to(me, n)

    def _to(self, me, n):
        n.blocked = None
        if n is not me:
            self.cur = n
            if self.on_switch:
                self.on_switch(me, n)
            n.lock.release()

    def yield_(self, p=None):
        """A point where the running thread may be preempted."""
        me = self.cur
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation("no progress", "more than %d steps" % self.max_steps)
        rs = [t for t in self._runnable() if t is not me]
        if not rs:
            return
        v = self.ctl.chance(self.stream, self.p if p is None else p, len(rs))
        if not v:
            return
        self.ctl.count("switches")
        self.ctl.nontrivial = True
        n = rs[(v - 1) % len(rs)]
        self.ctl.note(me.idx, n.idx, self.steps)
        self._to(me, n)
        me.lock.acquire()
        if self.aborting:
            raise SystemExit

    def block(self, cond):
        """Park the running thread until cond() holds."""
        me = self.cur
        while not cond():
            me.blocked = cond
            rs = self._runnable()
            if not rs:
                self.dead = [t.name for t in self.ts if not t.done]
                self.main.release()
                me.lock.acquire()
                raise SystemExit
            n = rs[self.ctl.pick(self.stream + ".who", len(rs))] if len(rs) > 1 else rs[0]
            if n is me:
                me.blocked = None
                break
            self._to(me, n)
            me.lock.acquire()
            if self.aborting:
                raise SystemExit
        me.blocked = None

    def run(self):
        for t in self.ts:
            self._start(self._body, (t,))
        first = self.ts[self.ctl.pick(self.stream + ".who", len(self.ts))]
        self._to(None, first)
        self.main.acquire()
        self.ctl.count("steps", self.steps)
        if self.dead is not None:
            return self.dead
        return None


import _thread  # noqa: E402
REAL_LOCK = _thread.allocate_lock
