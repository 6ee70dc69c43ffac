"""C15: calls from several threads of one process on separate objects."""
import simlock  # first
import copy
import dis
import os
import random
import re
import shutil
import sys
import types
import warnings

import numpy as np

import core
import ops
from core import Violation
import tqdm  # noqa: E402
tqdm.tqdm.monitor_interval = 0          # no thread of its own
tqdm.tqdm.set_lock(simlock.CoRLock())   # instead of an inter-process one

TOL = 1e-9
PKG = os.sep + "triumvirate" + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
STDLIB = os.path.dirname(os.__file__) + os.sep
NOYIELD = tuple(STDLIB + n for n in ("threading.py", "logging" + os.sep, "linecache.py", "warnings.py", "tempfile.py", "traceback.py"))


def setup(seed, tier):
    rng = random.Random(seed)
    n = rng.choice([2, 2, 3, 4])
    base = "/tmp/trvthr.%d" % os.getpid()
    w = {"threads": [], "base": base, "tier": tier}
    lookalike = rng.random() < 0.3          # the threads do the same kind of work
    first = None
    twins = rng.random() < 0.5              # the threads make the same calls with other data
    for t in range(n):
        if twins and first is not None:
            w["threads"].append(twin(rng, first, "%s/t%d" % (base, t)))
            continue
        ow = ops.make_world(rng, outdir="%s/t%d" % (base, t))
        ow["logger"] = rng.random() < 0.5
        if first is not None and rng.random() < 0.5:
            ow["cats"], ow["bins"], ow["L"] = first["cats"], first["bins"], first["L"]
        ow["ops"] = []
        for k in range(rng.randint(2, 4)):
            x = rng.random()
            if x < 0.12:
                op = ops.mutation_op(rng, ow)
            elif x < 0.62:
                op = ops.measure_op(rng, ow, kind=first["ops"][0]["op"] if lookalike and first is not None and k == 0 and first["ops"][0]["op"] in ops.MEASURE else None)
                if op.get("ps") is not None and rng.random() < 0.5:
                    op["save"] = rng.choice([".txt", ".npz"])
            elif x < 0.76:
                op = ops.winconv_op(rng, ow)
                if op["what"] == "mat" and (rng.random() < 0.7 or any(p.get("what") == "mat" for q in w["threads"] for p in q["ops"])):
                    op["what"] = "convolve"
            elif x < 0.88:
                op = ops.transform_op(rng, ow)
            else:
                op = ops.other_op(rng, ow)
            ow["ops"].append(op)
        w["threads"].append(ow)
        first = first or ow
    w["shared_logger"] = rng.random() < 0.5
    w["refs"] = []
    try:
        for t in range(n):
            try:
                w["refs"].append(core.call_in_fork(alone, w, t))
            except core.ChildDied as e:
                raise Violation("crash", "a single thread ends the process with %s: %s" % (core.describe_status(e.status), [describe(p) for p in w["threads"][t]["ops"]]))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    w["variants"] = 10 if tier == "quick" else 20
    w["sample"] = " | ".join(", ".join(describe(op) for op in ow["ops"]) for ow in w["threads"])
    return w


def twin(rng, first, outdir):
    """The same calls on other data of the same sizes."""
    ow = copy.deepcopy(first)
    ow["outdir"] = outdir
    for p in ow["ps"]:
        if "directories" in p:
            p["directories"]["measurements"] = outdir
    for c in ow["cats"]:
        c["seed"] = rng.randrange(10**9)
        if rng.random() < 0.3:
            c["n"] += 1
    for c in ow["wc"]:
        c["amp"] = rng.uniform(0.5, 2.)
    for op in ow["ops"]:
        if "seed" in op:
            op["seed"] = rng.randrange(10**6)
    return ow


def describe(op):
    return op["op"] + ("(" + op["what"] + ")" if "what" in op else "") + (op.get("save") or "")


def make_logger():
    from triumvirate.logger import setup_logger
    return setup_logger(10)


def files(d):
    out = {}
    if not os.path.isdir(d):
        return out
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as h:
            b = h.read()
        if f.endswith(".npz"):
            with np.load(os.path.join(d, f), allow_pickle=True) as z:
                out[f] = {k: ops.plain(z[k].item() if z[k].dtype.kind in "UO" and z[k].shape == () else z[k]) for k in z.files}
        else:
            t = ops.plain(b.decode())
            out[f] = {"header": [ln for ln in t.split("\n") if ln.startswith("#")],
                      "rows": [[float(x) for x in ln.split()] for ln in t.split("\n") if ln and not ln.startswith("#")]}
    return out


def work(w, t, logger, sink):
    """What one thread does; every outcome goes to sink."""
    ow = w["threads"][t]
    d = ow["outdir"]
    o = ops.build_objs(ow, logger)
    for op in ow["ops"]:
        if op["op"] == "mut":
            ops.do_mut(o, op)
            sink.append(("mut",))
            continue
        try:
            sink.append(("ok", ops.plain(ops.do(o, op))))
        except Exception as e:
            sink.append(("exc", type(e).__name__, ops.plain(str(e))[:300], traceback_tail()))
    return None


def traceback_tail():
    import traceback
    return traceback.format_exc()[-600:]


def prepare(w):
    ops.QUIET = False
    warnings.simplefilter("ignore")
    shutil.rmtree(w["base"], ignore_errors=True)
    for ow in w["threads"]:
        os.makedirs(ow["outdir"], exist_ok=True)
    return make_logger() if any(ow["logger"] for ow in w["threads"]) else None


HOT = {}                                     # code -> lines which use state of the module or process
SHARED = ("os", "tempfile", "shutil", "warnings", "random", "logging", "sys", "globals", "setattr", "open")


def hot_lines(frame):
    """Lines of a function which use what other threads can reach."""
    code = frame.f_code
    if code not in HOT:
        hot, ln, prev = set(), code.co_firstlineno, None
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno:
                ln = i.positions.lineno
            n = i.argval
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"):
                hot.add(ln)
            elif i.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = frame.f_globals.get(n, frame.f_builtins.get(n))
                if n in SHARED or not (v is None or callable(v) or isinstance(v, (types.ModuleType, str, int, float, complex, bytes, tuple, frozenset, type(re.compile(""))))):
                    hot.add(ln)
                prev = v
            elif i.opname in ("LOAD_ATTR", "STORE_ATTR", "LOAD_METHOD"):
                if i.opname == "STORE_ATTR" and isinstance(prev, (type, types.FunctionType, types.ModuleType)) or n == "__class__" or n in ("seterr", "default_rng", "seed"):
                    hot.add(ln)
                elif isinstance(prev, (type, types.FunctionType)) and not callable(getattr(prev, str(n), len)):
                    hot.add(ln)
                prev = None
            else:
                prev = None
        HOT[code] = hot
    return HOT[code]


def alone(w, t):
    logger = prepare(w)
    sink = []
    lines = {}
    hot = set()
    last = {}

    def tracer(frame, event, arg):
        return line if PKG in frame.f_code.co_filename else None

    def line(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            lines[k] = lines.get(k, 0) + 1
            # a line which uses shared state, and the one executed after it
            h = frame.f_lineno in hot_lines(frame)
            if h or last.get(id(frame)):
                hot.add(k)
            last[id(frame)] = h
        elif event == "return":
            last.pop(id(frame), None)
        return line
    sys.settrace(tracer)
    try:
        work(w, t, logger if w["threads"][t]["logger"] else None, sink)
    finally:
        sys.settrace(None)
    return sink, files(w["threads"][t]["outdir"]), sorted(lines.items()), [(k, lines[k]) for k in sorted(hot)]


def run(w, ctl, variant):
    try:
        body(w, ctl, variant)
    finally:
        simlock.SCHED = None
        shutil.rmtree(w["base"], ignore_errors=True)


def busy(frame):
    """Does a frame up the stack hold a lock of the interpreter (an import)?"""
    while frame is not None:
        if frame.f_code.co_filename.startswith("<frozen importlib"):
            return True
        frame = frame.f_back
    return False


def body(w, ctl, variant):
    import _thread
    logger = prepare(w)
    loggers = [None if not ow["logger"] else logger for ow in w["threads"]]
    p = (0.002, 0.01, 0.05, 0.3, 0.6, 1.)[ctl.pick("rate", 6)]
    only_calls = ctl.pick("grain", 3) == 2       # preempt between calls of the package only
    s = core.Sched(ctl, p_switch=p)
    simlock.SCHED = s
    sinks = [[] for _ in w["threads"]]
    # hunting: threads are held at seeded lines of the package until no other one can go on
    holds = {}
    if variant % 2:
        only_calls = False
        p = 0.0 if ctl.pick("calm", 3) else p
        for t in range(len(sinks)):
            seen = w["refs"][t][2]
            if seen and ctl.pick("hold", 10) < (9 if t == 0 else 5):
                hot = w["refs"][t][3]
                at = hot if hot and ctl.pick("hold_hot", 2) else seen
                k, count = at[ctl.pick("hold_line", len(at))]
                holds[t] = [k, 1 + ctl.pick("hold_at", min(count, 4))]

    nsw = [0]

    def hold(me):
        ctl.count("holds")
        ctl.nontrivial = True
        ctl.note("hold", me.idx)
        me.held = True
        s.block(lambda: not any(o is not me and not o.done and not o.held and (o.blocked is None or o.blocked()) for o in s.ts))
        me.held = False

    def yield_here(frame):
        me = s.cur
        s.steps += 1
        h = holds.get(me.idx)
        if h and h[0] == (frame.f_code.co_filename, frame.f_lineno) and not busy(frame):
            h[1] -= 1
            if h[1] == 0:
                del holds[me.idx]
                hold(me)
                return
        rs = [x for x in s._runnable() if x is not me]
        if not rs:
            return
        v = ctl.chance(s.stream, p if nsw[0] < 6000 else min(p, 0.002), len(rs))
        if not v or busy(frame):
            return
        ctl.count("switches")
        nsw[0] += 1
        ctl.nontrivial = True
        n = rs[(v - 1) % len(rs)]
        ctl.note(me.idx, n.idx, s.steps)
        s._to(me, n)
        me.lock.acquire()
        if s.aborting:
            raise SystemExit

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith("<") or f.startswith(HERE) or f.startswith(NOYIELD):
            return None
        if PKG in f:
            yield_here(frame)
            return None if only_calls else line
        if s.steps % 7 == 0:
            yield_here(frame)
        else:
            s.steps += 1
        return None

    def line(frame, event, arg):
        if event == "line":
            yield_here(frame)
        return line

    def starter(t):
        def f():
            simlock._sim_threads.add(_thread.get_ident())
            sys.settrace(tracer)
            try:
                work(w, t, loggers[t], sinks[t])
            finally:
                sys.settrace(None)
        return f
    for t in range(len(w["threads"])):
        s.spawn(starter(t), "thread %d" % t).held = False
    dead = s.run()
    simlock.SCHED = None
    ctl.count("threads", len(sinks))
    if dead:
        raise Violation("deadlock", "%s wait for each other for ever" % ", ".join(dead))
    for t, sink in enumerate(sinks):
        ref, rfiles = w["refs"][t][:2]
        e = s.ts[t].exc
        if e is not None:
            if isinstance(e, Violation):
                raise e
            raise Violation("failed", "thread %d ends with %s: %s" % (t, type(e).__name__, str(e)[:300]))
        for i, (got, want) in enumerate(zip(sink, ref)):
            what = "thread %d, step %d (%s)" % (t, i, describe(w["threads"][t]["ops"][i]))
            ctl.count("steps_checked")
            if got[0] == "exc" and want[0] == "exc":
                if got[1] != want[1]:
                    raise Violation("failed", "%s: %s, alone: %s" % (what, got[1:], want[1:3]))
                ctl.count("expected_failures")
                continue
            if got[0] != want[0]:
                raise Violation("failed", "%s: %s; alone: %s" % (what, got if got[0] == "exc" else "succeeds", want if want[0] == "exc" else "succeeds"))
            if got[0] == "ok":
                d = core.compare(got[1], want[1], TOL)
                if d:
                    raise Violation("result", "%s differs from a run alone: %s" % (what, d))
        if len(sink) != len(ref):
            raise Violation("failed", "thread %d did %d of %d steps" % (t, len(sink), len(ref)))
        got = files(w["threads"][t]["outdir"])
        d = core.compare(got, rfiles, TOL)
        ctl.count("files_checked", len(rfiles))
        if d:
            raise Violation("saved file", "thread %d: saved files differ from a run alone: %s" % (t, d))
