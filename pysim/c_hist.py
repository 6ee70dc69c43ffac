"""C14: histories of Python calls on shared objects, with failing calls in between."""
import os
import random
import resource
import sys
import tempfile
import shutil
import warnings

import numpy as np

import core
import ops
from core import Violation

TOL = 1e-9
PKG = os.sep + "triumvirate" + os.sep


def setup(seed, tier):
    rng = random.Random(seed)
    w = ops.make_world(rng)
    w["ops"] = []
    for _ in range(rng.randint(5, 9)):
        x = rng.random()
        w["ops"].append(ops.measure_op(rng, w) if x < 0.62 else ops.winconv_op(rng, w) if x < 0.8 else
                        ops.transform_op(rng, w) if x < 0.86 else ops.other_op(rng, w))
    for op in w["ops"]:
        if op["op"] in ops.MEASURE and op.get("ps") is not None:
            op["psdict"] = rng.random() < 0.2
    w["muts"] = [ops.mutation_op(rng, w) for _ in range(3)]
    # changes of what an operation uses: (operation, changes)
    w["targeted"] = [(i, [ops.mutation_op(rng, w, op) for _ in range(2)]) for i, op in enumerate(w["ops"]) if op["op"] in ops.MEASURE]
    # calls like an earlier one but for one ingredient
    w["twins"] = []
    for i in rng.sample(range(len(w["ops"])), 2):
        w["ops"].append(ops.twin_op(rng, w, w["ops"][i]))
        w["twins"].append((i, len(w["ops"]) - 1))
    w["variants"] = 6 if tier == "quick" else 16
    w["tier"] = tier
    w["refs"] = {}
    w["usable"] = []
    for i, op in enumerate(w["ops"]):
        w["refs"][i] = fresh(w, [], op)
        w["usable"].append(i)
    w["sample"] = ", ".join(describe(op) for op in w["ops"])
    return w


def fresh(w, muts, op):
    """What the call does in a process of its own: ("ok", values) or ("exc", type, message)."""
    try:
        return core.call_in_fork(reference, w, muts, op)
    except core.ChildDied as e:
        raise Violation("crash", "a fresh process ends with %s in %s%s" % (
            core.describe_status(e.status), describe(op), " after %s" % [m["what"] for m in muts] if muts else ""))


def describe(op):
    return op["op"] + ("(" + op["what"] + ")" if "what" in op else "")


def make_logger(w):
    if not w["logger"]:
        return None
    from triumvirate.logger import setup_logger
    lg = setup_logger(20)
    return lg


def reference(w, muts, op):
    """What a fresh process returns."""
    o = ops.build_objs(w, make_logger(w))
    for m in muts:
        ops.do_mut(o, m)
    try:
        return "ok", ops.plain(ops.do(o, op))
    except Exception as e:
        return "exc", type(e).__name__, str(e)[:300]


class Injected(BaseException):
    pass


def bad_call(rng_pick, w, op):
    """A variation of the operation which has to fail."""
    bad = dict(op)
    kinds = ["los", "norange", "type", "save", "degree", "sp"]
    k = kinds[rng_pick % len(kinds)]
    if op["op"] not in ops.MEASURE:
        return None, None
    if k == "los":
        if op["op"] in ops.BOX2 or op["op"] in ops.BOX3:
            return None, None
        bad["extra"] = {"los_rand": np.zeros((3, 3))}
        if op["op"] in ops.SURVEY2 or op["op"] in ops.SURVEY3:
            bad["extra"] = {"los_data": np.zeros((1, 2))}
    elif k == "norange":
        bad["extra"] = {"binning": None, "paramset": None}
    elif k == "type":
        bad["extra"] = {"sampling_params": {"boxsize": [100.] * 3, "ngrid": [8, 8, "x"], "assignment": "cic"}}
    elif k == "save":
        bad["extra"] = {"save": ".doc"}
    elif k == "degree":
        bad["extra"] = {"degree": -3} if "form" not in op else {"degrees": (-1, 0, 0), "form": op["form"]}
    elif k == "sp":
        bad["extra"] = {"sampling_params": {"boxsize": [-1.] * 3, "ngrid": [8] * 3, "assignment": "none"}}
    return bad, k


def process_state(logger=None):
    import logging
    lg = getattr(logger, "logger", logger)
    return {"logging": [(x.level, x.propagate, x.disabled, len(x.handlers), [h.level for h in x.handlers]) for x in [logging.getLogger()] + ([lg] if lg is not None else [])],
            "env": dict(os.environ), "cwd": os.getcwd(), "filters": len(warnings.filters), "filters left": list(ops.FILTERS), "show": warnings.showwarning is SHOW,
            "err": dict(np.geterr()), "rand": hash(random.getstate()), "nprand": hash(np.random.get_state()[1].tobytes())}


SHOW = warnings.showwarning


def run(w, ctl, variant):
    global SHOW
    n = 2 + ctl.pick("len", 5 if w["tier"] == "quick" else 9)
    faulty = variant % 2 == 1
    steps = []
    muts = []
    while len(steps) < n:
        x = ctl.pick("kind", 100)
        if x < 30 and w["targeted"]:
            # a call, a change of something it uses, and the call again
            j, ms = w["targeted"][ctl.pick("target", len(w["targeted"]))]
            steps += [("op", j), ("mut", ms[ctl.pick("targetmut", len(ms))]), ("op", j)]
            continue
        if x < 50:
            # a call, one like it, and the call again
            i, j = w["twins"][ctl.pick("twin", len(w["twins"]))]
            steps += [("op", i), ("op", j), ("op", i)]
            continue
        if x >= 88 and w["muts"]:
            m = w["muts"][ctl.pick("mut", len(w["muts"]))]
            steps.append(("mut", m))
            continue
        j = w["usable"][ctl.pick("op", len(w["usable"]))]
        if faulty and ctl.pick("faultq", 2):
            f = ctl.pick("faultkind", 3)
            if f == 0:
                bad, why = bad_call(ctl.pick("bad", 6), w, w["ops"][j])
                if bad is not None:
                    steps.append(("bad", bad, why))
                    continue
            elif f == 1 and w["ops"][j]["op"] in ops.MEASURE:
                steps.append(("mem", w["ops"][j]))
                continue
            elif f == 2:
                steps.append(("async", w["ops"][j], ctl.pick("at", 400)))
                continue
        steps.append(("op", j))
    # references of the calls after explicit changes, from fresh processes
    refs = {}
    for s in steps:
        if s[0] == "mut":
            muts = muts + [s[1]]
        elif s[0] == "op" and muts:
            key = (s[1], len(muts))
            if key not in refs:
                refs[key] = fresh(w, muts, w["ops"][s[1]])
    logger = make_logger(w)
    warnings.simplefilter("ignore")
    SHOW = warnings.showwarning
    o = ops.build_objs(w, logger)
    proc = process_state(logger)
    before = ops.state(o)
    nmut = 0
    returned = []
    hist = []

    def check_unchanged(what):
        after = ops.state(o)
        # lines of sight and sampling parameters are created on first use
        for grp in before:
            b, a = before[grp], after[grp]
            if isinstance(b, dict):
                for k in b:
                    d = same(b[k], a.get(k), "%s %s" % (grp, k))
                    if d:
                        raise Violation("argument changed", "%s changed %s (history: %s)" % (what, d, hist))
                before[grp] = a
                continue
            for i, (x, y) in enumerate(zip(b, a)):
                d = same(x, y, "%s %d" % (grp, i))
                if d:
                    raise Violation("argument changed", "%s changed %s (history: %s)" % (what, d, hist))
        p = process_state(logger)
        if p != proc:
            ks = [k for k in p if p[k] != proc[k]]
            raise Violation("process state", "%s changed %s: %s" % (what, ks, [(str(proc[k])[-200:], str(p[k])[-200:]) for k in ks][:1]))
        for nm, arr, snap in o.keep:
            d = same(ops.plain(arr), snap, nm)
            if d:
                raise Violation("argument changed", "%s changed %s (history: %s)" % (what, d, hist))

    for s in steps:
        if s[0] == "mut":
            ops.do_mut(o, s[1])
            nmut += 1
            hist.append(s[1]["what"])
            before = ops.state(o)
            ctl.count("mutations")
            continue
        ctl.count("steps")
        o.keep = []
        if s[0] == "op":
            op = w["ops"][s[1]]
            kept = None
            ref = w["refs"][s[1]] if nmut == 0 else refs[(s[1], nmut)]
            try:
                res = ops.do(o, op)
            except Exception as e:
                if ref[0] == "ok" or type(e).__name__ != ref[1]:
                    raise Violation("failed", "%s fails after %s: %s: %s; a fresh process: %s" % (describe(op), hist, type(e).__name__, str(e)[:300], ref[:1] if ref[0] == "ok" else ref))
                res = None
                ctl.count("expected_failures")
            else:
                if ref[0] != "ok":
                    raise Violation("result", "%s succeeds after %s but fails in a fresh process: %s" % (describe(op), hist, ref[1:]))
                got = ops.plain(res)
                d = core.compare(got, ref[1], TOL)
                if d:
                    raise Violation("result", "%s after %s differs from a fresh process: %s" % (describe(op), hist, d))
                returned.append((describe(op), res, got))
                if ctl.pick("scribble", 3) == 2:
                    ops.scribble(res)
                    returned.pop()
            hist.append(describe(op))
            check_unchanged(describe(op))
            ctl.note(s[1])
            if len(hist) > 1:
                ctl.nontrivial = True
            continue
        if s[0] == "bad":
            what = "failing %s (%s)" % (describe(s[1]), s[2])
            try:
                ops.do(o, s[1])
            except Exception:
                ctl.fault("bad_argument")
            else:
                ctl.count("bad_accepted")
        elif s[0] == "mem":
            op = dict(s[1])
            sp = dict(op["sp"])
            sp["ngrid"] = [3000, 3000, 3000]
            sp.pop("cutoff_nyq", None)
            op["extra"] = {"sampling_params": sp}
            what = "%s without memory" % describe(op)
            lim = resource.getrlimit(resource.RLIMIT_AS)
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, lim[1]))
            try:
                ops.do(o, op)
            except MemoryError:
                ctl.fault("allocation")
            except Exception as e:
                ctl.count("mem_other_" + type(e).__name__)
            finally:
                resource.setrlimit(resource.RLIMIT_AS, lim)
            o.sps.pop(repr(sp), None)
        else:
            op, at = s[1], s[2]
            what = "interrupted %s" % describe(op)
            seen = [0]

            def tracer(frame, event, arg):
                if PKG not in frame.f_code.co_filename:
                    return None
                return line

            def line(frame, event, arg):
                if event == "line":
                    seen[0] += 1
                    if seen[0] == at + 1:
                        sys.settrace(None)
                        raise Injected()
                return line
            # objects made by the call itself are dropped
            wcs, trs = dict(o.wc), dict(o.tr)
            try:
                sys.settrace(tracer)
                ops.do(o, op)
            except Injected:
                ctl.fault("interrupt")
            except Exception:
                ctl.count("failed_before_interrupt")
            finally:
                sys.settrace(None)
            o.wc, o.tr = wcs, trs
        hist.append(what)
        check_unchanged(what)
        ctl.note(what)
    # what was returned earlier has not changed since
    for nm, res, got in returned:
        d = same(ops.plain(res), got, nm)
        if d:
            raise Violation("earlier result changed", "the result returned by %s" % d)


def same(a, b, path):
    """Bitwise comparison."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return "%s: keys %s and %s" % (path, list(a), list(b) if isinstance(b, dict) else b)
        for k in a:
            d = same(a[k], b[k], "%s[%s]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %s became %s" % (path, str(a)[:100], str(b)[:100])
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
            return "%s: %s became %s" % (path, str(a)[:150], str(b)[:150])
        return None
    if type(a) is not type(b) or not (a == b or (a != a and b != b)):
        return "%s: %r became %r" % (path, a, b)
    return None
