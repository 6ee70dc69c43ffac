"""C17: jumps and stalls of the clock while the Python package is at work."""
import ctypes
import os
import random
import re
import shutil
import sys
import warnings

import numpy as np

import core
import ops
from core import Violation
from c_thread import files, traceback_tail

TOL = 1e-9
BASE = 1_750_000_000_000_000_000
STEPS = [1000, 50_000_000, 1_500_000_000]                  # ns per reading
JUMPS = [1_000, 400_000_000, 59_000_000_000, 3_600_000_000_000, 86_400_000_000_000 * 3, 31_000_000_000_000_000, 900_000_000_000_000_000, 1_800_000_000_000_000_000, 1_000_000_000]
LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(None)
        LIB.trv_clock_arm.argtypes = [ctypes.c_longlong, ctypes.c_longlong, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        LIB.trv_clock_disarm.restype = ctypes.c_longlong
    return LIB


def setup(seed, tier):
    rng = random.Random(seed)
    base = "/tmp/trvclk.%d" % os.getpid()
    w = ops.make_world(rng, outdir=base)
    w["base"], w["tier"] = base, tier
    w["logger"] = rng.random() < 0.85
    w["level"] = rng.choice([0, 10, 15, 20])
    w["step"] = rng.choice(STEPS)
    w["ops"] = []
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        op = ops.measure_op(rng, w) if x < 0.8 else ops.winconv_op(rng, w) if x < 0.9 else ops.other_op(rng, w)
        if op["op"] in ops.MEASURE:
            op["logger"] = w["logger"]
            if op.get("ps") is None and rng.random() < 0.6:
                op["ps"] = ops.add_paramset(rng, w, op)
            if op.get("ps") is not None:
                p = w["ps"][op["ps"]]
                p["verbose"] = rng.choice([10, 15, 20])
                p["progbar"] = rng.choice([False, True, True, 10])
                if rng.random() < 0.5:
                    op["save"] = rng.choice([".txt", ".npz"])
        w["ops"].append(op)
    try:
        w["ref"] = core.call_in_fork(work, w, [])
    except core.ChildDied as e:
        raise Violation("crash", "with a steady clock the process ends with %s" % core.describe_status(e.status))
    w["variants"] = 8 if tier == "quick" else 24
    w["sample"] = ", ".join(op["op"] for op in w["ops"])
    return w


def work(w, jumps):
    """Outcomes, files, log and number of clock readings of a run."""
    import triumvirate.logger as tl
    from triumvirate.logger import setup_logger
    warnings.simplefilter("ignore")
    shutil.rmtree(w["base"], ignore_errors=True)
    os.makedirs(w["base"])
    out = os.path.join(w["base"], "stdout.log")
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    n = len(jumps)
    arr = (ctypes.c_longlong * max(1, n))
    L = lib()
    L.trv_clock_arm(BASE, w["step"], n, arr(*[j[0] for j in jumps]), arr(*[j[1] for j in jumps]), (ctypes.c_int * max(1, n))(*[j[2] for j in jumps]))
    sink = []
    try:
        for k in vars(tl).values():          # the time the package was imported
            if isinstance(k, type) and hasattr(k, "_start_time"):
                k._start_time = BASE / 1e9
        logger = setup_logger(w["level"]) if w["logger"] else None
        o = ops.build_objs(w, logger)
        for op in w["ops"]:
            try:
                sink.append(("ok", ops.plain(ops.do(o, op))))
            except Exception as e:
                sink.append(("exc", type(e).__name__, ops.plain(str(e))[:300], traceback_tail()))
    finally:
        reads = L.trv_clock_disarm()
    sys.stdout.flush()
    sys.stderr.flush()
    L.fflush(None)
    with open(out, errors="replace", newline="") as h:
        text = h.read()
    os.remove(out)
    fs = files(w["base"])
    shutil.rmtree(w["base"], ignore_errors=True)
    return sink, fs, text, reads


STAMP = re.compile(r"\[[0-9][^\]\n]*\(\+?[^)\n]*\)[^\]\n]*\]")
TQDM = re.compile(r"\r?[^\r\n|]*\|[^|\r\n]*\| *[0-9]+/[0-9]+ \[[^\]\r\n]*\] *")
BAR = re.compile(r"(\r|\x1b\[[0-9]*[A-Za-z])[^\r\n]*")


def messages(text):
    # bars are drawn as often as the clock allows (and tqdm ends one without
    # a line feed when the clock has gone back since it started)
    text = ops.plain(STAMP.sub("[]", BAR.sub("", TQDM.sub("", text))))
    return "\n".join(x for x in text.split("\n") if x.strip())


def run(w, ctl, variant):
    sink0, files0, text0, reads0 = w["ref"]
    n = 1 + ctl.pick("n", 6)
    rate = max(1, reads0 // 8)
    jumps, at = [], 0
    for k in range(n):
        d = ctl.chance("jump", 0.9, 4 * len(JUMPS))
        at += 1 + ctl.pick("gap", 2 * rate)
        if not d:
            continue
        d -= 1
        ns = JUMPS[d % len(JUMPS)]
        if d // len(JUMPS) == 3:
            ns = min(ns, JUMPS[5])
            jumps.append((at, ns, 1))
            ctl.fault("clock_stall")
        elif d // len(JUMPS) == 2:
            jumps.append((at, ns, 0))
            ctl.fault("clock_forward")
        else:
            jumps.append((at, -ns, 0))
            ctl.fault("clock_backward")
    ctl.note(jumps)
    try:
        sink, fs, text, reads = core.call_in_fork(work, w, jumps)
    except core.ChildDied as e:
        raise Violation("crash", "the process ends with %s when the clock jumps: %s" % (core.describe_status(e.status), jumps))
    finally:
        shutil.rmtree(w["base"], ignore_errors=True)
    ctl.sim_ns += reads * w["step"] + sum(abs(j[1]) for j in jumps if j[0] <= reads)
    ctl.count("clock_reads", reads)
    ctl.count("calls", len(sink))
    for i, (got, want) in enumerate(zip(sink, sink0)):
        what = "%s, clock jumps %s" % (w["ops"][i]["op"], jumps)
        if got[0] != want[0] or got[0] == "exc" and got[1] != want[1]:
            raise Violation("failed", "%s: %s; with a steady clock: %s" % (what, got if got[0] == "exc" else "succeeds", want if want[0] == "exc" else "succeeds"))
        if got[0] == "ok":
            d = core.compare(got[1], want[1], TOL)
            if d:
                raise Violation("result", "%s: %s" % (what, d))
    d = core.compare(fs, files0, TOL)
    if d:
        raise Violation("saved file", "clock jumps %s: %s" % (jumps, d))
    if "Logging error" in text or "Traceback" in text and "Traceback" not in text0:
        raise Violation("logging", "clock jumps %s: %s" % (jumps, text[max(0, text.find("Traceback") - 100):][:900]))
    for p in re.findall(r"(-?[0-9.]+) ?%", text):
        if not 0 <= float(p) <= 100:
            raise Violation("progress", "progress of %s%% is reported" % p)
    a, b = messages(text), messages(text0)
    if a != b:
        la, lb = a.split("\n"), b.split("\n")
        i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        raise Violation("log", "clock jumps %s: line %d of the log is %r instead of %r" % (jumps, i, la[i:i + 1], lb[i:i + 1]))
    ctl.count("log_lines", text.count("\n"))
