#!/usr/bin/env python3
"""Driver of the simulations of the Python package (see core.py)."""
import argparse
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CAMPAIGNS = {"mpi": ("C12", "c_mpi"), "history": ("C14", "c_hist"), "save": ("C13", "c_save"), "threads": ("C15", "c_thread"), "pytrans": ("C16", "c_trans"), "pyclock": ("C17", "c_clock")}


def clock_shim():
    """The library which stands in for the system clock."""
    import subprocess
    src = os.path.join(HERE, "clockshim.c")
    with open(src, "rb") as f:
        h = hashlib.blake2b(f.read(), digest_size=8).hexdigest()
    d = os.path.join(os.path.dirname(HERE), "build")
    so = os.path.join(d, "clockshim-%s.so" % h)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, so)
    return so


def env_ok():
    want = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
            "TZ": "UTC", "LC_ALL": "C.UTF-8", "TRV_PYSIM": "1", "MPLBACKEND": "Agg", "PYTHONNOUSERSITE": "1"}
    if "pyclock" in sys.argv or any(os.path.basename(a).startswith("pyclock-") for a in sys.argv):
        want["LD_PRELOAD"] = clock_shim()
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    os.environ.update(want)
    for k in ("TRV_INTERACTIVE", "PYTHONPATH"):
        os.environ.pop(k, None)
    os.execv(sys.executable, [sys.executable] + sys.argv)


def seed_of(base, i):
    return int.from_bytes(hashlib.blake2b(("%d/%d" % (base, i)).encode(), digest_size=7).digest(), "little")


RUN_LIMIT = 100         # seconds of real time: a run takes less than ten


class Session:
    def __init__(self, a):
        self.a = a
        self.prop, modname = CAMPAIGNS[a.campaign]
        sys.path.insert(0, a.pydir)
        sys.path.insert(1, HERE)
        import core
        self.core = core
        self.mod = importlib.import_module(modname)
        import triumvirate
        core.still_planner()
        assert triumvirate.__file__.startswith(os.path.abspath(a.pydir) + "/"), triumvirate.__file__

    def one(self, w, seed, variant, trace=None):
        """One run in its own process: (kind, detail, trace, ctr, hash, nontrivial, sim_ns)."""
        core = self.core

        def body():
            ctl = core.Ctl("%d/%d" % (seed, variant), trace)
            kind = detail = None
            try:
                self.mod.run(w, ctl, variant)
            except core.Violation as e:
                kind, detail = e.kind, e.detail
            return kind, detail, ctl.trace, ctl.ctr, ctl.h.hexdigest(), ctl.nontrivial, ctl.sim_ns
        try:
            return core.call_in_fork(body, timeout=RUN_LIMIT)
        except core.ChildDied as e:
            if e.timeout:
                return "hang", "the run did not end within %d s" % RUN_LIMIT, trace, {}, "", True, 0
            return "crash", "the process ended with " + core.describe_status(e.status), trace, {}, "", True, 0

    def trace_of_crash(self, w, seed, variant):
        return None

    def minimise(self, w, seed, variant, trace, kind, secs):
        end = time.monotonic() + secs
        tests = 0

        def bad(t):
            nonlocal tests
            tests += 1
            return self.one(w, seed, variant, t)[0] == kind
        if trace is None:
            return None, tests, False
        if not bad(dict(trace)):
            return trace, tests, False
        keys = sorted(trace, key=lambda k: (k.split("#")[0], int(k.split("#")[1])))
        cur = list(keys)
        chunk = max(1, len(cur) // 2)
        if cur and bad({}):
            return {}, tests, True
        while chunk >= 1 and time.monotonic() < end and cur:
            i = 0
            hit = False
            while i < len(cur) and time.monotonic() < end:
                cand = cur[:i] + cur[i + chunk:]
                if bad({k: trace[k] for k in cand}):
                    cur, hit = cand, True
                else:
                    i += chunk
            if chunk == 1 and not hit:
                break
            chunk = max(1, chunk // 2) if chunk > 1 else 1
        return {k: trace[k] for k in cur}, tests, True

    def setup(self, seed):
        return self.mod.setup(seed, self.a.tier)


def main():
    env_ok()
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay"])
    ap.add_argument("file", nargs="?")
    ap.add_argument("--campaign")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--secs", type=float, default=20)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--cpu", type=int, default=-1)
    ap.add_argument("--replaydir", default="/tmp")
    ap.add_argument("--pydir", required=True)
    ap.add_argument("--maxviol", type=int, default=3)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.cpu >= 0:
        try:
            os.sched_setaffinity(0, {a.cpu})
        except OSError:
            pass
    rep = None
    if a.cmd == "replay":
        rep = json.load(open(a.file))
        a.campaign, a.tier = rep["campaign"], rep["tier"]
    out = os.fdopen(os.dup(1), "w")
    if not a.v:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        if not os.environ.get("PYSIM_STDERR"):
            os.dup2(null, 2)
        sys.stdout = open(1, "w", closefd=False)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()
    S = Session(a)
    if rep:
        w = S.core.call_in_fork_setup(S, rep["seed"]) if hasattr(S.core, "call_in_fork_setup") else S.setup(rep["seed"])
        r = S.one(w, rep["seed"], rep["variant"], rep["trace"])
        if r[0] is None:
            out.write("no violation\n")
            sys.exit(0)
        out.write("%s: %s\n" % (r[0], r[1]))
        out.write("VIOLATION property=%s replay=%s\n" % (S.prop, a.file))
        sys.exit(1)
    t0 = time.monotonic()
    i = a.start
    nviol = 0
    while time.monotonic() - t0 < a.secs and nviol < a.maxviol:
        seed = a.case if a.case is not None else seed_of(a.seed, i)
        i += a.stride
        c0 = time.monotonic()
        try:
            w = S.setup(seed)
        except S.core.Violation as e:
            emit({"t": "violation", "property": S.prop, "campaign": a.campaign, "seed": seed, "variant": -1, "kind": e.kind, "detail": e.detail,
                  "replay": "", "reproduced": False, "events": 0, "original_events": 0, "tests": 0, "sample": ""})
            nviol += 1
            continue
        except S.core.ChildDied as e:
            w = None
            emit({"t": "error", "detail": "setup of case %d: %s" % (seed, S.core.describe_status(e.status))})
            if a.case is not None:
                break
            continue
        except Exception as e:
            import traceback
            emit({"t": "error", "detail": "setup of case %d: %s" % (seed, (traceback.format_exc() if a.v else repr(e))[-1500:])})
            if a.case is not None:
                break
            continue
        ctr, hashes, sim = {"cases": 1}, [], 0
        for v in range(w["variants"]):
            if time.monotonic() - t0 > a.secs + 60:
                break
            try:
                kind, detail, trace, c, h, nt, ns = S.one(w, seed, v)
            except Exception as e:
                emit({"t": "error", "detail": "case %d variant %d: %s" % (seed, v, str(e)[-1500:])})
                continue
            for k, n in c.items():
                ctr[k] = ctr.get(k, 0) + n
            ctr["variants"] = ctr.get("variants", 0) + 1
            sim += ns
            if nt:
                hashes.append(h)
            if kind:
                if trace is None:
                    # the process died: record the decisions by running it again with an external log
                    trace = crash_trace(S, w, seed, v)
                if kind == "hang":       # not minimised: it takes too long
                    m, tests, ok = trace, 0, bool(trace)
                else:
                    m, tests, ok = S.minimise(w, seed, v, trace, kind, 25 if a.tier == "quick" else 120)
                path = os.path.join(a.replaydir, "%s-%d-%d.replay" % (a.campaign, seed, v))
                with open(path, "w") as f:
                    json.dump({"format": "trvpysim-replay", "property": S.prop, "campaign": a.campaign, "seed": seed, "variant": v,
                               "tier": a.tier, "kind": kind, "detail": detail, "trace": m, "workload": w.get("sample", "")}, f, indent=1)
                    f.write("\n")
                emit({"t": "violation", "property": S.prop, "campaign": a.campaign, "seed": seed, "variant": v, "kind": kind, "detail": detail,
                      "replay": path, "reproduced": ok, "events": len(m or {}), "original_events": len(trace or {}), "tests": tests, "sample": w.get("sample", "")})
                nviol += 1
                break
        emit({"t": "case", "campaign": a.campaign, "seed": seed, "sim_ns": sim, "ctr": ctr, "hash": hashes, "sample": w.get("sample", ""),
              "wall": round(time.monotonic() - c0, 3)})
        if a.case is not None:
            break
    emit({"t": "end", "wall": round(time.monotonic() - t0, 3)})


def crash_trace(S, w, seed, variant):
    """Decisions of a run whose process dies: they are sent out one by one."""
    core = S.core
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            ctl = core.Ctl("%d/%d" % (seed, variant), None)
            orig = ctl.decide

            def decide(stream, gen):
                key = "%s#%d" % (stream, ctl.pos.get(stream, 0))
                v = orig(stream, gen)
                if v:
                    os.write(wfd, ("%s=%d\n" % (key, v)).encode())
                return v
            ctl.decide = decide
            S.mod.run(w, ctl, variant)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    end = time.monotonic() + RUN_LIMIT
    while True:
        if not select.select([rfd], [], [], max(0, end - time.monotonic()))[0]:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(rfd, 65536)
        if not d:
            break
        data += d
    os.close(rfd)
    os.waitpid(pid, 0)
    return {k: int(v) for k, v in (ln.rsplit("=", 1) for ln in data.decode().split("\n") if ln)}


if __name__ == "__main__":
    main()
