"""C12: window convolution matrices under simulated MPI."""
import os
import random
import sys
import warnings

import numpy as np

import core
from core import Violation
from simmpi import MpiError, RankState, SimComm, World

import tqdm as _tqdm
_tqdm.tqdm.monitor_interval = 0

from triumvirate import winconv as W  # noqa: E402

_empty = np.empty


def _nan_empty(shape, dtype=float, *a, **k):
    x = _empty(shape, dtype, *a, **k)
    if x.dtype.kind in "fc":
        x.fill(np.nan)
    elif x.dtype.kind in "iu":
        x.fill(77)
    return x


class SimFailure(Exception):
    pass


FORMULAE = {
    "a": {"000": [("000", "000", 1)]},
    "b": {"000": [("000", "000", 1), ("110", "110", "1/3")]},
    "c": {"000": [("000", "000", 1), ("000", "ic", -1), ("110", "110", "1/3")], "110": [("110", "000", 1), ("000", "110", 1), ("110", "ic", -1)]},
    "d": {"000": [("000", "000", 1), ("000", "ic", -1)], "202": [("202", "000", 1), ("000", "202", 1), ("202", "ic", -1)]},
}


def build(w, comm=None, root=0):
    from fractions import Fraction
    f = FORMULAE[w["formula"]]
    f = {k: [(q, z, Fraction(c)) for q, z, c in v] for k, v in f.items()}
    r = np.logspace(0, 2.5, w["nr"])
    qs = sorted({t[0] for v in f.values() for t in v})
    Q = {}
    for i, q in enumerate(qs):
        g = np.exp(-(r / (60. + 10 * i))**2)
        Q[q] = np.outer(g, g) * (0.9 ** i)
    if w["perpole"]:
        zs = sorted({t[1] for v in f.values() for t in v if t[1] != "ic"})
        k_in = {z: np.logspace(-2.3, -0.5, w["nk"] + 2 * (i % 2)) for i, z in enumerate(zs)}
    else:
        k_in = np.logspace(-2.3, -0.5, w["nk"])
    kw = {"lowring": w["lowring"], "extrap": w["extrap"]}
    if w["threaded"]:
        kw["threaded"] = True
    keep = dict(kw)
    wc = W.BispecWinConv(f, r, Q, k_in, k_out=None if w["kout"] == 0 else np.logspace(-2., -0.7, w["kout"]),
                         r_common=np.logspace(0.8, 2.2, w["nrc"]), transform_kwargs=kw, comm=comm, comm_root=root)
    if kw != keep:
        raise Violation("argument changed", "transform_kwargs %r became %r" % (keep, kw))
    return wc


def stub_convolve(w, wc, rank, log, ctl=None, sched=None, fail=None):
    """Quick stand-in for the convolution: every basis vector and output element has a value of its own."""
    n_out = len(wc.k_out)

    def conv(B_in, ic=None, ret_zeta=False):
        flat = np.concatenate([np.asarray(B_in[m]).ravel() for m in B_in])
        nz = np.flatnonzero(flat)
        i = int(nz[0]) if len(nz) == 1 and flat[nz[0]] == 1. else -1
        if sched is not None:
            sched.yield_(0.3)
        log.append((rank, i))
        if fail is not None and len([1 for x in log if x[0] == rank]) == fail:
            ctl.fault("rank_failure")
            raise SimFailure("simulated failure on rank %d" % rank)
        if i % w["warn_every"] == 0:
            warnings.warn("stub warning %d" % (i % 3), RuntimeWarning)
        base = np.arange(n_out * n_out, dtype=float).reshape(n_out, n_out)
        out = {}
        for j, m in enumerate(sorted(W.Multipole(m) for m in FORMULAE[w["formula"]])):
            out[m] = (i * 1000. + j * 100000. + base) + 1j * (np.cos(i + j + base) + (0 if ic is None else 0.5))
        return out
    return conv


def setup(seed, tier):
    rng = random.Random(seed)
    w = {"stub": rng.random() < 0.75, "formula": rng.choice("aabccdd"), "perpole": rng.random() < 0.3,
         "lowring": rng.random() < 0.5, "extrap": rng.choice([0, 5, 5]), "threaded": rng.random() < 0.4,
         "nr": rng.randint(6, 10), "nrc": rng.choice([6, 8]), "kout": rng.choice([0, 4, 5]),
         "concat": rng.random() < 0.5, "diag": rng.random() < 0.3, "ic": rng.random() < 0.4,
         "warn_every": rng.choice([1, 2, 5, 10**6]), "omp": rng.choice([None, "4", "1"])}
    w["nk"] = 4 if not w["stub"] else rng.choice([4, 6])
    w["real_fail"] = None
    w["variants"] = 6 if not w["stub"] else 24
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w["ref"] = core.call_in_fork(_serial, w)
    w["sample"] = "%s convolution, formula %s, %s input wavenumbers%s, concat=%s diag=%s ic=%s threaded=%s" % (
        "stand-in" if w["stub"] else "real", w["formula"], w["nk"], " per multipole" if w["perpole"] else "",
        w["concat"], w["diag"], w["ic"], w["threaded"])
    return w


def _serial(w):
    wc = build(w)
    if w["stub"]:
        wc.convolve = stub_convolve(w, wc, 0, [])
    sys.stdout = open(os.devnull, "w")
    m = wc.gen_winconv_mat(ic=w["ic"], concat=w["concat"], diag=w["diag"])
    return plain(m)


def plain(m):
    if isinstance(m, dict):
        return {str(k): np.array(v) for k, v in m.items()}
    return None if m is None else np.array(m)


def run(w, ctl, variant):
    sys.stdout = open(os.devnull, "w")
    nbasis = None
    size = 1 + ctl.pick("size", 3 if variant % 3 == 0 else 9)
    if variant % 8 == 7:
        size = 1 + ctl.pick("size2", 45)
    root = ctl.pick("root", size)
    calls = 1 + ctl.pick("calls", 2) if w["stub"] else 1
    failing = variant % 4 == 3
    sched = core.Sched(ctl, p_switch=0.3)
    world = World(ctl, sched, size)
    comms = [SimComm(world, r) for r in range(size)]
    log = []
    fails = {}
    if failing:
        fr = ctl.pick("fail_rank", size)
        how = ctl.pick("fail_how", 3)
        if how == 2:
            comms[fr].fail_at = ctl.pick("fail_coll", 8)
        else:
            fails[fr] = 1 + ctl.pick("fail_call", 8)
    if w["omp"] is None:
        os.environ.pop("OMP_NUM_THREADS", None)
    else:
        os.environ["OMP_NUM_THREADS"] = w["omp"]
    shown = {r: [] for r in range(size)}
    raised = {r: [] for r in range(size)}
    states = []
    np.empty = _nan_empty
    warnings.simplefilter("always")
    for r in range(size):
        s = RankState()
        random.seed(ctl.pick("randseed", 1000) * 100 + r)
        s.rnd = random.getstate()

        def show(message, category, filename, lineno, file=None, line=None, r=r):
            shown[r].append((str(message), category, filename, lineno))
        s.show = show
        states.append(s)

    def switch(old, new):
        if old is not None:
            states[old.idx].save()
        states[new.idx].load()
    sched.on_switch = switch
    done = {}

    def body(r):
        comm = comms[r]
        wc = build(w, comm, root)
        before = len(shown[r])
        if w["stub"]:
            inner = stub_convolve(w, wc, r, log, ctl, sched, fails.get(r))
        else:
            real = wc.convolve

            def inner(B_in, ic=None, ret_zeta=False):
                sched.yield_(0.3)
                log.append((r, -2))
                if fails.get(r) is not None and len([1 for x in log if x[0] == r]) == fails[r]:
                    ctl.fault("rank_failure")
                    raise SimFailure("simulated failure on rank %d" % r)
                return real(B_in, ic=ic, ret_zeta=ret_zeta)

        def outer(B_in, ic=None, ret_zeta=False):
            with_rec = []
            real_warn = warnings.warn
            try:
                return inner(B_in, ic=ic, ret_zeta=ret_zeta)
            finally:
                del with_rec, real_warn
        wc.convolve = outer
        out = []
        for c in range(calls):
            mat = wc.gen_winconv_mat(ic=w["ic"], concat=w["concat"], diag=w["diag"])
            out.append((plain(mat), os.environ.get("OMP_NUM_THREADS"), wc._winconv._catch_warnings if hasattr(wc._winconv, "_catch_warnings") else None, before))
            before = len(shown[r])
        done[r] = out
        return True

    for r in range(size):
        sched.spawn(lambda r=r: body(r), "rank %d" % r)
    stuck = sched.run()
    ctl.count("ranks", size)
    if size > 1:
        ctl.nontrivial = True
    ctl.note(size, root)
    np.empty = _empty
    for t in sched.ts:
        if isinstance(t.exc, Violation):
            raise t.exc
    injected = any(k.startswith("fault_") for k in ctl.ctr)
    excs = [(t.name, t.exc) for t in sched.ts if t.exc is not None and not isinstance(t.exc, SystemExit)]
    if excs and not injected:
        n, e = excs[0]
        if isinstance(e, AttributeError) and "SimComm" in str(e):
            raise RuntimeError("communicator operation not simulated: %s" % e)
        raise Violation("rank failed", "%s raised %s: %s without any failure" % (n, type(e).__name__, str(e)[:400]))
    if stuck and not injected:
        raise Violation("deadlock", "%s wait for ever (%d ranks, root %d)" % (", ".join(stuck), size, root))
    # what the root returned, failures or not
    for r, outs in done.items():
        for c, (mat, omp, _, before) in enumerate(outs):
            if r == root:
                if mat is None:
                    raise Violation("no matrix", "the root rank %d of %d returned nothing from call %d" % (root, size, c))
                d = core.compare(mat, w["ref"], 1e-10)
                if d:
                    raise Violation("matrix", "root %d of %d ranks, call %d: matrix differs from the serial one: %s" % (root, size, c, d))
            elif mat is not None:
                d = core.compare(mat, w["ref"], 1e-10)
                if d:
                    raise Violation("matrix", "rank %d of %d (root %d), call %d: matrix differs from the serial one: %s" % (r, size, root, c, d))
            if omp != w["omp"] and not injected:
                raise Violation("environment", "OMP_NUM_THREADS is %r after the call on rank %d, %r before" % (omp, r, w["omp"]))
    if injected:
        return
    if set(done) != set(range(size)):
        raise Violation("rank failed", "ranks %s did not return" % sorted(set(range(size)) - set(done)))
    if w["stub"]:
        idx = [i for _, i in log if i >= 0]
        if idx:
            n = max(idx) + 1
            cnt = np.bincount(idx, minlength=n)
            if np.any(cnt != calls):
                i = int(np.flatnonzero(cnt != calls)[0])
                raise Violation("work division", "basis vector %d was convolved %d times in %d calls on %d ranks" % (i, cnt[i], calls, size))
        # the stand-in's warnings are shown on the root only, once each per call
        mine = {r: {"stub warning %d" % (i % 3) for rr, i in log if rr == r and i % w["warn_every"] == 0} for r in range(size)}
        anyone = set().union(*mine.values())
        for r in range(size):
            got = [m for m, c, f, l in shown[r] if m.startswith("stub warning")]
            for m in set(got):
                if r != root:
                    raise Violation("warnings", "rank %d of %d (root %d) shows %r" % (r, size, root, m))
                if got.count(m) > calls:
                    raise Violation("warnings", "the root shows %r %d times in %d calls" % (m, got.count(m), calls))
                if m not in anyone:
                    raise Violation("warnings", "the root shows %r which nobody raised" % m)
            if r == root and mine[r] - set(got):
                raise Violation("warnings", "the root does not show %s raised on it" % sorted(mine[r] - set(got)))
