"""C16: histories of calls on transform objects of the Python package, compared
with fresh objects in fresh processes, with failing and interrupted calls in
between."""
import gc
import random
import sys
import warnings

import numpy as np

import core
import ops
from core import Violation
from c_hist import same, Injected, PKG

import triumvirate._arrayops as arrayops
from triumvirate import transforms

TOL = 1e-9
FORMS = ["plain", "strided", "reversed", "readonly", "list", "float32", "int", "complex", "bigendian", "transposed"]
EXT1 = ["extrap_lin", "extrap_loglin", "extrap_loglin_oscil"]
EXT2 = ["extrap2d_lin", "extrap2d_loglin", "extrap2d_loglin_oscil"]


def setup(seed, tier):
    rng = random.Random(seed)
    w = {"wc": [], "tr": [], "tier": tier, "calls": []}
    nobj = rng.randint(1, 4)
    for i in range(nobj):
        if i and rng.random() < 0.3:        # same shape, other options
            t = dict(rng.choice(w["tr"]))
            t[rng.choice(["lowring", "threaded"])] = rng.random() < 0.5
            t["extrap"] = rng.choice([0, 1, 2, 3, 4, 5])
            w["tr"].append(t)
        else:
            ops.add_transform(rng, w)
        t = w["tr"][-1]
        if t["kind"] == "H" and t["extrap"] > 3:
            t["extrap"] = rng.choice([1, 2, 3])
        t["pivot"] = rng.choice([1., 1., 0.5, 3.])
        t["layer"] = rng.choice(["outer", "native"]) if t["kind"] == "S" else None
        if t["layer"] == "native" and t["extrap"] > 3:
            t["extrap"] = 3
    for _ in range(rng.randint(4, 8)):
        x = rng.random()
        if x < 0.72:
            i = rng.randrange(nobj)
            w["calls"].append({"do": "t", "tr": i, "what": rng.choice(["t", "t", "c+", "c-", "cf", "cb"]), "seed": rng.randrange(10**6), "form": rng.choice(FORMS)})
        elif x < 0.84:
            w["calls"].append({"do": "wc", "op": dict(ops.winconv_op(rng, w), what=rng.choice(["convolve", "ret"]))})
        elif x < 0.93:
            w["calls"].append({"do": "ext", "f": rng.choice(EXT1 + EXT2), "seed": rng.randrange(10**6), "n": rng.choice([8, 11]), "m": rng.choice([1, 4]), "form": rng.choice(FORMS)})
        else:
            w["calls"].append({"do": "res", "f": rng.choice(["resample_lglin", "resample_lin"]), "seed": rng.randrange(10**6), "size": rng.choice([None, 5, 20]), "d2": rng.random() < 0.5, "form": rng.choice(FORMS)})
    w["refs"] = []
    for c in w["calls"]:
        try:
            w["refs"].append(core.call_in_fork(reference, w, c))
        except core.ChildDied as e:
            raise Violation("crash", "a fresh process ends with %s in %s" % (core.describe_status(e.status), describe(w, c)))
    w["variants"] = 10 if tier == "quick" else 25
    w["sample"] = ", ".join(describe(w, c) for c in w["calls"])
    return w


def describe(w, c):
    if c["do"] == "t":
        t = w["tr"][c["tr"]]
        return "%s%d.%s(%s)" % (t["kind"], c["tr"], c["what"], c["form"])
    return c["f"] if "f" in c else "winconv(%s)" % c["op"]["what"]


def build(t):
    if t["kind"] == "bad":
        raise KeyError
    x = np.logspace(-2, 1, t["n"])
    kw = {"lowring": t["lowring"], "extrap": t["extrap"], "extrap_exp": t["extrap_exp"], "threaded": t["threaded"]}
    if t["kind"] == "H":
        from triumvirate._fftlog import HankelTransform
        return HankelTransform(t["deg"] + 0.5, t["bias"], x, t["pivot"], **kw)
    if t["kind"] == "S":
        return transforms.SphericalBesselTransform(t["deg"], t["bias"], x, pivot=t["pivot"], extrap_layer=t["layer"], **kw)
    return transforms.DoubleSphericalBesselTransform((t["deg"], t["deg2"]), (t["bias"], t["bias"]), x, pivot=t["pivot"], extrap2d=t["extrap2d"], **kw)


def give(f, form):
    """The values in the requested kind of array."""
    f = np.array(f)
    if form == "strided":
        g = np.full(tuple(2 * s for s in f.shape), -7.5, dtype=f.dtype)
        g = g[tuple(slice(0, None, 2) for _ in f.shape)]
        g[...] = f
        return g
    if form == "reversed":
        sl = tuple(slice(None, None, -1) for _ in f.shape)
        return f[sl].copy()[sl]
    if form == "readonly":
        f.flags.writeable = False
        return f
    if form == "list":
        return f.tolist()
    if form == "float32":
        return f.astype(np.float32)
    if form == "int":
        return np.ceil(1000 * f).astype(np.int64) + 1
    if form == "complex":
        return f + 0j
    if form == "bigendian":
        return f.astype(">f8")
    if form == "transposed":
        return np.asfortranarray(f)
    return f


def values(n, seed, d2=False):
    r = np.random.default_rng(seed)
    x = np.logspace(-2, 1, n)
    f = x**r.uniform(0.5, 1.5) * np.exp(-x * r.uniform(0.5, 2)) + 0.01
    if d2:
        y = np.exp(-x * r.uniform(0.1, 1))
        f = np.outer(f, y)
    return f


def refill(f, bufs, keep, name=None):
    """The user's own array of an earlier call, with the values of f."""
    if bufs is None:
        return f
    if isinstance(f, dict):
        return {k: refill(v, bufs, keep, str(k)) for k, v in f.items()}
    if isinstance(f, np.ndarray):
        if not f.flags.writeable:
            return f
        key = (name, f.shape, f.dtype.str, f.strides)
        b = bufs.setdefault(key, f)
        if b is not f:
            b[...] = f
    else:
        b = bufs.setdefault((len(f), type(f[0])), f)
        if b is not f:
            b[:] = f
    keep[:] = [x for x in keep if x[1] is not b and not (isinstance(x[1], dict) and any(v is b for v in x[1].values()))]
    return b


def call(w, objs, c, keep, bufs=None):
    """Execute a call on existing objects (made on first use)."""
    with ops.quiet():
        if c["do"] == "t":
            t = w["tr"][c["tr"]]
            if c["tr"] not in objs:
                objs[c["tr"]] = build(t)
            o = objs[c["tr"]]
            f = give(values(t["n"], c["seed"], t["kind"] == "D"), c["form"])
            f = refill(f, bufs, keep)
            keep.append(("input of %s" % describe(w, c), f, snapshot(f)))
            if t["kind"] == "H":
                if c["form"] in ("complex", "strided"):
                    f = give(np.asarray(f) * (1 + 0.5j) if not t["extrap"] else f, c["form"])
                    keep.append(("input", f, snapshot(f)))
                return o.transform(f)
            d = {"c+": 1, "c-": -1, "cf": "forward", "cb": "backward"}.get(c["what"])
            return o.transform(f) if d is None else o.transform_cosmo_multipoles(d, f)
        if c["do"] == "wc":
            op = c["op"]
            key = ("wc", op["wc"])
            if key not in objs:
                objs[key] = ops.build_winconv(w["wc"][op["wc"]])
            k = []
            out = ops.do_winconv(objs[key], w["wc"][op["wc"]], op, k, None if bufs is None else lambda d: refill(d, bufs, keep))
            for nm, src, snap in k:
                keep.append((nm, src, snap))
            return out
        if c["do"] == "ext":
            f = give(values(c["n"], c["seed"], c["f"] in EXT2), c["form"])
            f = refill(f, bufs, keep)
            keep.append(("input of %s" % c["f"], f, snapshot(f)))
            return getattr(arrayops, c["f"])(f, c["m"])
        x = np.logspace(-1, 1, 12)
        f = give(values(12, c["seed"], c["d2"]), c["form"])
        f = refill(f, bufs, keep)
        keep.append(("input of %s" % c["f"], f, snapshot(f)))
        keep.append(("sample points of %s" % c["f"], x, x.copy()))
        return getattr(transforms, c["f"])(x, f, size=c["size"])


def snapshot(f):
    return ops.plain(f)


def reference(w, c):
    keep = []
    try:
        out = ops.plain(call(w, {}, c, keep))
    except Exception as e:
        return "exc", type(e).__name__, str(e)[:200]
    return "ok", out


def check_inputs(keep, hist):
    for nm, a, b in keep:
        d = same(ops.plain(a), b, nm)
        if d:
            raise Violation("input changed", "%s (history: %s)" % (d, hist))


def run(w, ctl, variant):
    warnings.simplefilter("ignore")
    objs = {}
    hist, returned, keep = [], [], []
    n = 3 + ctl.pick("len", 8 if w["tier"] == "quick" else 20)
    faulty = variant % 2 == 1
    names = set()
    bufs = {}
    for _ in range(n):
        j = ctl.pick("call", len(w["calls"]))
        c = w["calls"][j]
        if faulty:
            f = ctl.chance("fault", 0.35, 6)
            if f:
                disturb(w, objs, c, f, ctl, hist)
                check_inputs(keep, hist)
                continue
        ref = w["refs"][j]
        try:
            res = call(w, objs, c, keep, bufs if ctl.pick("reuse", 2) else None)
        except Exception as e:
            if ref[0] == "ok" or type(e).__name__ != ref[1]:
                raise Violation("failed", "%s fails after %s: %s: %s; a fresh object: %s" % (describe(w, c), hist, type(e).__name__, str(e)[:300], ref[:1] if ref[0] == "ok" else ref))
            ctl.count("expected_failures")
        else:
            if ref[0] != "ok":
                raise Violation("result", "%s succeeds after %s but fails on a fresh object: %s" % (describe(w, c), hist, ref[1:]))
            got = ops.plain(res)
            d = core.compare(got, ref[1], TOL)
            if d:
                raise Violation("result", "%s after %s differs from a fresh object: %s" % (describe(w, c), hist, d))
            if ctl.pick("scribble", 4) == 3:
                ops.scribble(res)
                ctl.count("scribbles")
            else:
                returned.append((describe(w, c), res, got))
        hist.append(describe(w, c))
        ctl.count("calls")
        ctl.note(j)
        if len(hist) > 1:
            ctl.nontrivial = True
        check_inputs(keep, hist)
        names.add(j)
        if ctl.chance("drop", 0.1):
            k = sorted(objs, key=str)[ctl.pick("dropwho", len(objs))] if objs else None
            objs.pop(k, None)
            if ctl.pick("gc", 2):
                gc.collect()
            ctl.count("dropped_objects")
    # a result already handed out stays what it was
    objs.clear()
    gc.collect()
    for nm, res, got in returned:
        d = same(ops.plain(res), got, "result of " + nm)
        if d:
            raise Violation("earlier result changed", d)
    check_inputs(keep, hist)


def disturb(w, objs, c, f, ctl, hist):
    """A failing or interrupted call."""
    with ops.quiet():
        if c["do"] == "t" and f in (1, 2, 3):
            t = w["tr"][c["tr"]]
            if c["tr"] not in objs:
                objs[c["tr"]] = build(t)
            o = objs[c["tr"]]
            n = t["n"] + (1, -1, 4)[f - 1]
            bad = np.ones((n, n)) if t["kind"] == "D" else np.ones(n)
            if f == 3:
                bad = [None] * t["n"] if t["kind"] != "D" else [[None] * t["n"]] * t["n"]
            hist.append("bad input to " + describe(w, c))
            try:
                o.transform(bad)
            except Exception:
                ctl.fault("bad_input")
            else:
                if f != 3 and t["kind"] == "H":
                    raise Violation("bad input accepted", "%d samples for %d sample points" % (n, t["n"]))
                ctl.count("bad_accepted")
            return
        if f == 4:
            t = dict(w["tr"][c["tr"]] if c["do"] == "t" else w["tr"][0])
            hist.append("failed construction")
            try:
                x = np.linspace(1, 10, t["n"]) if ctl.pick("badpts", 2) else np.logspace(0, 1, 7)
                kind = transforms.SphericalBesselTransform
                kind(t["deg"], 0, x, extrap=1 if len(x) == 7 else t["extrap"])
            except Exception:
                ctl.fault("bad_construction")
            else:
                ctl.count("bad_accepted")
            return
        if f == 5:
            # not-a-number samples
            if c["do"] == "t":
                t = w["tr"][c["tr"]]
                if c["tr"] not in objs:
                    objs[c["tr"]] = build(t)
                x = values(t["n"], c["seed"], t["kind"] == "D")
                x[0] = np.nan
                hist.append("not-a-number input to " + describe(w, c))
                try:
                    objs[c["tr"]].transform(x)
                except Exception:
                    pass
                ctl.fault("nan_input")
            return
        at = ctl.pick("at", 120)
        seen = [0]

        def tracer(frame, event, arg):
            return line if PKG in frame.f_code.co_filename else None

        def line(frame, event, arg):
            if event == "line":
                seen[0] += 1
                if seen[0] == at + 1:
                    sys.settrace(None)
                    raise Injected()
            return line
        before = dict(objs)
        hist.append("interrupted " + describe(w, c))
        try:
            sys.settrace(tracer)
            call(w, objs, c, [])
        except Injected:
            ctl.fault("interrupt")
        except Exception:
            ctl.count("failed_before_interrupt")
        finally:
            sys.settrace(None)
        for k in list(objs):
            if k not in before:
                del objs[k]
