"""C13: saving and loading of data products from Python under file faults."""
import simfs  # first
import errno
import os
import random
import re
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

import core
import ops
from core import Violation
from simfs import FS, Crash
from triumvirate.catalogue import ParticleCatalogue
from triumvirate.parameters import ParameterSet
from triumvirate.winconv import ThreePointWindow

INF = float("inf")


def setup(seed, tier):
    rng = random.Random(seed)
    w = ops.make_world(rng, outdir=rng.choice(["out", "out", "out.d/sub", "."]))
    for c in w["cats"]:
        c["nz"] = True
    w["steps"] = []
    for _ in range(rng.randint(2, 4)):
        x = rng.random()
        if x < 0.62:
            op = ops.measure_op(rng, w)
            if op.get("ps") is None:
                op["ps"] = ops.add_paramset(rng, w, op)
            if op["sp"]["boxsize"][0] is None and op["op"] in ops.WIN:
                op["sp"]["boxsize"] = [2 * w["L"]] * 3
                w["ps"][op["ps"]]["boxsize"] = dict(zip("xyz", op["sp"]["boxsize"]))
            w["steps"].append({"do": "measure", "op": op, "fmt": rng.choice([".txt", ".txt", ".npz"])})
            if op["op"] == "3pcf_window" and rng.random() < 0.6:
                ell = rng.choice([(0, 0, 0), (1, 1, 0), (2, 0, 2)])
                op["form"], op["deg"], op["idx"] = "full", ell, None
                op.pop("wa", None)
                p = w["ps"][op["ps"]]
                p.pop("wa_orders", None)
                p["form"], p["idx_bin"], p["degrees"] = "full", 0, {"ell1": ell[0], "ell2": ell[1], "ELL": ell[2]}
                w["steps"][-1]["fmt"] = ".txt"
                w["steps"].append({"do": "wintext", "of": len(w["steps"]) - 1, "shot": rng.random() < 0.7, "alpha": rng.choice([1., 0.1]), "loglin": rng.random() < 0.5 and w["bins"][op["bin"]]["kind"] in ("lin", "log", "linpad") and w["bins"][op["bin"]]["n"] >= 4})
        elif x < 0.74:
            if not w["ps"]:
                op = ops.measure_op(rng, w)
                if op.get("ps") is None:
                    op["ps"] = ops.add_paramset(rng, w, op)
            w["steps"].append({"do": "psave", "ps": rng.randrange(len(w["ps"])), "path": rng.choice([None, "p.yml", "sub p/q.v2.yml"]), "pathlib": rng.random() < 0.5})
        elif x < 0.87:
            w["steps"].append({"do": "wsave", "seed": rng.randrange(10**6), "n": rng.randint(3, 7), "path": rng.choice(["w.npz", "win.v1.npz", "plain"]), "src": rng.random() < 0.6,
                               "poles": rng.choice([["000"], ["000", "110"], ["000", "202", "110"]])})
        else:
            w["steps"].append({"do": "catload", "seed": rng.randrange(10**6), "n": rng.choice([1, 5, 40, 120]), "fmt": rng.choice(["ascii.no_header", "ascii.no_header", "ascii", "text"]),
                               "cols": rng.choice([["x", "y", "z", "nz"], ["x", "y", "z", "nz", "ws", "wc"], ["x", "y", "z"], ["ws", "z", "y", "x", "nz"]])})
    w["variants"] = 8 if tier == "quick" else 20
    w["sample"] = ", ".join(describe(s) for s in w["steps"])
    return w


def describe(s):
    return s["op"]["op"] + s["fmt"] if s["do"] == "measure" else s["do"]


def run(w, ctl, variant):
    scratch = tempfile.mkdtemp(prefix="trvpy.")
    try:
        os.chdir(scratch)
        body(w, ctl, variant, os.path.realpath(scratch))
    finally:
        FS.disarm()
        FS.root = None
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def body(w, ctl, variant, scratch):
    warnings.simplefilter("ignore")
    FS.root = scratch
    os.makedirs(os.path.join(scratch, w["outdir"]), exist_ok=True)
    os.makedirs(os.path.join(scratch, "sub p"), exist_ok=True)
    o = ops.build_objs(w)
    p = 0.0 if variant == 0 else (0.01, 0.04, 0.15)[ctl.pick("rate", 3)]
    files = {}            # path -> (step, function checking the content)
    done = {}
    for i, s in enumerate(w["steps"]):
        before = ops.state(o)
        op = None
        if s["do"] == "measure":
            op = dict(s["op"])
            op["save"] = False
            try:
                unsaved = ops.plain(ops.do(o, op))
            except Exception:
                ctl.count("unusable")
                continue
            op["save"] = s["fmt"]
        if s["do"] == "wintext" and s["of"] not in done:
            continue
        if s["do"] == "wintext" and s["loglin"]:
            r = np.unique(done[s["of"]][1]["r1_eff"])
            if not (np.all(np.isfinite(r)) and r[0] > 0 and len(r) == w["bins"][w["steps"][s["of"]]["op"]["bin"]]["n"]):
                ctl.count("unusable")     # no logarithmic grid through zero
                continue
        attempt = 0
        while True:
            attempt += 1
            if attempt == 4:
                p_ = 0.0
            else:
                p_ = p
            what = "%s (attempt %d of step %d)" % (describe(s), attempt, i)
            FS.arm(ctl, p_)
            res = err = None
            try:
                res = action(o, w, s, op, scratch, done)
            except (Exception, Crash) as e:
                err = e
            fired = list(FS.fired)
            dead = FS.dead
            FS.disarm()
            d = same_state(before, ops.state(o))
            if d:
                raise Violation("objects changed", "%s, faults %s: %s" % (what, fired, d))
            ctl.count("saves")
            if err is not None and not fired:
                raise Violation("failed without a fault", "%s: %s: %s" % (what, type(err).__name__, str(err)[:300]))
            if err is None and not dead:
                d = verify(o, w, s, op, res, scratch, files, done, i)
                if d:
                    raise Violation("incomplete file" if s["do"] not in ("catload", "wintext") else "loaded data", "%s returned normally with faults %s: %s" % (what, fired, d))
                if s["do"] == "measure":
                    r = ops.plain({k: v for k, v in res.items() if k != "header"})
                    d = core.compare(r, unsaved, 1e-9)
                    if d:
                        raise Violation("results", "%s: results with and without saving differ: %s" % (what, d))
                    if fired:
                        ctl.count("survived_faults")
                break
            ctl.count("failed_saves")
            if not FS.p and not fired:
                break
        # what was saved before is still complete
        for path, check in files.items():
            d = check()
            if d:
                raise Violation("earlier file changed", "%s after %s: %s" % (os.path.relpath(path, scratch), describe(s), d))


def same_state(a, b):
    from c_hist import same
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            y = {q: y.get(q) for q in x}
        d = same(x, y, k)
        if d:
            return d
    return None


def make_window(s):
    r = np.random.default_rng(s["seed"])
    x = np.geomspace(1., 200., s["n"])
    iu = np.triu_indices(s["n"])
    sym = np.column_stack((x[iu[0]], x[iu[1]]))
    g = np.indices((s["n"], s["n"])).reshape(2, -1)
    full = np.column_stack((x[g[0]], x[g[1]]))
    pts = {m: full if m[0] != m[1] else sym for m in s["poles"]}
    win = ThreePointWindow(pts, {m: r.normal(size=len(pts[m])) for m in s["poles"]})
    if s["src"]:
        win.sources = ["of %s.txt" % m for m in s["poles"]]
    return win


def make_catalogue_file(s, scratch):
    r = np.random.default_rng(s["seed"])
    data = {c: r.uniform(0.1, 100., s["n"]) for c in s["cols"]}
    path = os.path.join(scratch, "cat%d.txt" % s["seed"])
    if not os.path.exists(path):
        lines = []
        if s["fmt"] in ("ascii", "text"):
            lines.append(" ".join(s["cols"]))
        for k in range(s["n"]):
            lines.append(" ".join(repr(float(data[c][k])) for c in s["cols"]))
        with simfs.REAL_OPEN(path, "w") as f:
            f.write("\n".join(lines) + "\n")
    return path, data


def action(o, w, s, op, scratch, done):
    if s["do"] == "measure":
        return ops.do(o, op)
    if s["do"] == "psave":
        path = s["path"]
        if path is None:
            return o.ps[s["ps"]].save()
        return o.ps[s["ps"]].save(Path(path) if s["pathlib"] else path)
    if s["do"] == "wsave":
        win = make_window(s)
        snap = win_state(win)
        try:
            win.save_to_file(s["path"])
        finally:
            from c_hist import same
            d = same(snap, win_state(win), "window function")
            if d:
                raise Violation("objects changed", "saving changes the %s" % d)
        return win
    if s["do"] == "catload":
        path, _ = make_catalogue_file(s, scratch)
        kw = {"names": s["cols"]} if s["fmt"] == "ascii.no_header" else {}
        return ParticleCatalogue.read_from_file(path, format=s["fmt"], **kw)
    if s["do"] == "wintext":
        path, res, deg = done[s["of"]]
        key = "".join(map(str, deg))
        # shot-noise subtracted or not
        return ThreePointWindow.load_from_textfiles({key: path}, subtract_shotnoise=s["shot"], usecols=(1, 4, 6, 8) if s["shot"] else (1, 4, 6),
                                                    alpha_contrast=s["alpha"], make_loglin=s["loglin"])
    raise KeyError(s["do"])


def win_state(win):
    return {"r": {str(k): np.array(v) for k, v in win.r.items()}, "Q": {str(k): np.array(v) for k, v in win.Q.items()},
            "Q_diag": {str(k): np.array(v) for k, v in win.Q_diag.items()}, "multipoles": [str(m) for m in win.multipoles], "sources": [str(x) for x in win.sources]}


STEM = {"powspec": "pk", "2pcf": "xi", "2pcf-win": "xiw", "bispec": "bk", "3pcf": "zeta", "3pcf-win": "zetaw"}


def expected_path(w, op, scratch, fmt):
    p = w["ps"][op["ps"]]
    name = STEM[ops.STAT[op["op"]]]
    if "form" in op:
        name += "%d%d%d" % tuple(op["deg"])
        name += {"diag": "_diag", "off-diag": "_offdiag%s" % op["idx"], "row": "_row%s" % op["idx"], "full": "_full"}[op["form"]]
        if op.get("wa"):
            name += "_wa%d%d" % tuple(op["wa"])
    else:
        name += "%d" % op["deg"]
    return os.path.normpath(os.path.join(scratch, w["outdir"], name + p["tags"]["output"] + fmt))


LABELS = [(r"k_cen", "kbin", None), (r"k_eff", "keff", None), (r"nmodes", "nmodes", None), (r"r_cen", "rbin", None), (r"r_eff", "reff", None), (r"npairs", "npairs", None),
          (r"([kr])([12])_cen", r"\1\2_bin", None), (r"([kr])([12])_eff", r"\1\2_eff", None), (r"(nmodes|npairs)_([12])", r"\1_\2", None)]


def column(label, res, deg):
    """The array which a column of a saved table labelled so must hold."""
    m = re.fullmatch(r"(Re|Im)\{(pk|xi|xiw|bk|zeta|zetaw)(\d+)(?:_(raw|shot))?\}", label)
    if m:
        if m.group(3) != ("%d" % deg if np.isscalar(deg) else "%d%d%d" % tuple(deg)):
            return None
        key = m.group(2) + ("_" + m.group(4) if m.group(4) else "")
        if key not in res:
            return None
        return np.real(res[key]) if m.group(1) == "Re" else np.imag(res[key])
    for pat, key, _ in LABELS:
        m = re.fullmatch(pat, label)
        if m:
            return res.get(m.expand(key) if "\\" in key else key)
    return None


def check_header(lines, o, w, op):
    p = w["ps"][op["ps"]]
    sp = op["sp"]
    txt = [re.sub(r"^#? ?", "", x) for x in lines]
    get = {}
    for x in txt:
        if ": " in x:
            a, b = x.split(": ", 1)
            get[a] = b
    boxed = op["op"] in ops.BOX2 or op["op"] in ops.BOX3
    if op["op"] in ops.SURVEY2 or op["op"] in ops.SURVEY3:
        pairs = [("Data catalogue size", op["data"]), ("Random catalogue size", op["rand"])]
    else:
        pairs = [("Catalogue size", op["rand"])]
    for label, i in pairs:
        c = o.cats[i]
        want = "ntotal = %d, wtotal = %.3f, wstotal = %.3f" % (len(c), float(np.sum(np.asarray(c["ws"]) * np.asarray(c["wc"]))), float(np.sum(c["ws"])))
        if get.get(label) != want:
            return "header: %s is %r, not %r" % (label, get.get(label), want)
    if sp["boxsize"][0] is not None and get.get("Box size") != "[%.3f, %.3f, %.3f]" % tuple(sp["boxsize"]):
        return "header: box size %r" % get.get("Box size")
    if sp["ngrid"][0] is not None and get.get("Mesh number") != "[%d, %d, %d]" % tuple(sp["ngrid"]):
        return "header: mesh number %r" % get.get("Mesh number")
    inter = sp["interlace"] if "form" not in op else False
    if get.get("Mesh assignment and interlacing") != "%s, %s" % (sp["assignment"], inter):
        return "header: assignment %r" % get.get("Mesh assignment and interlacing")
    if not boxed and get.get("Box alignment") != sp.get("alignment", "centre"):
        return "header: alignment %r" % get.get("Box alignment")
    m = re.fullmatch(r"(\S+) \((\S+)\)", get.get("Normalisation factor", ""))
    if not m or m.group(2) != p["norm_convention"]:
        return "header: normalisation %r" % get.get("Normalisation factor")
    alts = dict((b, a) for a, b in re.findall(r"(\S+) \(([\w-]+)[;)]", get.get("Normalisation factor alternatives", "")))
    if (alts.get(p["norm_convention"]) if p["norm_convention"] != "none" else "%.9e" % 1.) != m.group(1):
        return "header: normalisation factor %s is not one of %s" % (m.group(0), alts)
    return None


def verify_measure(o, w, s, op, path, res, reff=False):
    if not os.path.exists(path):
        return "%s does not exist (%s)" % (os.path.basename(path), os.listdir(os.path.dirname(path)))
    if s["fmt"] == ".txt":
        with simfs.REAL_OPEN(path) as f:
            lines = f.read().split("\n")
        if lines[-1] != "":
            return "the last line is cut: %r" % lines[-1]
        head = [x for x in lines if x.startswith("#")]
        rows = [x.split() for x in lines if x and not x.startswith("#")]
        d = check_header(head, o, w, op)
        if d:
            return d
        labels = re.findall(r"\[(\d+)\] ([^,\s]+)", head[-1])
        cols = []
        for k, (num, lab) in enumerate(labels):
            a = column(lab, res, op["deg"])
            if int(num) != k or a is None:
                return "column [%s] %s is not among the results %s" % (num, lab, sorted(res))
            cols.append((lab, np.ravel(a)))
        if len(rows) != len(cols[0][1]):
            return "%d rows instead of %d" % (len(rows), len(cols[0][1]))
        for r, row in enumerate(rows):
            if len(row) != len(cols):
                return "row %d has %d columns instead of %d" % (r, len(row), len(cols))
            for k, (lab, a) in enumerate(cols):
                x, y = float(row[k]), float(a[r])
                if not (x == y or abs(x - y) <= 1.01e-9 * abs(y) + 1e-300 or (x != x and y != y)) or (x in (INF, -INF)) != (y in (INF, -INF)):
                    return "row %d column %s: %s instead of %.17g" % (r, lab, row[k], y)
        return None
    try:
        with np.load(path) as z:
            got = {k: np.array(z[k]) for k in z.files}
    except Exception as e:
        return "the file cannot be read: %s: %s" % (type(e).__name__, str(e)[:200])
    if set(got) != set(res):
        return "the file holds %s and the result %s" % (sorted(got), sorted(res))
    for k in res:
        a = np.asarray(res[k])
        if got[k].shape != a.shape or got[k].dtype != a.dtype or got[k].tobytes() != a.tobytes():
            return "%s: %s in the file and %s in memory" % (k, str(got[k])[:100], str(a)[:100])
    if "header" not in got:
        return "no header with the results: %s" % sorted(got)
    return check_header(str(got["header"]).split("\n"), o, w, op)


def verify(o, w, s, op, res, scratch, files, done, i):
    if s["do"] == "measure":
        path = expected_path(w, op, scratch, s["fmt"])
        kept = ops.plain(res)
        d = verify_measure(o, w, s, op, path, res)
        if d is None:
            files[path] = lambda: verify_measure(o, w, s, op, path, res_keep[path])
            res_keep[path] = res
            done[i] = (path, kept, op["deg"])
        return d
    if s["do"] == "psave":
        ps = o.ps[s["ps"]]
        path = s["path"] or os.path.join(w["outdir"], "parameters_used%s.yml" % w["ps"][s["ps"]].get("tags", {"output": ""})["output"])
        path = os.path.normpath(os.path.join(scratch, path))

        def check():
            try:
                back = ParameterSet(path)
            except Exception as e:
                return "the saved parameters cannot be loaded: %s: %s" % (type(e).__name__, str(e)[:300])
            from c_hist import same
            a, b = norm_ps(ps), norm_ps(back)
            if sorted(a) != sorted(b):
                return "parameters %s and %s" % (sorted(a), sorted(b))
            return same({k: a[k] for k in sorted(a)}, {k: b[k] for k in sorted(a)}, "parameters")
        d = check()
        if d is None:
            files[path] = check
        return d
    if s["do"] == "wsave":
        path = os.path.join(scratch, s["path"] + ("" if s["path"].endswith(".npz") else ".npz"))
        want = win_state(res)

        def check():
            from c_hist import same
            try:
                back = ThreePointWindow.load_from_file(path)
            except Exception as e:
                return "the saved window function cannot be loaded: %s: %s" % (type(e).__name__, str(e)[:300])
            return same(want, win_state(back), "window function")
        d = check()
        if d is None:
            files[path] = check
        return d
    if s["do"] == "catload":
        path, data = make_catalogue_file(s, scratch)
        if len(res) != s["n"] or res.ntotal != s["n"]:
            return "%d particles instead of %d" % (len(res), s["n"])
        for c in ("x", "y", "z", "nz", "ws", "wc"):
            want = data.get(c, np.full(s["n"], 0. if c == "nz" else 1.))
            got = np.asarray(res[c], float)
            if not np.allclose(got, want, rtol=1e-14, atol=0):
                k = int(np.argmax(np.abs(got - want)))
                return "column %s, particle %d: %r instead of %r" % (c, k, float(got[k]), float(want[k]))
        return None
    if s["do"] == "wintext":
        path, kept, deg = done[s["of"]]
        if not s["loglin"]:
            q = np.real(kept["zeta_raw"]) - (np.real(kept["zeta_shot"]) if s["shot"] else 0.)
            got = list(res.Q.values())[0]
            n = len(got)
            if deg[0] == deg[1]:
                want = np.zeros((n, n))
                want[np.triu_indices(n)] = q
                want = want + np.triu(want, 1).T
            else:
                want = np.reshape(q, (n, n))
            scale = float(np.max(np.abs([np.real(kept["zeta_raw"]), np.real(kept["zeta_shot"])])))
            if not np.allclose(got, s["alpha"]**2 * want, rtol=1e-8, atol=2e-9 * scale):
                return "window function %s instead of %s" % (got, s["alpha"]**2 * want)
        else:
            r = np.unique(kept["r1_eff"])
            q = np.real(kept["zeta_raw"]) - (np.real(kept["zeta_shot"]) if s["shot"] else 0.)
            for m, x in res.Q.items():
                x, rm = np.asarray(x), np.asarray(res.r[m])
                if x.shape != (len(r), len(r)) or rm.shape != (len(r),):
                    return "window function of shape %s at %d points instead of %d" % (x.shape, len(rm), len(r))
                scale = float(np.max(np.abs(kept["zeta_raw"]))) + float(np.max(np.abs(kept["zeta_shot"])))
                if not np.allclose(rm[[0, -1]], r[[0, -1]], rtol=1e-8) or not np.allclose([x[0, 0], x[-1, -1]], s["alpha"]**2 * q[[0, -1]], rtol=1e-6, atol=1e-7 * scale):
                    return "window function from %s to %s instead of %s to %s" % (x[0, 0], x[-1, -1], q[0], q[-1])
        if [str(x) for x in res.sources] != [str(path)]:
            return "sources %s" % res.sources
        # the loaded window function, saved and loaded again
        again = os.path.join(scratch, "again.npz")
        res.save_to_file(again)
        from c_hist import same
        d = same(win_state(res), win_state(ThreePointWindow.load_from_file(again)), "window function saved again")
        os.remove(again)
        return d
    return None


def s_op(w, s):
    return w["steps"][s["of"]]["op"]


res_keep = {}


def norm_ps(ps):
    d = {}
    for k, v in ps.items():
        v = ops.plain(v)
        if isinstance(v, np.generic):
            v = v.item()
        d[k] = plainer(v)
    return d


def plainer(v):
    if isinstance(v, dict):
        return {k: plainer(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plainer(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v
