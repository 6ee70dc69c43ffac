"""Operations of the Python package on catalogues, binnings, parameter sets and
transform objects, as data: a world is described by plain values, objects are
built from it, and an operation is a dictionary executed by do()."""
import copy
import os
import random
import re
import warnings

import numpy as np

from triumvirate.catalogue import ParticleCatalogue
from triumvirate.dataobjs import Binning
from triumvirate.parameters import ParameterSet, fetch_paramset_template
from triumvirate import twopt, threept, fieldmesh, winconv, transforms

SURVEY2 = {"powspec": ("fourier", twopt.compute_powspec), "corrfunc": ("config", twopt.compute_corrfunc)}
BOX2 = {"powspec_box": ("fourier", twopt.compute_powspec_in_gpp_box), "corrfunc_box": ("config", twopt.compute_corrfunc_in_gpp_box)}
SURVEY3 = {"bispec": ("fourier", threept.compute_bispec), "3pcf": ("config", threept.compute_3pcf)}
BOX3 = {"bispec_box": ("fourier", threept.compute_bispec_in_gpp_box), "3pcf_box": ("config", threept.compute_3pcf_in_gpp_box)}
WIN = {"corrfunc_window": ("config", twopt.compute_corrfunc_window), "3pcf_window": ("config", threept.compute_3pcf_window)}
MEASURE = {**SURVEY2, **BOX2, **SURVEY3, **BOX3, **WIN}
STAT = {"powspec": "powspec", "powspec_box": "powspec", "corrfunc": "2pcf", "corrfunc_box": "2pcf", "corrfunc_window": "2pcf-win",
        "bispec": "bispec", "bispec_box": "bispec", "3pcf": "3pcf", "3pcf_box": "3pcf", "3pcf_window": "3pcf-win"}
QUIET = True         # calls run with warnings switched off (not thread-safe)
CTYPE = {**{k: "survey" for k in (*SURVEY2, *SURVEY3)}, **{k: "sim" for k in (*BOX2, *BOX3)}, **{k: "random" for k in WIN}}
DEG3 = [(0, 0, 0), (1, 1, 0), (0, 2, 2), (2, 0, 2), (1, 1, 2)]


FILTERS = []         # warning filters left behind by calls


class quiet:
    def __enter__(self):
        self.c = None
        if QUIET:
            self.c = warnings.catch_warnings()
            self.c.__enter__()
            warnings.filterwarnings("ignore", message=".*")
            self.f = list(warnings.filters)

    def __exit__(self, *a):
        if self.c is not None:
            if list(warnings.filters) != self.f:
                FILTERS.append(str([x for x in warnings.filters if x not in self.f]))
            self.c.__exit__(*a)


# ---------------------------------------------------------------- worlds
def make_world(rng, outdir=None, ncat=4):
    L = rng.choice([100., 200., 500.])
    w = {"L": L, "cats": [], "bins": [], "ps": [], "wc": [], "tr": [], "logger": rng.random() < 0.3, "outdir": outdir}
    for i in range(ncat):
        w["cats"].append({"seed": rng.randrange(10**9), "n": rng.choice([2, 30, 60]) if i % 2 == 0 else rng.choice([60, 150]),
                          "L": L, "shift": rng.choice([0., 0., 300., -50.]), "weights": rng.random() < 0.6, "nz": rng.random() < 0.85,
                          "spread": rng.choice([0.9, 1.0, 1.0])})
        if i >= 2 and rng.random() < 0.5:        # another catalogue of the same size
            w["cats"][i]["n"] = w["cats"][i - 2]["n"]
            w["cats"][i]["weights"] = w["cats"][i - 2]["weights"]
    for space in ("fourier", "config"):
        for _ in range(2):
            b = {"space": space, "kind": rng.choice(["lin", "lin", "log", "linpad", "custom", "grid"]), "n": rng.choice([2, 3, 4])}
            b["lo"] = 0.6 * 2 * np.pi / L if space == "fourier" else 0.03 * L
            b["hi"] = 4.5 * 2 * np.pi / L if space == "fourier" else 0.45 * L
            if b["kind"] == "linpad":
                b["n"] = 7
                if space == "fourier":
                    b["lo"] = 0.0
                else:
                    b["lo"], b["hi"] = 0.0, max(0.45 * L, 70.)
            b["edges"] = sorted(b["lo"] + (b["hi"] - b["lo"]) * x for x in (0.0, 0.3 * rng.random() + 0.1, 0.6, 1.0))
            w["bins"].append(b)
    return w


def sampling(rng, w, kind):
    L = w["L"]
    n = rng.choice([8, 9, 10, 12]) if kind in SURVEY3 or kind in BOX3 or kind == "3pcf_window" else rng.choice([8, 11, 16])
    sp = {"boxsize": [L * rng.choice([1.0, 1.1, 1.3]) for _ in range(3)], "ngrid": [n, n, n if rng.random() < 0.7 else n + 2],
          "assignment": rng.choice(["ngp", "cic", "tsc", "pcs"]), "interlace": rng.random() < 0.3}
    if kind in BOX2 or kind in BOX3:
        return sp
    sp["alignment"] = rng.choice(["centre", "pad"])
    if sp["alignment"] == "pad":
        sp["boxsize"] = [1.5 * L] * 3
        if rng.random() < 0.5:
            sp["boxpad"] = 0.02
        else:
            sp["gridpad"] = rng.choice([1., 2.])
    if sp["alignment"] == "centre" and rng.random() < 0.2:
        sp["boxsize"] = [None] * 3
        sp["expand"] = 1.2
    elif sp["alignment"] == "centre" and rng.random() < 0.12 and kind in ("powspec", "corrfunc"):
        sp["ngrid"] = [None] * 3
        sp["cutoff_nyq"] = 9 * np.pi / L if MEASURE[kind][0] == "fourier" else L / 5.
    return sp


def measure_op(rng, w, kind=None, logger=None):
    kind = kind or rng.choice(list(MEASURE))
    space = MEASURE[kind][0]
    bins = [i for i, b in enumerate(w["bins"]) if b["space"] == space]
    op = {"op": kind, "data": rng.choice([0, 2]), "rand": rng.choice([1, 3]), "bin": rng.choice(bins), "sp": sampling(rng, w, kind),
          "los": rng.random() < 0.3, "logger": w["logger"] and rng.random() < 0.5, "save": False}
    if kind in SURVEY2 or kind in BOX2 or kind == "corrfunc_window":
        op["deg"] = rng.choice([0, 0, 1, 2, 4])
    else:
        op["deg"] = rng.choice(DEG3)
        op["form"] = rng.choice(["diag", "diag", "off-diag", "row", "full"])
        op["idx"] = rng.choice([0, 1]) if op["form"] in ("off-diag", "row") else None
        if kind == "3pcf_window" and rng.random() < 0.5:
            op["wa"] = rng.choice([(0, 0), (1, 0), (0, 2), (1, 1)])
    if rng.random() < 0.45:
        op["ps"] = add_paramset(rng, w, op)
    return op


def add_paramset(rng, w, op):
    """A full parameter set for the operation: given as an object, with what else is passed decided here."""
    b = w["bins"][op["bin"]]
    sp = op["sp"]
    p = {"boxsize": dict(zip("xyz", sp["boxsize"])), "ngrid": dict(zip("xyz", sp["ngrid"])), "assignment": sp["assignment"],
         "interlace": sp["interlace"], "catalogue_type": CTYPE[op["op"]], "statistic_type": STAT[op["op"]],
         "range": [b["lo"], b["hi"]], "num_bins": b["n"], "binning": b["kind"] if b["kind"] in ("lin", "log", "linpad") else "lin",
         "norm_convention": rng.choice(["none", "particle", "mesh", "mesh-mixed"] if op["op"] in SURVEY2 else ["none", "particle", "mesh"]),
         "expand": sp.get("expand", 1.), "cutoff_nyq": sp.get("cutoff_nyq"), "alignment": sp.get("alignment", "centre"),
         "verbose": rng.choice([-1, 0, 10, 20, 30, 60]), "fftw_scheme": rng.choice(["estimate", "estimate", "estimate", "measure"])}
    if sp.get("boxpad") is not None or sp.get("gridpad") is not None:
        p["padscale"] = "box" if "boxpad" in sp else "grid"
        p["padfactor"] = sp.get("boxpad", sp.get("gridpad"))
    d = op["deg"]
    p["degrees"] = {"ell1": 0, "ell2": 0, "ELL": d} if np.isscalar(d) else {"ell1": d[0], "ell2": d[1], "ELL": d[2]}
    if "form" in op:
        p["form"], p["idx_bin"] = op["form"], op["idx"] if op["idx"] is not None else 0
    if op.get("wa"):
        p["wa_orders"] = {"i": op["wa"][0], "j": op["wa"][1]}
    if w.get("outdir"):
        p["directories"] = {"catalogues": "", "measurements": w["outdir"]}
        p["tags"] = {"output": rng.choice(["", "_t", "_v1.2", "_a.b.c"])}
    op["usebin"] = b["kind"] in ("custom", "grid") or rng.random() < 0.5
    op["usesp"] = rng.random() < 0.3
    op["usedeg"] = rng.random() < 0.3
    w["ps"].append(p)
    return len(w["ps"]) - 1


def paramset_dict(p):
    d = fetch_paramset_template("dict")
    for k, v in p.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            d[k].update(v)
        else:
            d[k] = copy.deepcopy(v)
    return d


# ---------------------------------------------------------------- window convolutions and transforms
def add_winconv(rng, w):
    kind = rng.choice(["2pcf", "powspec", "3pcf", "3pcf", "bispec", "bispec"])
    c = {"kind": kind, "nr": rng.randint(6, 12), "nk": rng.choice([4, 6]), "ic": rng.random() < 0.6 and kind in ("3pcf", "bispec"), "lowring": rng.random() < 0.5,
         "rout": rng.random() < 0.5, "kw": rng.random() < 0.5, "fewkw": rng.random() < 0.5, "terms": rng.randint(1, 2)}
    w["wc"].append(c)
    return len(w["wc"]) - 1


def formula_of(c):
    if c["kind"] in ("2pcf", "powspec"):
        f = {"0": [("0", "0", 1)], "2": [("2", "0", 1), ("0", "2", 1)]} if c["terms"] == 2 else {"0": [("0", "0", 1)]}
        if c["ic"]:
            f["0"] = f["0"] + [("0", "ic", -1)]
        return f
    f = {"000": [("000", "000", 1)]}
    if c["terms"] == 2:
        f = {"000": [("000", "000", 1), ("110", "110", 1)], "110": [("110", "000", 1), ("000", "110", 1)]}
    if c["ic"]:
        f["000"] = f["000"] + [("000", "ic", -1)]
    return f


def build_winconv(c, keep=None):
    keep = [] if keep is None else keep
    r = np.logspace(0, 2.5, c["nr"])
    kin = np.logspace(-2.3, -0.5, c["nk"])
    kw = {"lowring": c["lowring"], "extrap": 5} if c["kw"] else None
    if kw and c.get("fewkw"):
        kw.pop("extrap")
    for nm, a in (("window sample points", r), ("convolution sample points", kin), ("transform options", kw)):
        keep.append((nm, a, plain(a)))
    f = formula_of(c)
    with quiet():
        if c["kind"] in ("2pcf", "powspec"):
            Q = {"0": c.get("amp", 1.) * np.exp(-r / 80.), "2": 0.3 * np.exp(-r / 50.)}
            keep += [("window multipoles", Q, plain(Q)), ("formulae", f, plain(f))]
            if c["kind"] == "2pcf":
                return winconv.TwoPCFWinConv(f, r, Q, r, r_out=np.logspace(0.3, 2.2, 7) if c["rout"] else None)
            return winconv.PowspecWinConv(f, r, Q, kin, k_out=np.logspace(-2, -0.8, 5) if c["rout"] else None,
                                          r_common=np.logspace(0.8, 2.2, 6) if c["rout"] else None, transform_kwargs=kw)
        g = np.exp(-(r / 60.)**2)
        Q = {"000": c.get("amp", 1.) * np.outer(g, g), "110": 0.4 * np.outer(g, g)}
        keep += [("window multipoles", Q, plain(Q)), ("formulae", f, plain(f))]
        if c["kind"] == "3pcf":
            return winconv.ThreePCFWinConv(f, r, Q, r, r_out=np.logspace(0.3, 2.2, 7) if c["rout"] else None)
        return winconv.BispecWinConv(f, r, Q, kin, k_out=np.logspace(-2, -0.8, 5) if c["rout"] else None,
                                     r_common=np.logspace(0.8, 2.2, 6) if c["rout"] else None, transform_kwargs=kw)


def winconv_op(rng, w):
    i = rng.randrange(len(w["wc"])) if w["wc"] and rng.random() < 0.6 else add_winconv(rng, w)
    c = w["wc"][i]
    what = rng.choice(["convolve", "convolve", "mat" if c["kind"] == "bispec" else "diag" if c["kind"] == "3pcf" else "convolve", "ret", "formulae"])
    return {"op": "winconv", "wc": i, "what": what, "ic": rng.choice([None, 0.1, 0.3]), "seed": rng.randrange(10**6),
            "concat": rng.random() < 0.5, "diag": rng.random() < 0.3}


def do_winconv(wc, c, op, keep, reuse=None, formulae=None):
    r = random.Random(op["seed"])
    a, s = r.uniform(0.5, 2.), r.uniform(20, 100)
    poles = sorted({winconv.Multipole(t[1]) for v in formula_of(c).values() for t in v if t[1] != "ic"})
    if op["what"] == "formulae":
        f = formulae if formulae is not None else winconv.WinConvFormulae(formula_of(c))
        return {"dict": f.get_dict(), "latex": {str(m): f.get_latex_expr(m) for m in f.multipoles}, "Q": [str(m) for m in f.multipoles_Q],
                "Z": [str(m) for m in f.multipoles_Z]}
    with quiet():
        if c["kind"] in ("2pcf", "powspec"):
            x = wc.r_in if c["kind"] == "2pcf" else wc.k_in
            src = {m: a * np.exp(-np.asarray(x[m]) / (s if c["kind"] == "2pcf" else 0.1)) for m in poles}
            src = reuse(src) if reuse else src
            keep.append(("winconv input", src, plain(src)))
            if c["kind"] == "powspec" and op["what"] == "ret":
                return wc.convolve(src, ret_xi=True)
            return wc.convolve(src)
        x = wc.r_in if c["kind"] == "3pcf" else wc.k_in
        src = {}
        for m in poles:
            e = np.exp(-np.asarray(x[m]) / (s if c["kind"] == "3pcf" else 0.1))
            src[m] = a * np.outer(e, e) + (0 if c["kind"] == "3pcf" else 0j)
        src = reuse(src) if reuse else src
        keep.append(("winconv input", src, plain(src)))
        if op["what"] == "mat":
            return wc.gen_winconv_mat(ic=c["ic"], concat=op["concat"], diag=op["diag"])
        if op["what"] == "diag" and all(len(np.shape(x[m])) == 1 for m in poles):
            if not c["ic"] and not hasattr(wc, "convolve_diag"):
                return wc.convolve(src, ic=op["ic"])
            return wc.convolve_diag({m: np.diag(v).copy() for m, v in src.items()}, ic=0.1 if c["ic"] else None)
        if op["what"] == "ret" and c["kind"] == "bispec":
            return wc.convolve(src, ic=op["ic"], ret_zeta=True)
        return wc.convolve(src, ic=op["ic"])


def add_transform(rng, w):
    kind = rng.choice(["H", "S", "S", "D"])
    t = {"kind": kind, "n": rng.choice([8, 16, 32]) if kind != "D" else rng.choice([8, 10]), "lowring": rng.random() < 0.5,
         "extrap": rng.choice([0, 0, 1, 2, 3, 4, 5]), "deg": rng.choice([0, 1, 2]), "deg2": rng.choice([0, 2]), "bias": rng.choice([0, 0.5]),
         "extrap_exp": rng.choice([2., 1.5]), "threaded": rng.random() < 0.3, "extrap2d": kind == "D" and rng.random() < 0.4}
    w["tr"].append(t)
    return len(w["tr"]) - 1


def build_transform(t):
    x = np.logspace(-2, 1, t["n"])
    kw = {"lowring": t["lowring"], "extrap": t["extrap"], "extrap_exp": t["extrap_exp"]}
    if t["kind"] == "H":
        from triumvirate._fftlog import HankelTransform
        return HankelTransform(t["deg"] + 0.5, t["bias"], x, 1., **kw)
    if t["kind"] == "S":
        return transforms.SphericalBesselTransform(t["deg"], t["bias"], x, threaded=t["threaded"], **kw)
    return transforms.DoubleSphericalBesselTransform((t["deg"], t["deg2"]), (t["bias"], t["bias"]), x, threaded=t["threaded"], extrap2d=t["extrap2d"], **kw)


def transform_op(rng, w):
    i = rng.randrange(len(w["tr"])) if w["tr"] and rng.random() < 0.6 else add_transform(rng, w)
    return {"op": "transform", "tr": i, "what": rng.choice(["t", "t", "c+", "c-", "p"]), "seed": rng.randrange(10**6)}


def do_transform(o, t, op, keep):
    r = np.random.default_rng(op["seed"])
    x = np.logspace(-2, 1, t["n"])
    f = x**r.uniform(0.5, 1.5) * np.exp(-x * r.uniform(0.5, 2)) + 0.01
    if t["kind"] == "D":
        f = np.outer(f, f)
    if op["what"] != "t" and r.uniform() < 0.5:
        f = f * (1 + 0.5j) if t["extrap"] == 0 else f
    keep.append(("transform input", f, plain(f)))
    if t["kind"] == "H":
        return o.transform(f + 0j)
    if op["what"] == "c+":
        return o.transform_cosmo_multipoles(1, f)
    if op["what"] == "c-":
        return o.transform_cosmo_multipoles(-1, f)
    if op["what"] == "p":
        return [o.size, o.pivot]
    return o.transform(f)


# ---------------------------------------------------------------- objects
class Objs:
    pass


def build_cat(c):
    r = np.random.default_rng(c["seed"])
    x, y, z = r.uniform(0, c["L"] * c["spread"], (3, c["n"])) + c["shift"]
    if c["n"] > 4:
        x[-1] = x[0]
        y[-1] = y[0]
        z[-1] = z[0]
    kw = {}
    if c["nz"]:
        kw["nz"] = 1e-3 * r.uniform(0.5, 1.5, c["n"])
    if c["weights"]:
        kw["ws"], kw["wc"] = r.uniform(0.5, 1.5, c["n"]), r.uniform(0.1, 1, c["n"])
    with quiet():
        return ParticleCatalogue(x, y, z, **kw)


def build_bin(b):
    if b["kind"] == "custom":
        o = Binning(b["space"], "lin")
        o.set_custom_bins(b["edges"])
    elif b["kind"] == "grid":
        o = Binning(b["space"], "lin")
        o.set_grid_based_bins(200., 8)
    else:
        o = Binning(b["space"], b["kind"], bin_min=b["lo"] if b["lo"] or b["kind"] != "log" else 1e-3, bin_max=b["hi"], num_bins=b["n"])
    return o


def build_objs(w, logger=None):
    o = Objs()
    o.w = w
    o.logger = logger
    o.cats = [build_cat(c) for c in w["cats"]]
    o.bins = [build_bin(b) for b in w["bins"]]
    o.ps = [ParameterSet(param_dict=paramset_dict(p)) for p in w["ps"]]
    o.sps = {}
    o.los = {}
    o.wc = {}
    o.fm = {}
    o.tr = {}
    o.wins = {}
    o.psd = {}
    o.keep = []
    return o


def get_los(o, i):
    """An array of lines of sight of the user's own."""
    if i not in o.los:
        r = np.random.default_rng(o.w["cats"][i]["seed"] + 1)
        v = r.normal(size=(len(o.cats[i]), 3)) + [0, 0, 5]
        o.los[i] = v / np.sqrt((v**2).sum(1))[:, None]
    return o.los[i]


def do(o, op, raw=False):
    """Execute an operation; returns the library's own result objects."""
    k = op["op"]
    w = o.w
    with quiet():
        if k in MEASURE:
            f = MEASURE[k][1]
            kw = {}
            if op.get("ps") is not None:
                kw["paramset"] = o.ps[op["ps"]] if not op.get("psdict") else o.psd.setdefault(op["ps"], paramset_dict(w["ps"][op["ps"]]))
                usebin, usesp, usedeg = op["usebin"], op["usesp"], op["usedeg"]
            else:
                usebin = usesp = usedeg = True
            if usebin:
                kw["binning"] = o.bins[op["bin"]]
            if usesp:
                key = id(op)
                kw["sampling_params"] = o.sps.setdefault(repr(op["sp"]), copy.deepcopy(op["sp"]))
            if usedeg:
                if k in SURVEY2 or k in BOX2 or k == "corrfunc_window":
                    kw["degree"] = op["deg"]
                else:
                    kw["degrees"] = tuple(op["deg"])
                    kw["form"] = op["form"]
                    if op["idx"] is not None:
                        kw["idx_bin"] = op["idx"]
            if k == "3pcf_window" and op.get("wa"):
                kw["wa_orders"] = tuple(op["wa"])
            if op.get("save"):
                kw["save"] = op["save"]
            if op.get("logger") and o.logger is not None:
                kw["logger"] = o.logger
            if k in SURVEY2 or k in SURVEY3:
                if op["los"]:
                    kw["los_data"], kw["los_rand"] = get_los(o, op["data"]), get_los(o, op["rand"])
                kw.update(op.get("extra", {}))
                return f(o.cats[op["data"]], o.cats[op["rand"]], **kw)
            if k in WIN:
                if op["los"]:
                    kw["los_rand"] = get_los(o, op["rand"])
                kw.update(op.get("extra", {}))
                return f(o.cats[op["rand"]], **kw)
            kw.update(op.get("extra", {}))
            return f(o.cats[op["rand"]], **kw)
        if k == "binvec":
            b = o.bins[op["bin"]]
            if op.get("ps") is not None:
                kw = {k: op[k] for k in op["over"]}
                ps = o.ps[op["ps"]] if not op.get("psdict") else o.psd.setdefault(op["ps"], paramset_dict(w["ps"][op["ps"]]))
                return fieldmesh.record_binned_vectors(b, paramset=ps, **kw)
            return fieldmesh.record_binned_vectors(b, boxsize=op["boxsize"], ngrid=op["ngrid"])
        if k == "winconv":
            if op["wc"] not in o.wc:
                o.wc[op["wc"]] = build_winconv(w["wc"][op["wc"]], o.keep)
            if op["what"] == "formulae" and op["wc"] not in o.fm:
                o.fm[op["wc"]] = winconv.WinConvFormulae(formula_of(w["wc"][op["wc"]]))
            return do_winconv(o.wc[op["wc"]], w["wc"][op["wc"]], op, o.keep, formulae=o.fm.get(op["wc"]))
        if k == "transform":
            if op["tr"] not in o.tr:
                o.tr[op["tr"]] = build_transform(w["tr"][op["tr"]])
            return do_transform(o.tr[op["tr"]], w["tr"][op["tr"]], op, o.keep)
        if k == "window":
            return do_window(o, op)
        if k == "los":
            return o.cats[op["data"]].compute_los()
        if k == "header":
            return o.cats[op["data"]].write_attrs_as_header(catalogue_ref=o.cats[op["rand"]])
        if k == "psfetch":
            d = fetch_paramset_template("dict")
            return d
        if k == "psitems":
            return {a: plain(b) for a, b in o.ps[op["ps"]].items()}
        if k == "binfrom":
            b = Binning.from_parameter_set(o.ps[op["ps"]])
            return [b.scheme, b.space, list(b.bin_edges), list(b.bin_centres), list(b.bin_widths)]
        raise KeyError(k)


def other_op(rng, w):
    k = rng.choice(["binvec", "binvec", "window", "window", "los", "header", "psfetch", "psitems", "binfrom"])
    if k in ("psitems", "binfrom") and not w["ps"]:
        k = "los"
    op = {"op": k, "data": rng.choice([0, 2]), "rand": rng.choice([1, 3])}
    if k == "binvec":
        op["bin"] = rng.randrange(len(w["bins"]))
        op["boxsize"], op["ngrid"] = w["L"], rng.choice([6, 8])
        if rng.random() < 0.5:
            op["boxsize"], op["ngrid"] = [w["L"], w["L"] * 1.1, w["L"]], [6, 8, 6]
        if w["ps"] and rng.random() < 0.5:
            op["ps"], op["psdict"] = rng.randrange(len(w["ps"])), rng.random() < 0.25
            op["over"] = rng.choice([[], ["boxsize"], ["ngrid"], ["boxsize", "ngrid"]])
    if k == "window":
        op.update(seed=rng.randrange(10**6), wins=rng.randrange(3), what=rng.choice(["sub", "sub", "resample", "dict", "ic", "points"]), idx=rng.choice([None, (1, None), (None, -1)]),
                  rr=rng.choice([None, (10., None), (None, 100.)]), inplace=rng.random() < 0.3, size=rng.choice([None, 6, 9]), spacing=rng.choice(["lglin", "lin"]), approx=rng.random() < 0.3)
    if k in ("psitems", "binfrom"):
        op["ps"] = rng.randrange(len(w["ps"]))
    return op


def build_window(i):
    r = np.logspace(0.5, 2.2, 7 + i)
    iu = np.triu_indices(len(r))
    g = np.indices((len(r), len(r))).reshape(2, -1)
    a = np.random.default_rng(i)
    pts = {"000": np.column_stack((r[iu[0]], r[iu[1]])), "101": np.column_stack((r[g[0]], r[g[1]]))}
    return winconv.ThreePointWindow(pts, {m: a.normal(size=len(p)) + 3. for m, p in pts.items()}, alpha_contrast=0.5)


def window_values(v):
    return {"r": {str(m): np.array(x) for m, x in v.r.items()}, "Q": {str(m): np.array(x) for m, x in v.Q.items()},
            "diag": {str(m): np.array(x) for m, x in v.Q_diag.items()}, "multipoles": [str(m) for m in v.multipoles], "sources": list(v.sources)}


def do_window(o, op):
    """Window function objects are kept; what is derived from them is not."""
    if op["wins"] not in o.wins:
        o.wins[op["wins"]] = build_window(op["wins"])
    v = o.wins[op["wins"]]
    if op["what"] == "sub":
        return window_values(v.subselect(rrange=op["rr"], idxrange=op["idx"]))
    if op["what"] == "resample":
        u = v.subselect(idxrange=op["idx"])
        u.resample(spacing=op["spacing"], size=op["size"])
        return window_values(u)
    if op["what"] == "dict":
        d = {"r": dict(v.r), "Q": dict(v.Q)}
        o.keep.append(("window dictionary", d, plain(d)))
        u = winconv.ThreePointWindow.load_from_dict(d)
        if op["inplace"]:
            u.subselect(rrange=op["rr"], idxrange=op["idx"], inplace=True)
        else:
            u.resample(size=op["size"])
        return window_values(u)
    a = np.random.default_rng(op["seed"])
    if op["what"] == "points":
        n = 5
        pts = np.column_stack([x.ravel() for x in np.meshgrid(np.linspace(2., 9., n), np.linspace(2., 9., n), indexing="ij")])
        q = {"101": a.normal(size=n * n)}
        o.keep += [("window points", pts, pts.copy()), ("window samples", q, plain(q))]
        return window_values(winconv.ThreePointWindow(pts, q, alpha_contrast=0.3, make_loglin=op["inplace"]))
    x = np.logspace(0.6, 2., 8)
    z = {"000": np.outer(np.exp(-x / 50.), np.exp(-x / a.uniform(20, 60))), "101": np.outer(1 / x, 1 / x) * a.uniform(1, 2)}
    rc = None if op["inplace"] else np.logspace(0.7, 1.9, 6)
    o.keep += [("integral-constraint input", z, plain(z)), ("integral-constraint points", x, x.copy()), ("common points", rc, plain(rc))]
    return winconv.calc_threept_ic(v.r, v.Q, x, z, r_common=rc, approx=op["approx"])


def twin_op(rng, w, op):
    """The same operation with one of its ingredients replaced."""
    t = copy.deepcopy(op)
    k = t["op"]

    def sp(d):
        x = rng.choice(["ngrid", "boxsize", "assignment", "interlace"])
        axes = isinstance(d[x], dict)
        if x == "ngrid" and d[x] is not None:
            ks = "xyz" if axes else range(3)
            f = rng.choice([1, 2])
            for a in ks:
                d[x][a] = d[x][a] + f if d[x][a] is not None else None
        elif x == "boxsize":
            for a in ("xyz" if axes else range(3)):
                d[x][a] = d[x][a] * 1.1 if d[x][a] is not None else None
        elif x == "interlace":
            d[x] = not d[x]
        else:
            d["assignment"] = rng.choice([a for a in ("ngp", "cic", "tsc", "pcs") if a != d["assignment"]])
    if k in MEASURE:
        x = rng.choice(["sp", "sp", "deg", "cat", "cat", "bin", "form", "los", "norm", "wa"])
        if x == "cat":
            i = rng.choice(["data", "rand"]) if k in SURVEY2 or k in SURVEY3 else "rand"
            t[i] = {0: 2, 2: 0, 1: 3, 3: 1}[t[i]]
        elif x == "bin":
            t["bin"] = rng.choice([i for i, b in enumerate(w["bins"]) if b["space"] == w["bins"][t["bin"]]["space"] and i != t["bin"]])
            t["usebin"] = True
        elif x == "deg":
            t["deg"] = rng.choice([0, 1, 2, 4]) if np.isscalar(t["deg"]) else rng.choice(DEG3)
            t["usedeg"] = True
        elif x == "form" and "form" in t:
            t["form"] = rng.choice(["diag", "off-diag", "row", "full"])
            t["idx"] = rng.choice([0, 1]) if t["form"] in ("off-diag", "row") else None
            t["usedeg"] = True
        elif x == "wa" and k == "3pcf_window" and t.get("ps") is None:
            t["wa"] = rng.choice([(0, 0), (1, 0), (0, 2), (1, 1)])
        elif x == "los":
            t["los"] = not t["los"]
        elif t.get("ps") is not None:
            p = copy.deepcopy(w["ps"][t["ps"]])
            if x == "norm":
                p["norm_convention"] = rng.choice(["none", "particle", "mesh"])
            else:
                sp(p)
            w["ps"].append(p)
            t["ps"], t["usesp"] = len(w["ps"]) - 1, False
        else:
            sp(t["sp"])
    elif k == "winconv":
        c = copy.deepcopy(w["wc"][t["wc"]])
        x = rng.choice(["input", "ic", "ic", "what", "object"] if c["ic"] else ["input", "what", "object", "object"])
        if x == "input":
            t["seed"] = rng.randrange(10**6)
        elif x == "ic":
            t["ic"] = rng.choice([x for x in (None, 0.1, 0.3, 0.3) if x != t["ic"]])
        elif x == "what":
            t["what"] = rng.choice(["convolve", "ret", "formulae"])
        else:
            y = rng.choice(["lowring", "amp", "terms", "rout", "kw", "fewkw"])
            c[y] = rng.uniform(0.5, 2.) if y == "amp" else 3 - c[y] if y == "terms" else not c[y]
            w["wc"].append(c)
            t["wc"] = len(w["wc"]) - 1
    elif k == "transform":
        c = copy.deepcopy(w["tr"][t["tr"]])
        x = rng.choice(["input", "what", "object", "object", "object"])
        if x == "input":
            t["seed"] = rng.randrange(10**6)
        elif x == "what":
            t["what"] = rng.choice(["t", "c+", "c-"])
        else:
            y = rng.choice(["lowring", "extrap", "deg", "bias", "extrap_exp"])
            c[y] = {"lowring": not c["lowring"], "extrap": rng.choice([0, 1, 3, 5]), "deg": rng.choice([0, 1, 2]), "bias": 0.5 - c["bias"], "extrap_exp": 3.5 - c["extrap_exp"]}[y]
            w["tr"].append(c)
            t["tr"] = len(w["tr"]) - 1
    elif k == "window":
        t["seed"], t["rr"], t["size"] = rng.randrange(10**6), rng.choice([None, (10., None), (None, 100.)]), rng.choice([None, 6, 9])
    elif k == "binvec":
        t["bin"] = rng.randrange(len(w["bins"]))
    else:
        t["data"] = 2 - t["data"]
    return t


# explicit changes by the user of the objects
def mutation_op(rng, w, target=None):
    """A change made by the user; of something the target operation uses, if given."""
    k = rng.choice(["offset", "periodise", "centre", "setws", "setps", "setbins", "density", "pad", "setnz", "setnz", "roll", "rollws", "los", "spdict", "rebin"])
    op = {"op": "mut", "what": k, "cat": rng.randrange(len(w["cats"])), "v": rng.uniform(0.2, 0.9), "bin": rng.randrange(len(w["bins"]))}
    sp = None
    if target is not None:
        op["cat"] = target["rand"] if target["op"] not in SURVEY2 and target["op"] not in SURVEY3 or rng.random() < 0.5 else target["data"]
        op["bin"] = target["bin"]
        sp = target["sp"]
    if k == "setps":
        if target is not None and target.get("ps") is not None:
            op["ps"] = target["ps"]
        elif not w["ps"]:
            op["what"] = "offset"
        else:
            op["ps"] = rng.randrange(len(w["ps"]))
    if k == "spdict":
        if sp is None:
            op["what"] = "roll"
        else:
            op["sp"] = copy.deepcopy(sp)
    return op


def do_mut(o, op):
    c = o.cats[op["cat"]]
    k, v, L = op["what"], op["v"], o.w["L"]
    with quiet():
        if k == "offset":
            c.offset_coords([v * L * 0.1, -v * 3., 1.])
        elif k == "periodise":
            c.periodise([L, L, L])
        elif k == "centre":
            c.centre([1.2 * L] * 3)
        elif k == "pad":
            c.pad([1.4 * L] * 3, boxsize_pad=0.01)
        elif k == "setws":
            c["ws"] = v * np.asarray(c["ws"])
        elif k == "setnz":
            c["nz"] = v * np.asarray(c["nz"])
        elif k == "roll":            # the same coordinates in another combination
            c["y"] = np.roll(np.asarray(c["y"]), 1 + int(3 * v))
        elif k == "rollws":          # the same weights on other particles
            c["ws"] = np.roll(np.asarray(c["ws"]), 1 + int(3 * v))
        elif k == "los":             # in the array handed over before
            a = get_los(o, op["cat"])
            a[...] = np.roll(a, 1 + int(3 * v), axis=0)
        elif k == "spdict":          # in the dictionary handed over before
            d = o.sps.setdefault(repr(op["sp"]), copy.deepcopy(op["sp"]))
            d["assignment"] = ["ngp", "cic", "tsc", "pcs"][(["ngp", "cic", "tsc", "pcs"].index(d["assignment"]) + 1 + int(3 * v)) % 4]
        elif k == "rebin":           # other edges between the same ends
            b = o.bins[op["bin"]]
            if o.w["bins"][op["bin"]]["kind"] == "linpad":
                return
            e = np.linspace(float(b.bin_min) or 1e-3, float(b.bin_max), int(b.num_bins) + 1)
            e[1:-1] *= 1 + 0.05 * v
            b.set_custom_bins(list(e))
        elif k == "density":
            c.compute_mean_density(boxsize=L)
        elif k == "setps":
            p = o.ps[op["ps"]]
            p["assignment"] = ["ngp", "cic", "tsc", "pcs"][int(v * 4)]
            p["interlace"] = not p["interlace"] if isinstance(p["interlace"], bool) else False
        elif k == "setbins":
            b = o.bins[op["bin"]]
            if o.w["bins"][op["bin"]]["kind"] in ("custom", "grid"):
                return
            b.set_bins(b.bin_min if b.bin_min else 0.01, b.bin_max * v, b.num_bins)


# ---------------------------------------------------------------- plain values
def plain(x):
    """Plain copy of a result."""
    if isinstance(x, dict):
        return {k if isinstance(k, (str, int, tuple)) else str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, str):
        return re.sub(r"extdata:\d+", "extdata:*", x)     # an object's address
    if x is None or isinstance(x, (str, int, float, complex, bool, np.generic)):
        return x
    if hasattr(x, "__array__"):
        return np.array(x)
    return str(x)


def cat_state(c):
    d = {k: np.array(c[k]) for k in ("x", "y", "z", "nz", "ws", "wc")}
    d["_attrs"] = {k: plain(v) for k, v in sorted(vars(c).items()) if not k.startswith("_")}
    return d


def bin_state(b):
    return {k: plain(getattr(b, k, None)) for k in ("space", "scheme", "bin_min", "bin_max", "num_bins", "bin_edges", "bin_centres", "bin_widths")}


def state(o):
    return {"catalogue": [cat_state(c) for c in o.cats], "binning": [bin_state(b) for b in o.bins],
            "parameter set": [plain(dict(p.items())) for p in o.ps],
            "sampling parameters": {k: plain(v) for k, v in o.sps.items()}, "lines of sight": {k: np.array(v) for k, v in o.los.items()},
            "parameters": {k: plain(v) for k, v in o.psd.items()}, "window function": {k: window_values(v) for k, v in o.wins.items()}}


def scribble(x):
    """The user overwrites what a call returned."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, np.ndarray)):
                scribble(x[k])
            else:
                x[k] = None
        x["scribbled"] = True
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("scribbled")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fciu":
        x[...] = 77
