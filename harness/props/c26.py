"""C26: looking at an analysis doesn't change it, and shows what it is."""

import math
import os
import sys

import numpy as np
from hypothesis import strategies as st
from refnx._lib import flatten

from .. import build, core, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import DataSE, ObjectiveSE, ReflectModelSE

sys.path.insert(0, os.path.join(core.REPO, "tools"))
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import plottools

RULE = (
    "a generated stack in a model with data (mask, reflected delta, offset) in an "
    "objective, reversed or not, solvated; a history of 1-4 observations (str/repr "
    "of everything, plots of the objective, of the structure with and without "
    "samples, of the data, profiles, slabs, covariance, samples); after each one all "
    "answers are as before, and the curves and points drawn are the model's and the "
    "data's; non-trivial if the stack has at least one inner layer of non-zero "
    "thickness and at least one plot was made"
)
SCALE = 2
ASSUMPTIONS = ["the wavelength a structure was last asked for isn't a setting"]


def snap(W):
    stt, model, obj, dat = W["st"], W["model"], W["obj"], W["data"]
    w0 = stt.wavelength
    out = {
        "residuals": np.array(obj.residuals()),
        "psi, delta": np.array(model(W["q"])),
        "parameters": np.array([float(p.value) for p in flatten(obj.parameters)]),
        "vary": np.array([p.vary for p in flatten(obj.parameters)]),
        "slabs": np.array(stt.slabs(wavelength=W["w"])),
        "data": np.array(dat.data), "mask": np.array(dat.mask),
        "settings": [stt.ema, stt.reverse_structure, id(stt.solvent), stt.contract,
                     stt.depolarisation_factor, len(stt), [id(c) for c in stt],
                     stt.name, model.name, obj.name, obj.weighted],
    }
    stt.wavelength = w0
    return out


def cmp(a, b, what):
    for k in a:
        if k == "settings":
            require(a[k] == b[k], f"{what} changed the settings {a[k]} to {b[k]}")
        else:
            require(a[k].shape == b[k].shape
                    and np.array_equal(a[k], b[k], equal_nan=True),
                    f"{what} changed {k} from {a[k]!r} to {b[k]!r}")


def lines(ax):
    return [np.array(l.get_xydata(), float) for l in ax.get_lines()]


def scatters(ax):
    return [np.ma.getdata(c.get_offsets()).astype(float) for c in ax.collections]


def near(a, b, tol=1e-9):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=tol,
                                              equal_nan=True)


def points(ax, x, y, what):
    want = np.c_[x, y]
    require(any(near(s, want) for s in scatters(ax)),
            f"{what}: points drawn {[s.tolist() for s in scatters(ax)]}, "
            f"measured {want.tolist()}")


def curves(ax, f, xs_col, fixed, what, col):
    """Every line on ax is a model curve at one of the fixed coordinates."""
    ls = lines(ax)
    require(len(ls) == len(fixed), f"{what}: {len(ls)} curves for {len(fixed)}")
    left = list(fixed)
    for l in ls:
        x = l[:, 0]
        for v in left:
            q = np.c_[x, np.full(len(x), v)] if xs_col == 0 else np.c_[
                np.full(len(x), v), x]
            y = np.asarray(f(q)[col])
            if near(l[:, 1], y, 1e-7):
                left.remove(v)
                break
        else:
            raise Violation(f"{what}: a curve isn't the model's: {l.tolist()[:5]}")


def twin_of(ax, before):
    new = [a for a in ax.figure.axes if a is not ax and a not in before]
    require(len(new) == 1, "no second axis")
    return new[0]


def observe(W, o, case):
    stt, model, obj, dat = W["st"], W["model"], W["obj"], W["data"]
    t = o["t"]
    wav, aoi, psi, delta = (np.asarray(x) for x in dat.data)
    nw, na = np.unique(wav), np.unique(aoi)
    if t == "text":
        for x in (stt, model, obj, dat, *stt):
            str(x)
            repr(x)
        for la in stt:
            for m in ("ri", "ri_A", "ri_B"):
                if hasattr(la, m):
                    str(getattr(la, m))
                    repr(getattr(la, m))
        return
    if t == "numbers":
        obj.chisqr(), obj.logp(), obj.npoints, obj.varying_parameters()
        try:
            obj.logl()
            obj.logpost()
        except RuntimeError:
            pass
        list(dat.unique_wavelength_data())
        len(dat), len(stt), stt.logp(), model.logp()
        stt.slabs()
        return
    if t == "covar":
        if not list(obj.varying_parameters()):
            return
        try:
            obj.covar()
        except (np.linalg.LinAlgError, ValueError):
            pass
        return
    if t == "profile":
        stt.wavelength = o["w"]
        z, n = stt.ri_profile(align=0)
        stt.ri_profile(z=np.linspace(-10, 10, 5))
        return
    if t == "pgen":
        ps = list(flatten(obj.parameters))
        ch = [k for k, p in enumerate(ps) if p.chain is not None]
        if not ch:
            return
        nb, nt, ng = o["burn"]
        cs = np.array([np.ravel(ps[k].chain[..., nb::nt]) for k in ch])
        vs = list(obj.pgen(ngen=ng, nburn=nb, nthin=nt))
        require(len(vs) == min(ng, cs.shape[1]), f"pgen gave {len(vs)} samples")
        for v in vs:
            v = np.asarray(v, float)
            require(len(v) == len(ps), "pgen: length of a sample")
            require((cs == v[ch][:, None]).all(axis=0).any(),
                    "pgen: not one of the samples that were asked for")
            for k, p in enumerate(ps):
                require(k in ch or v[k] == float(p.value), "pgen: fixed parameter")
        return
    own = o["own"]
    fig = ax = None
    if t == "objective":
        kw = {}
        if own:
            fig, ax = plt.subplots()
            kw["fig"] = fig
        if o["x"] is not None:
            kw["xaxis"] = o["x"]
        kw["plot_labels"] = o["labels"]
        fig, ax = obj.plot(**kw)
        xa = o["x"] or ("aoi" if len(na) > 1 else "wavelength")
        axt = twin_of(ax, [])

        x = aoi if xa == "aoi" else wav
        fixed = list(nw if xa == "aoi" else na)
        curves(ax, W["gen"], 1 if xa == "aoi" else 0, fixed, "psi of the plot", 0)
        curves(axt, W["gen"], 1 if xa == "aoi" else 0, fixed, "delta of the plot", 1)
        points(ax, x, psi, "psi of the plot")
        points(axt, x, delta, "delta of the plot")
    elif t == "ellipsdata":
        fig, ax = plt.subplots()
        xa = o["x"] or "aoi"
        kw = {}
        resax = None
        if o["form"] == "objective":
            kw["objective"] = obj
            if own:
                fig2, resax = plt.subplots()
                kw["resax"] = resax
        elif o["form"] == "model":
            kw.update(model=model, data=dat)
        else:
            kw["data"] = dat
        plottools.plot_ellipsdata(ax, xaxis=xa, plot_labels=o["labels"],
                                  legend=o["labels"], **kw)
        axt = twin_of(ax, [])
        x = aoi if xa == "aoi" else wav
        points(ax, x, psi, "psi of plot_ellipsdata")
        points(axt, x, delta, "delta of plot_ellipsdata")
        if o["form"] == "data":
            require(not lines(ax) and not lines(axt), "model without a model")
        else:
            fixed = list(nw) if xa == "aoi" else [aoi[0]]
            c = 1 if xa == "aoi" else 0
            curves(ax, W["gen"], c, fixed, "psi of plot_ellipsdata", 0)
            curves(axt, W["gen"], c, fixed, "delta of plot_ellipsdata", 1)
        if resax is not None:
            r = np.asarray(obj.residuals())
            points(resax, x, r[:len(x)], "psi residuals")
            points(resax, x, r[len(x):], "delta residuals")
    elif t == "structure":
        mine = None
        if own:
            fig, (ax0, mine) = plt.subplots(1, 2)
            mark = mine.text(0, 0, "mine")
        ns = o["samples"]
        if all(p.chain is None for p in flatten(stt.parameters)):
            ns = 0
        stt.wavelength = o["w"]
        nl = len(stt) - 2
        kw = ({} if o["align"] is None else
              {"align": o["align"] % (2 * nl + 1) - nl})
        fig, ax = stt.plot(samples=ns, fig=fig, **kw)
        if own:
            require(ax is mine and fig.axes == [ax0, mine] and mark in ax.texts,
                    "structure.plot isn't on the current axes of the figure given")
        want = np.c_[stt.ri_profile(**kw)]
        require(len(lines(ax)) == 1 + min(ns, 20), "number of profiles drawn")
        require(any(near(l, want.T if want.shape[0] == 2 else want)
                    for l in lines(ax)), "structure.plot doesn't show the profile")
        if ns:
            # every other profile is that of one sample of the chains
            other = build.structure(case["s"])
            other.wavelength = o["w"]
            ps = list(flatten(stt.parameters))
            qs = list(flatten(other.parameters))
            size = next(p.chain.size for p in ps if p.chain is not None)
            profs = [want.T if want.shape[0] == 2 else want]
            for k in range(size):
                for p, q in zip(ps, qs):
                    q.value = p.value if p.chain is None else np.ravel(p.chain)[k]
                profs.append(np.array(other.ri_profile(**kw)).T)
            for l in lines(ax):
                require(any(near(l, w, 1e-7) for w in profs),
                        "structure.plot shows a profile that isn't a sample's")
    elif t == "plot_structure":
        fig, ax = plt.subplots()
        kw = {"objective": obj} if o["form"] == "objective" else {"structure": stt}
        plottools.plot_structure(ax, reverse_structure=o["own"],
                                 plot_labels=o["labels"], **kw)
        ws = [658.0] if o["form"] != "objective" else list(nw)
        if len(ws) > 8:
            ws = np.linspace(min(ws), max(ws), 6)
        ls = lines(ax)
        require(len(ls) == len(ws), f"plot_structure drew {len(ls)} profiles")
        # the same sample, oriented as asked for
        other = build.structure(dict(case["s"], rev=bool(o["own"])))
        for l, w in zip(ls, ws):
            other.wavelength = w
            other.slabs(wavelength=w)
            want = np.array(other.ri_profile()).T
            require(near(l, want, 1e-7), f"plot_structure at {w} nm isn't the profile")
    plt.close("all")


def check(case):
    s = case["s"]
    stt = build.structure(s)
    model = ReflectModelSE(stt, delta_offset=case["off"], name="m")
    rows = case["rows"]
    cols = [np.array([r[i] for r in rows]) for i in range(4)]
    dat = DataSE(tuple(cols), reflect_delta=case["flip"], name="d")
    if case["mask"] and len(rows) > 2:
        m = np.arange(len(rows)) % 3 != 0
        dat.mask = m
    obj = ObjectiveSE(model, dat, name="o", **(
        {"lnsigma": -2.0} if case["lnsigma"] else {}))
    ps = list(flatten(stt.parameters))
    for k, p in enumerate(ps):
        if case["vary"][k % len(case["vary"])]:
            p.setp(vary=True, bounds=(p.value - 1, p.value + 1))
    if case["chain"]:
        rng = np.random.default_rng(3)
        for p in flatten(obj.parameters):
            if p.vary:
                p.chain = p.value * (1 + 1e-3 * rng.standard_normal((5, 4)))
    # the model's curves, from an analysis of its own
    twin = ObjectiveSE(ReflectModelSE(build.structure(s), delta_offset=case["off"]),
                       DataSE(tuple(c.copy() for c in cols),
                              reflect_delta=case["flip"]))

    def genr(q):
        return twin.model(q)

    W = dict(st=stt, model=model, obj=obj, data=dat, w=case["w"],
             q=np.array([r[:2] for r in rows]), gen=genr)
    with np.errstate(all="ignore"):
        try:
            a = snap(W)
            for o in case["ops"]:
                observe(W, o, case)
                cmp(a, snap(W), o["t"])
        finally:
            plt.close("all")
    plots = [o["t"] for o in case["ops"] if o["t"] in (
        "objective", "ellipsdata", "structure", "plot_structure")]
    return dict(nontrivial=bool(plots) and any(
        la["d"] > 0 for la in s["layers"][1:-1]), labels=sorted(
            {o["t"] for o in case["ops"]}) + (["reversed"] if s["rev"] else []))


@st.composite
def strat(draw):
    s = draw(gen.structure(
        mat=st.one_of(gen.transparent, gen.cauchy, gen.table(), gen.const), nmin=1,
        nmax=3, vf=True, mixeds=True, rev=True, solvent=True, d=gen.uni(1, 500, 2)))
    s["dp"] = draw(st.sampled_from([1 / 3, 0.5]))
    n = draw(st.integers(1, 11))
    aois = draw(st.lists(gen.uni(35, 75, 1), min_size=1, max_size=3))
    wavs = draw(st.lists(gen.uni(350, 1200, 1), min_size=1, max_size=10))
    rows = [[draw(st.sampled_from(wavs)), draw(st.sampled_from(aois)),
             draw(gen.uni(0, 90, 2)), draw(gen.uni(0, 360, 2))] for _ in range(n)]
    op = st.fixed_dictionaries({
        "t": st.sampled_from(["text", "numbers", "covar", "profile", "pgen",
                              "objective", "objective", "ellipsdata", "ellipsdata",
                              "structure", "structure", "plot_structure",
                              "plot_structure"]),
        "x": st.sampled_from([None, "aoi", "wavelength"]),
        "own": st.booleans(), "labels": st.booleans(),
        "form": st.sampled_from(["objective", "model", "data"]),
        "samples": st.sampled_from([0, 3]),
        "align": st.one_of(st.none(), st.integers(0, 9)),
        "burn": st.sampled_from([[0, 1, 1000], [2, 1, 30], [0, 2, 3], [1, 3, 50]]), "w": gen.uni(350, 1200, 1),
    })
    return {"s": s, "rows": rows, "ops": draw(st.lists(op, min_size=1, max_size=4)),
            "off": draw(st.sampled_from([0.0, 5.0])), "flip": draw(st.booleans()),
            "mask": draw(st.booleans()), "lnsigma": draw(st.booleans()),
            "vary": draw(st.lists(st.booleans(), min_size=1, max_size=5)),
            "chain": draw(st.booleans()), "w": draw(gen.uni(350, 1200, 1))}


SUBS = [Sub("observe", strat, check, quick=900)]
