"""C25: fitting improves, stays in bounds, and finds the sample it came from."""

import math

import numpy as np
from hypothesis import strategies as st
from refnx._lib import flatten
from refnx.analysis import CurveFitter, GlobalObjective

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from . import c21

from refellips import DataSE, ObjectiveSE, ReflectModelSE

RULE = (
    "a generated stack; measurements made by the reference model (exact, or with "
    "noise and either delta convention/masks); 1-3 parameters moved away and fitted "
    "(least squares, L-BFGS-B, Nelder-Mead, differential evolution, one or two "
    "datasets); non-trivial if the start is at least 1 % off and chi-squared at the "
    "start is above 1e-3"
)
SCALE = 2
ASSUMPTIONS = [
    "recovery of the truth is only demanded of problems that an independent "
    "Gauss-Newton fit with the reference model also solves from the same start"
]


def synth(s, q, off, flip):
    return c21.expected(s, q, off, flip)


def resid(s, q, off, flip, pd, dd):
    psi, delta = c21.expected(s, q, off, flip)
    return np.r_[psi - pd, (delta - dd + 180) % 360 - 180]


def gauss_newton(f, x, lo, hi):
    """Own damped least squares; returns (x, chi2)."""
    x = np.array(x, float)
    r = f(x)
    c = r @ r
    lam = 1e-3
    for _ in range(60):
        J = np.empty((len(r), len(x)))
        for k in range(len(x)):
            h = 1e-6 * max(abs(x[k]), 1e-3)
            e = np.zeros(len(x))
            e[k] = h
            d = f(x + e) - f(x - e)
            m = len(r) // 2
            d[m:] = (d[m:] + 180) % 360 - 180
            J[:, k] = d / (2 * h)
        A = J.T @ J
        g = J.T @ r
        for _ in range(8):
            try:
                dx = -np.linalg.solve(A + lam * np.diag(np.diag(A) + 1e-30), g)
            except np.linalg.LinAlgError:
                return x, c
            y = np.clip(x + dx, lo, hi)
            ry = f(y)
            cy = ry @ ry
            if np.isfinite(cy) and cy < c:
                done = c - cy < 1e-14 * (1 + c)
                x, r, c = y, ry, cy
                lam = max(lam / 10, 1e-12)
                break
            lam *= 10
        else:
            return x, c
        if c < 1e-18 or done:
            return x, c
    return x, c


def check(case):
    s = case["s"]
    q = case["q"]
    if not c21.good(s, q):
        raise Reject("ill conditioned")
    off, flip = case["off"], case["flip"]
    psi, delta = synth(s, q, off, flip)
    noise = np.array(case["noise"])
    pd = psi + noise[np.arange(len(q)) % len(noise)] * case["sig"]
    dd = delta + noise[(np.arange(len(q)) + 3) % len(noise)] * case["sig"]
    if not flip:
        dd = dd % 360
    stt = build.structure(s)
    model = ReflectModelSE(stt, delta_offset=off)

    def dataset(idx):
        d = DataSE((np.array([q[i][0] for i in idx]), np.array([q[i][1] for i in idx]),
                    pd[idx], dd[idx]), reflect_delta=False)
        # measured values are already in the convention
        if flip:
            d = DataSE((np.array([q[i][0] for i in idx]),
                        np.array([q[i][1] for i in idx]), pd[idx], dd[idx]),
                       reflect_delta=True)
        return d

    n = len(q)
    if flip and ((dd > 179.9) | (dd < 0.1)).any():
        raise Reject("fold")
    if case["two"] and n >= 6:
        objs = [ObjectiveSE(model, dataset(list(range(0, n, 2)))),
                ObjectiveSE(model, dataset(list(range(1, n, 2))))]
        obj = GlobalObjective(objs)
        perm = list(range(0, n, 2)) + list(range(1, n, 2))
    else:
        obj = ObjectiveSE(model, dataset(list(range(n))))
    allh = build.handles(s, stt) + [(model.delta_offset, ["offset"])]
    pick = []
    for i in case["pick"]:
        p, path = allh[i % len(allh)]
        if path[-1] == "r" or path[:2] in (["layers", 0],
                                           ["layers", len(s["layers"]) - 1]):
            continue
        v = off if path == ["offset"] else build.spec_get(s, path)
        if path[-1] in ("vf", "vfb") and not 0.1 < v < 0.9:
            continue
        if all(p is not x[0] for x in pick):
            pick.append((p, path, float(v)))
    if not pick:
        raise Reject("nothing to fit")
    truth = {}
    for k, (p, path, v) in enumerate(pick):
        w = max(abs(v) * case["width"], 1e-3)
        lo, hi = v - w * 0.9, v + w * 1.1
        if path[-1] in ("vf", "vfb"):
            lo, hi = max(lo, 0.01), min(hi, 0.99)
        st_ = v + w * case["move"][k % len(case["move"])]
        st_ = min(max(st_, lo), hi)
        truth[id(p)] = (v, lo, hi, st_)
        p.setp(vary=True, bounds=(lo, hi), value=st_)
    var = list(flatten(obj.varying_parameters()))
    paths = {id(p): path for p, path, _ in pick}
    fixed = [(p, float(p.value)) for p in flatten(obj.parameters)
             if all(p is not v for v in var)]
    x0 = np.array([p.value for p in var])
    chi0 = float(obj.chisqr())

    kw = {}
    meth = case["method"]
    if meth == "differential_evolution":
        kw = dict(tol=0.2, popsize=5, seed=1, polish=False)
    elif meth == "nelder-mead":
        kw = dict(options=dict(xatol=1e-3, fatol=1e-3))
    if meth == "differential_evolution":
        kw["verbose"] = False
    try:
        res = CurveFitter(obj).fit(meth, **kw)
    except np.linalg.LinAlgError:
        raise Reject("a parameter without effect on the data (see C23)")
    if not res.success:
        # refnx doesn't set the parameters then
        return dict(nontrivial=False, labels=[meth, "not converged"])
    chi1 = float(obj.chisqr())
    x = np.array([float(p.value) for p in var])
    require(np.isfinite(x).all(), f"{meth}: fitted values {x}")
    if meth != "differential_evolution":
        require(chi1 <= chi0 * (1 + 1e-9) + 1e-12,
                f"{meth}: chi2 went from {chi0} to {chi1}")
    for p, v in zip(var, x):
        _, lo, hi, _ = truth[id(p)]
        e = 1e-9 * (1 + abs(v))
        require(lo - e <= v <= hi + e, f"{meth}: {v} out of bounds [{lo}, {hi}]")
    for p, v in fixed:
        require(float(p.value) == v, f"{meth} changed a fixed parameter")
    require(np.allclose(np.asarray(res.x, float), x, rtol=1e-12, atol=1e-300),
            f"{meth}: result.x {res.x} but parameters are {x}")
    # what is reported belongs to the parameters left behind
    s1, o1 = s, off
    for p, v in zip(var, x):
        if paths[id(p)] == ["offset"]:
            o1 = float(v)
        else:
            s1 = build.spec_set(s1, paths[id(p)], float(v))
    ddr = c21.fold(dd) if flip else dd
    if c21.good(s1, q):
        r = resid(s1, q, o1, flip, pd, ddr)
        require(abs(r @ r - chi1) <= 1e-5 * (1 + chi1),
                f"{meth}: chi2 {chi1} but the fitted sample has {r @ r}")
    labels = [meth, "two datasets" if isinstance(obj, GlobalObjective) else "one",
              f"vary={len(var)}"]
    # recovery
    if case["sig"] == 0 and meth == "least_squares" and chi0 > 1e-3:
        def f(v):
            s2, o2 = s, off
            for p, val in zip(var, v):
                if paths[id(p)] == ["offset"]:
                    o2 = float(val)
                else:
                    s2 = build.spec_set(s2, paths[id(p)], float(val))
            return resid(s2, q, o2, flip, pd, ddr)

        lo = [truth[id(p)][1] for p in var]
        hi = [truth[id(p)][2] for p in var]
        xr, cr = gauss_newton(f, x0, lo, hi)
        t = np.array([truth[id(p)][0] for p in var])
        if cr < 1e-9 * chi0 and np.allclose(xr, t, rtol=1e-4, atol=1e-6):
            labels.append("recoverable")
            if not chi1 < 1e-4 * chi0:
                # a side minimum: from the neighbourhood of the truth it must
                # be found
                labels.append("side minimum")
                w = np.array(hi) - np.array(lo)
                for p, v, dv in zip(var, t, w * 0.02):
                    p.value = v + dv
                CurveFitter(obj).fit(meth)
                x = np.array([float(p.value) for p in var])
                require((np.abs(x - t) <= 0.01 * w).all(),
                        f"{meth}: the data are those of {t}, the fit gives {x}")
    return dict(nontrivial=chi0 > 1e-3, labels=labels)


@st.composite
def strat(draw):
    s = draw(gen.structure(
        mat=st.one_of(gen.transparent, gen.cauchy, gen.cauchy), nmin=1, nmax=2,
        front=gen.front_medium, back=st.one_of(gen.metal, gen.bundled),
        d=gen.uni(50, 800, 2), vf=draw(st.booleans())))
    s["dp"] = 1 / 3
    n = draw(st.integers(6, 14))
    return {
        "s": s, "q": [[draw(gen.uni(400, 1000, 1)), draw(gen.uni(50, 78, 1))]
                      for _ in range(n)],
        "off": draw(st.sampled_from([0.0, 0.0, 3.0])), "flip": draw(st.booleans()),
        "noise": [draw(gen.uni(-1, 1, 3)) for _ in range(7)],
        "sig": draw(st.sampled_from([0.0, 0.0, 0.3])),
        "pick": draw(st.lists(st.integers(0, 60), min_size=2, max_size=6)),
        "width": draw(st.sampled_from([0.05, 0.1, 0.3])),
        "move": draw(st.lists(gen.uni(-0.9, 0.9, 3), min_size=1, max_size=3)),
        "two": draw(st.integers(0, 3)) == 0,
        "method": draw(st.sampled_from(
            ["least_squares", "least_squares", "least_squares", "L-BFGS-B",
             "nelder-mead", "differential_evolution"])),
    }


SUBS = [Sub("fit", strat, check, quick=300, thorough=6000)]
