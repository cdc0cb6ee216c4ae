"""C23: the parameter covariance of a fit."""

import math

import numpy as np
from hypothesis import strategies as st
from numpy.linalg import LinAlgError

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from . import c21

from refellips import DataSE, ObjectiveSE, ReflectModelSE

RULE = (
    "a generated stack with 1-4 varying parameters (thickness, solvent fraction, "
    "dispersion coefficients, offset; some with value zero), measured points with "
    "masks and both delta conventions, weighted or not; the covariance is compared "
    "with (J'J)^-1 from a long double finite-difference Jacobian of the reference "
    "stack; also with a parameter that has no effect; non-trivial if at least two "
    "parameters vary"
)
ASSUMPTIONS = [
    "scaled Jacobian with a condition number below 1e4, away from the folds of the "
    "circular distance"
]


def residuals(case, s, off):
    ds = case["data"]
    rows = [r for r, m in zip(ds["rows"], ds["mask"]) if m]
    psi, delta = c21.expected(s, [r[:2] for r in rows], off, ds["flip"])
    pd = np.array([r[2] for r in rows])
    dd = np.array([r[3] for r in rows])
    if ds["flip"]:
        dd = c21.fold(dd)
    # signed: rows of the Jacobian differ by a sign only
    e = (delta - dd + 180) % 360 - 180
    return np.r_[psi - pd, e], delta - off


def check(case):
    s, ds = case["s"], case["data"]
    rows = [r for r, m in zip(ds["rows"], ds["mask"]) if m]
    q = [r[:2] for r in rows]
    if not q or not c21.good(s, q):
        raise Reject("ill conditioned")
    stt = build.structure(s)
    model = ReflectModelSE(stt, delta_offset=case["off"])
    cols = [np.array([r[i] for r in ds["rows"]]) for i in range(4)]
    dat = DataSE(tuple(cols), reflect_delta=ds["flip"])
    if not all(ds["mask"]):
        dat.mask = np.array(ds["mask"])
    dat.weighted = ds["weighted"]
    obj = ObjectiveSE(model, dat, use_weights=ds["use_weights"])

    # what varies
    allh = build.handles(s, stt) + [(model.delta_offset, ["offset"])]
    usable = []
    for p, path in allh:
        k = path[-1]
        if path == ["offset"]:
            usable.append((p, path))
        elif k == "r" or path[:2] in (["layers", 0], ["layers", len(s["layers"]) - 1]):
            continue
        elif len(path) == 3 and k in ("vf", "vfb"):
            v = build.spec_get(s, path)
            if 0.05 < v < 0.95 and len(stt) > 2:
                usable.append((p, path))
        else:
            usable.append((p, path))
    if not usable:
        raise Reject("nothing to vary")
    pick = []
    for i in case["pick"]:
        c = usable[i % len(usable)]
        if all(c[0] is not x[0] for x in pick):
            pick.append(c)
    for p, _ in pick:
        p.vary = True
    by = {id(p): path for p, path in pick}
    var = list(obj.varying_parameters())
    require({id(p) for p in var} == set(by), "varying parameters")
    paths = [by[id(p)] for p in var]
    vals = np.array([case["off"] if x == ["offset"] else build.spec_get(s, x)
                     for x in paths], float)

    def res(v):
        t, off = s, case["off"]
        for x, val in zip(paths, v):
            if x == ["offset"]:
                off = val
            else:
                t = build.spec_set(t, x, float(val))
        return residuals(case, t, off)

    r0, d0 = res(vals)
    m = len(q)
    n = 2 * m
    if n <= len(vals):
        raise Reject("fewer data than parameters")
    # folds
    if (np.abs(r0[m:]) < 0.05).any() or (np.abs(r0[m:]) > 179.95).any():
        raise Reject("fold of the circular distance")
    dm = np.abs((d0 + 180) % 360 - 180)
    if (dm < 0.05).any() or (ds["flip"] and (dm > 179.95).any()):
        raise Reject("fold of delta")
    J = np.empty((n, len(vals)))
    for k, v in enumerate(vals):
        h = 1e-5 * (abs(v) if v else 1.0)
        e = np.zeros(len(vals))
        e[k] = h
        a, b = res(vals + e)[0], res(vals - e)[0]
        a2, b2 = res(vals + 2 * e)[0], res(vals - 2 * e)[0]

        def wrap(x):
            return np.r_[x[:m], (x[m:] + 180) % 360 - 180]

        J[:, k] = (8 * wrap(a - b) - wrap(a2 - b2)) / (12 * h)
        # next to a point without reflection, or stepping across a fold
        d1, d2 = wrap(a - b) / (2 * h), wrap(a2 - b2) / (4 * h)
        if np.abs(d1 - d2).max() > 2e-4 * np.linalg.norm(d1):
            raise Reject("differences depend on the step")
    scale = np.where(vals == 0, 1.0, np.abs(vals))
    Js = J * scale
    if not np.isfinite(Js).all():
        raise Reject("no Jacobian")
    sv = np.linalg.svd(Js, compute_uv=False)
    if sv[-1] < 1e-2 or sv[0] / sv[-1] > 1e4:
        raise Reject("parameters not determined by the data")
    # with a zero value the code differentiates unscaled: steps of 6e-6
    if (vals == 0).any():
        su = np.linalg.svd(J, compute_uv=False)
        if su[0] / su[-1] > 1e6:
            raise Reject("badly scaled")
        if ((vals != 0) & (np.abs(vals) < 1e-3)).any():
            raise Reject("small value with an unscaled step")
    exp = np.linalg.inv(Js.T @ Js) * np.outer(scale, scale)
    chi = math.fsum(r0**2)
    weighted = ds["weighted"] and ds["use_weights"]
    if not weighted:
        exp = exp * chi / (n - len(vals))

    before = [float(p.value) for p in build_all(obj)]
    res_before = np.asarray(obj.residuals())
    c = build.arr(obj.covar(), (len(vals), len(vals)), "covariance")
    sd = np.sqrt(np.diag(exp))
    err = np.abs(c - exp) / np.outer(sd, sd)
    # rounding and truncation of the code's differences, amplified
    tol = 2e-3 + 1e-6 * (sv[0] / sv[-1]) ** 2 * (100 if (vals == 0).any() else 1)
    if tol > 0.1:
        raise Reject("badly conditioned")
    require((err <= tol).all(),
            f"covariance of {paths} at {vals} is {c.tolist()}, expected {exp.tolist()}")
    require([float(p.value) for p in build_all(obj)] == before,
            "covar changed the parameters")
    require(np.array_equal(np.asarray(obj.residuals()), res_before),
            "covar changed the residuals")

    # a parameter without any effect cannot have a variance
    if case["dead"] and n > len(vals) + 1:
        dead = stt[0].thick if case["dead"] == 1 else stt[1].rough
        dead.value = case["deadval"]
        dead.vary = True
        before = [float(p.value) for p in build_all(obj)]
        try:
            c = obj.covar()
        except LinAlgError:
            pass
        else:
            # with several parameters the singular direction is only found up
            # to rounding
            require(len(vals) > 1,
                    f"covar with a parameter without effect gives {c}")
        require([float(p.value) for p in build_all(obj)] == before,
                "a failed covar changed the parameters")
    return dict(nontrivial=len(vals) > 1,
                labels=[f"vary={len(vals)}"] + (["weighted"] if weighted else [])
                + (["zero value"] if (vals == 0).any() else [])
                + (["dead"] if case["dead"] else [])
                + (["mask"] if not all(ds["mask"]) else []))


def build_all(obj):
    from refnx._lib import flatten

    return list(flatten(obj.parameters))


@st.composite
def strat(draw):
    mat = st.one_of(gen.transparent, gen.cauchy, gen.cauchy, gen.lorentz)
    s = draw(gen.structure(
        mat=mat, nmin=1, nmax=3, front=gen.front_medium, back=st.one_of(
            gen.metal, gen.bundled), d=gen.uni(20, 2000, 2),
        vf=draw(st.booleans()), mixeds=draw(st.booleans())))
    s["dp"] = 1 / 3
    for la in s["layers"]:
        if la["t"] == "slab" and la["m"]["t"] == "cauchy" and draw(st.booleans()):
            la["m"][draw(st.sampled_from(["B", "C"]))] = 0.0
    n = draw(st.integers(3, 12))
    w = gen.uni(300, 1200, 1)
    return {
        "s": s,
        "data": {
            "rows": [[draw(w), draw(gen.uni(45, 80, 1)), draw(gen.uni(0, 90, 2)),
                      draw(gen.uni(0, 360, 2))] for _ in range(n)],
            "mask": [draw(st.integers(0, 4)) > 0 for _ in range(n)]
            if draw(st.booleans()) else [True] * n,
            "flip": draw(st.booleans()), "weighted": draw(st.booleans()),
            "use_weights": draw(st.booleans()),
        },
        "off": draw(st.one_of(st.just(0.0), gen.uni(-20, 20, 2))),
        "pick": draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)),
        "dead": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "deadval": draw(st.sampled_from([0.0, 5.0])),
    }


SUBS = [Sub("covar", strat, check, quick=1400)]
