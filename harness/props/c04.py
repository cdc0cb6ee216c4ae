"""C04: the Delta conventions (offset, reflection about 180)."""

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub
from .c01 import reference, usable

from refellips import DataSE, ObjectiveSE, ReflectModelSE

RULE = (
    "a generated stack and 1-6 points, measured values in [0, 360] (0, 180, 360 "
    "and either side of 180 included), a Delta offset and the convention "
    "(reflected or not); non-trivial if the model's or the measured Delta is "
    "above 180 for some point, or the offset is not zero"
)
ASSUMPTIONS = [
    "model Delta within 1e-6 deg of 0/180/360 is not judged for reflection"
]


def fold(d):
    d = np.array(d, float)
    return np.where(d > 180, 360 - d, d)


def check(case):
    s, q, off = case["s"], case["q"], case["off"]
    refs = reference(s, q)
    for (w, a), r in zip(q, refs):
        la = ref.layers_of(s, w)
        if not usable(*r, [x[1] for x in la], a) or min(map(abs, r)) < 1e-6:
            raise Reject("ill conditioned")
    n = len(q)
    dpsi = np.array(case["psi"][:n])
    ddel = np.array(case["delta"][:n])
    plain = build.call_model(build.model(s), q)
    psi0, del0 = plain
    w, a = np.array(q).T

    # the offset is an additive constant on delta, nothing else
    m = build.model(s, delta_offset=off)
    psi, delta = build.call_model(m, q)
    build.close(psi, psi0, 0, 1e-7, "psi with a delta offset")
    build.close(delta, del0 + off, 0, 1e-7, "delta with a delta offset")
    # ... and is a live parameter
    m2 = build.model(s)
    m2.delta_offset.value = off
    psi, delta = build.call_model(m2, q)
    build.close(delta, del0 + off, 0, 1e-7, "delta after setting delta_offset")

    # data
    raw = [np.array(w), np.array(a), dpsi.copy(), ddel.copy()]
    d_plain = DataSE(tuple(x.copy() for x in raw))
    d_fold = DataSE(tuple(x.copy() for x in raw), reflect_delta=True)
    build.close(build.arr(d_plain.delta, (n,)), ddel, 0, 0, "data.delta")
    build.close(build.arr(d_fold.delta, (n,)), fold(ddel), 1e-15, 1e-12,
                "reflected data.delta")
    require((np.asarray(d_fold.delta) <= 180).all(), "reflected delta above 180")
    for x, y in ((d_plain, "plain"), (d_fold, "reflected")):
        build.close(build.arr(x.psi, (n,)), dpsi, 0, 0, f"{y} data.psi")
        build.close(build.arr(x.wavelength, (n,)), w, 0, 0, f"{y} wavelength")
        build.close(build.arr(x.aoi, (n,)), a, 0, 0, f"{y} aoi")

    near = np.minimum(np.abs(del0 - 180), np.abs((del0 + 180) % 360 - 180)) < 1e-6
    for dat, exp_d, exp_m, lab in (
        (d_plain, ddel, del0 + off, "plain"),
        (d_fold, fold(ddel), fold(del0) + off, "reflected"),
    ):
        obj = ObjectiveSE(build.model(s, delta_offset=off), dat)
        res = build.arr(obj.residuals(), (2 * n,), "residuals")
        build.close(res[:n], psi0 - dpsi, 0, 1e-7, f"{lab} psi residuals")
        e = ref.circ(exp_m, exp_d)
        bad = np.abs(res[n:] - e) > 2e-7
        require(not (bad & ~near).any(),
                f"{lab} delta residuals {res[n:]} expected {e} (model {exp_m}, "
                f"data {exp_d})")
        # the objective's model reports delta in the data's convention
        p, d = build.call_model(obj.model, q)
        bad = np.abs(d - exp_m) > 2e-7
        require(not (bad & ~near).any(),
                f"{lab}: model delta {d} expected {exp_m}")
        build.close(p, psi0, 0, 1e-7, "psi")
    return dict(
        nontrivial=bool((del0 > 180).any() or (ddel > 180).any() or off != 0),
        labels=(["model above 180"] if (del0 > 180).any() else [])
        + (["data above 180"] if (ddel > 180).any() else [])
        + (["offset"] if off else []),
    )


def strat():
    dl = st.one_of(gen.uni(0, 360, 4), gen.uni(0, 360, 4),
                   st.sampled_from([0.0, 180.0, 360.0, 180.0001, 179.9999, 359.9,
                                    181.0, 270.0]))
    return st.builds(
        lambda s, q, p, d, o: {"s": s, "q": q, "psi": p, "delta": d, "off": o},
        gen.structure(mat=st.one_of(gen.exact_material, gen.transparent), nmax=3),
        gen.queries(1, 6, ang=gen.uni(5, 88, 3)),
        st.lists(gen.uni(0, 90, 4), min_size=6, max_size=6),
        st.lists(dl, min_size=6, max_size=6),
        st.one_of(st.just(0.0), gen.uni(-30, 30, 3), gen.uni(-400, 400, 3)),
    )


SUBS = [Sub("conventions", strat, check, quick=1500)]
