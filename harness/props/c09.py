"""C09: two-material (mixed) slabs."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from .c01 import usable

from refellips import MixedSlabSE, ReflectModelSE, SlabSE, StructureSE

RULE = (
    "a stack with 1-4 mixed slabs of generated materials, every mixing rule, "
    "wavelengths and live changes of the fraction; compared with a slab of the "
    "mixed index and with a slab of A solvated by B; non-trivial if some "
    "fraction is strictly between 0 and 1"
)
ASSUMPTIONS = []


def check(case):
    s, ws = case["s"], case["ws"]
    stt = build.structure(s)
    n = len(s["layers"])

    def cmp(spec, what):
        for w in ws:
            t = build.arr(stt.slabs(wavelength=w), (n, 5), what)
            e = np.array([[d, c.real, c.imag, r, v]
                          for d, c, r, v in ref.layers_of(spec, w)])
            build.close(t, e, 2e-9, 1e-9, f"{what} at {w} nm")

    cmp(s, "slabs")
    # live parameters
    L = [dict(x) for x in s["layers"]]
    for i, la in enumerate(L):
        if la["t"] == "mixed":
            la["vfb"] = case["v"][i % 4]
            la["d"] = case["d"][i % 4]
            la["r"] = case["r"]
            stt[i].vf_B.value = la["vfb"]
            stt[i].thick.value = la["d"]
            stt[i].rough.value = la["r"]
    s2 = dict(s, layers=L)
    cmp(s2, "slabs after changing parameters")
    stt.ema = case["ema"]
    stt.depolarisation_factor = case["dp"]
    s3 = dict(s2, ema=case["ema"], dp=case["dp"])
    cmp(s3, "slabs after changing the mixing rule")
    # every quantity that can be fitted is exposed
    for i, la in enumerate(L):
        if la["t"] == "mixed":
            c = stt[i]
            ids = {id(p) for p in c.parameters.flattened()}
            for p, nm in ((c.thick, "thick"), (c.vf_B, "vf_B"), (c.rough, "rough")):
                require(id(p) in ids, f"{nm} isn't in MixedSlabSE.parameters")
            for m in (c.ri_A, c.ri_B):
                for p in m.parameters.flattened():
                    require(id(p) in ids, f"{p.name} isn't in MixedSlabSE.parameters")
    # on its own a mixed slab is mixed linearly, at the materials' wavelength
    for i, la in enumerate(L):
        if la["t"] == "mixed":
            t = build.arr(stt[i].slabs(), (1, 5), "MixedSlabSE.slabs()")
            x = ref.ema_n(ref.n_of(la["a"], 658.0), ref.n_of(la["b"], 658.0),
                          la["vfb"], "linear", 1 / 3)
            build.close(t, [[la["d"], x.real, x.imag, la["r"], 0.0]], 1e-9, 1e-9,
                        "MixedSlabSE.slabs() without a structure")
    return dict(
        nontrivial=any(x["t"] == "mixed" and 0 < x["vfb"] < 1 for x in s["layers"]),
        labels=[s["ema"], "reversed" if s["rev"] else "not reversed"],
    )


def check_equiv(case):
    """mixed slab of A and B = slab of A solvated by B, in the optics"""
    s, q = case["s"], case["q"]
    la = s["layers"][1]
    sol = dict(s, layers=list(s["layers"]), solvent=la["b"])
    sol["layers"][1] = {"t": "slab", "m": la["a"], "d": la["d"], "r": la["r"],
                        "vf": la["vfb"]}
    ok = []
    for w, a in q:
        x = ref.layers_of(s, w)
        ns = [y[1] for y in x]
        rs, rp = ref.stack_r(ns, [y[0] for y in x], a, 10 * w)
        if usable(rs, rp, ns, a):
            ok.append(([w, a], rs, rp))
    if not ok:
        raise Reject("ill conditioned")
    qq = [x[0] for x in ok]
    p1, d1 = build.call_model(build.model(s), qq)
    p2, d2 = build.call_model(build.model(sol), qq)
    for j, (pt, rs, rp) in enumerate(ok):
        h = math.hypot(abs(rs), abs(rp))
        v = ref.pd_vector(p1[j], d1[j])
        require(np.abs(v - ref.poincare(rs, rp)).max() < 1e-7 / h,
                f"mixed slab at {pt}: {p1[j]}, {d1[j]}; exact "
                f"{ref.psi_delta(rs, rp)}")
        require(np.abs(v - ref.pd_vector(p2[j], d2[j])).max() < 1e-7 / h,
                f"mixed slab at {pt}: {p1[j]}, {d1[j]}; solvated slab "
                f"{p2[j]}, {d2[j]}")
    return dict(nontrivial=0 < la["vfb"] < 1, labels=[s["ema"]])


MAT = st.one_of(gen.transparent, gen.const, gen.metal, gen.dispersive_material,
                gen.bundled)
DP = st.one_of(st.just(1 / 3), gen.uni(0.01, 0.97, 4))


@st.composite
def strat(draw):
    s = draw(gen.structure(mat=MAT, nmin=0, nmax=3, vf=True, mixeds=True, rev=True,
                           solvent=True))
    s["layers"].insert(1, draw(gen.mixed(MAT)))
    s["dp"] = draw(DP)
    return {"s": s, "ws": draw(st.lists(gen.wavelengths, min_size=1, max_size=3)),
            "v": draw(st.lists(gen.frac(), min_size=4, max_size=4)),
            "d": draw(st.lists(gen.thick, min_size=4, max_size=4)),
            "r": draw(gen.rough), "ema": draw(st.sampled_from(gen.EMAS)),
            "dp": draw(DP)}


@st.composite
def strat_equiv(draw):
    f, la, b = (draw(gen.slab(gen.front_medium, d=st.just(0.0))),
                draw(gen.mixed(MAT)), draw(gen.slab(MAT, d=st.just(0.0))))
    return {"s": {"layers": [f, la, b], "ema": draw(st.sampled_from(gen.EMAS)),
                  "dp": draw(DP), "rev": False, "solvent": None},
            "q": draw(gen.queries(1, 4))}


SUBS = [Sub("table", strat, check, quick=1300),
        Sub("optics", strat_equiv, check_equiv, quick=1000)]
