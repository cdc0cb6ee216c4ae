"""C06: reversing a structure = the sample turned over."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from .c01 import usable

RULE = (
    "a generated stack with roughness, solvation and mixed layers, its reversal "
    "by reverse_structure (constructor or attribute) and the same sample built by "
    "hand in the opposite order; non-trivial if there are at least 2 inner layers "
    "or different media at the ends with a non-zero roughness"
)
ASSUMPTIONS = []


def turned_over(s):
    t = copy.deepcopy(s)
    L = t["layers"]
    r = [la["r"] for la in L][1:]
    L.reverse()
    for la, x in zip(L, [0.0] + r[::-1]):
        la["r"] = x
    return t


def check(case):
    s, w = case["s"], case["w"]
    s0 = dict(s, rev=False)
    t0 = turned_over(s0)
    n = len(s["layers"])
    st_rev = build.structure(s0)
    if case["ctor"]:
        st_rev = build.structure(dict(s0, rev=True))
    else:
        st_rev.reverse_structure = True
    require(st_rev.reverse_structure is True, "reverse_structure not set")
    a = build.arr(st_rev.slabs(wavelength=w), (n, 5), "reversed slabs")
    b = build.arr(build.structure(t0).slabs(wavelength=w), (n, 5), "slabs")
    exp = np.array([[d, c.real, c.imag, r, v]
                    for d, c, r, v in ref.layers_of(dict(s0, rev=True), w)])
    build.close(a, exp, 1e-9, 1e-10, "reversed slabs vs reference")
    build.close(a, b, 1e-12, 1e-12, "reversed slabs vs hand-built")
    # the components themselves are not reversed
    for la, c in zip(s["layers"], st_rev):
        require(c.thick.value == la["d"] and c.rough.value == la["r"],
                "reversal changed the components")
    # again, and back
    a2 = build.arr(st_rev.slabs(wavelength=w), (n, 5))
    build.close(a2, a, 0, 0, "second evaluation of the reversed slabs")
    st_rev.reverse_structure = False
    c = build.arr(st_rev.slabs(wavelength=w), (n, 5))
    d = build.arr(build.structure(s0).slabs(wavelength=w), (n, 5))
    build.close(c, d, 0, 0, "slabs after reversing twice")
    # the model
    q = case["q"]
    ok = []
    for wq, aq in q:
        la = ref.layers_of(t0, wq)
        ns = [x[1] for x in la]
        rs, rp = ref.stack_r(ns, [x[0] for x in la], aq, 10 * wq)
        if usable(rs, rp, ns, aq):
            ok.append(([wq, aq], rs, rp))
    if ok:
        st_rev.reverse_structure = True
        from refellips import ReflectModelSE

        p, dl = build.call_model(ReflectModelSE(st_rev), [x[0] for x in ok])
        for j, (pt, rs, rp) in enumerate(ok):
            e = np.abs(ref.pd_vector(p[j], dl[j]) - ref.poincare(rs, rp)).max()
            require(
                e <= 1e-8 / math.hypot(abs(rs), abs(rp)),
                f"psi, delta of the reversed structure at {pt}: {p[j]}, {dl[j]}; "
                f"turned over sample: {ref.psi_delta(rs, rp)}",
            )
        # RI profile, mirrored
    z = np.array(case["z"], float)
    st_rev.reverse_structure = True
    st_rev.wavelength = w
    _, pr = st_rev.ri_profile(z=z.copy())
    hb = build.structure(t0)
    hb.wavelength = w
    _, ph = hb.ri_profile(z=z.copy())
    build.close(build.arr(pr, z.shape), build.arr(ph, z.shape), 1e-9, 1e-9,
                "RI profile of the reversed structure")
    lab = []
    if any(x.get("vf", 0) > 0 for x in s["layers"]):
        lab.append("solvated" + ("" if s["solvent"] else " by backing"))
    if ok:
        lab.append("optics")
    return dict(nontrivial=n > 3, labels=lab)


@st.composite
def strat(draw):
    s = draw(gen.structure(
        mat=st.one_of(gen.transparent, gen.const, gen.dispersive_material), nmax=5,
        vf=True, mixeds=True, solvent=True,
        back=st.one_of(gen.transparent, gen.cauchy, gen.const)))
    s["dp"] = max(0.02, min(0.95, s["dp"]))
    for la in s["layers"]:
        la["r"] = draw(st.one_of(gen.uni(0, 40, 2), gen.uni(0, 40, 2), gen.rough,
                                 gen.logu(1e-3, 3000)))
    return {"s": s, "w": draw(gen.wavelengths), "ctor": draw(st.booleans()),
            "q": draw(gen.queries(1, 2)),
            "z": draw(st.lists(gen.uni(-100, 4000, 1), min_size=1, max_size=6))}


SUBS = [Sub("reverse", strat, check, quick=1500)]
