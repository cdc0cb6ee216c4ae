"""C02: optically identical stacks give identical Psi/Delta."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Reject, Sub, Violation
from .c01 import usable

RULE = (
    "a generated stack (solvated/mixed layers included), 1-4 query points and a "
    "chain of 1-3 rewrites that leave the optics unchanged (zero-thickness "
    "layer, split layer, extra layer of the ambient or of the backing medium, "
    "roughness, end thickness, ambient k, AOI sign, scaling of every length and "
    "the wavelength, anything hidden below an opaque layer, solvation by the "
    "layer's own material); non-trivial if the rewrite applies and the stack has "
    "an inner layer of non-zero thickness"
)
ASSUMPTIONS = ["well-conditioned query points only (see C01)"]
TOL = 1e-8

REWRITES = ["zero", "split", "front", "back", "rough", "ends", "frontk", "aoi",
            "scale", "hidden", "selfsolv", "order"]


def physical(m, q):
    """Does the material have an ordinary index at these wavelengths?"""
    try:
        ns = [ref.n_of(m, w) for w, _ in q]
    except (ValueError, ZeroDivisionError):
        return False
    return all(np.isfinite(n) and n.real > 1e-3 and abs(n) < 50 for n in ns)


def apply(s, q, r):
    """Rewrite (s, q); None if not applicable."""
    s = copy.deepcopy(s)
    L = s["layers"]
    i = 1 + r["i"] % max(1, len(L) - 1)
    kind = r["kind"]
    if kind in ("zero", "hidden") and not physical(r["m"], q):
        return None
    if kind == "zero":
        L.insert(i, {"t": "slab", "m": r["m"], "d": 0.0, "r": r["x"] * 10,
                     "vf": r["y"]})
        if r["y"] > 0 and not any(x.get("vf", 0) > 0 for x in s["layers"]):
            pass
        return s, q
    if kind == "split":
        if len(L) < 3:
            return None
        i = 1 + r["i"] % (len(L) - 2)
        a = copy.deepcopy(L[i])
        d = a["d"]
        a["d"] = d * r["x"]
        L[i]["d"] = d - a["d"]
        L.insert(i, a)
        return s, q
    if kind == "front":
        f = copy.deepcopy(L[0])
        if any(abs(ref.n_of(f["m"], w).imag) > 0 for w, _ in q):
            return None
        f["d"] = r["x"] * 2000
        L.insert(1, f)
        return s, q
    if kind == "back":
        b = copy.deepcopy(L[-1])
        b["d"] = r["x"] * 2000
        b["vf"] = 0.0
        L.insert(len(L) - 1, b)
        return s, q
    if kind == "rough":
        L[i]["r"] = r["x"] * 40
        L[0]["r"] = r["y"] * 40
        return s, q
    if kind == "ends":
        L[0]["d"] = r["x"] * 5000
        L[-1]["d"] = r["y"] * 5000
        return s, q
    if kind == "frontk":
        if L[0]["m"]["t"] != "const":
            return None
        L[0]["m"]["k"] = r["x"]
        return s, q
    if kind == "aoi":
        return s, [[w, -a] for w, a in q]
    if kind == "scale":
        c = 0.3 + 3 * r["x"]
        for la in L:
            for m in [la.get("m"), la.get("a"), la.get("b")]:
                if m is not None and m["t"] != "const":
                    return None
            la["d"] *= c
        return s, [[w * c, a] for w, a in q]
    if kind == "hidden":
        if any(x.get("vf", 0) > 0 for x in L):
            return None
        for j in range(1, len(L) - 1):
            la = L[j]
            if la["t"] == "slab" and all(
                4 * math.pi * ref.n_of(la["m"], w).imag * la["d"] / (10 * w) > 60
                for w, _ in q
            ):
                s["layers"] = L[: j + 1] + [
                    {"t": "slab", "m": r["m"], "d": 0.0, "r": 0.0, "vf": 0.0}
                ]
                return s, q
        # make one
        if len(L) < 3:
            return None
        return None
    if kind == "selfsolv":
        # solvating a layer of the solvent with itself
        if s["solvent"] is None or len(L) < 3:
            return None
        i = 1 + r["i"] % (len(L) - 2)
        if L[i]["t"] != "slab" or L[i]["m"] != s["solvent"]:
            return None
        L[i]["vf"] = r["x"]
        return s, q
    if kind == "order":
        return s, q[::-1]
    raise KeyError(kind)


def check(case):
    s, q = case["s"], case["q"]
    keep = []
    for w, a in q:
        la = ref.layers_of(s, w)
        ns = [x[1] for x in la]
        rs, rp = ref.stack_r(ns, [x[0] for x in la], a, 10 * w)
        if usable(rs, rp, ns, a):
            keep.append(([w, a], math.hypot(abs(rs), abs(rp))))
    if not keep:
        raise Reject("no usable point")
    q0 = [k[0] for k in keep]
    h = [k[1] for k in keep]
    s1, q1, done = s, [list(x) for x in q0], []
    flip = False
    for r in case["rw"]:
        out = apply(s1, q1, r)
        if out is None:
            continue
        s1, q1 = out
        done.append(r["kind"])
        if r["kind"] == "order":
            flip = not flip
    if not done:
        raise Reject("rewrite not applicable")
    psi0, del0 = build.call_model(build.model(s), q0)
    psi1, del1 = build.call_model(build.model(s1), q1)
    if flip:
        psi1, del1 = psi1[::-1], del1[::-1]
    for j in range(len(q0)):
        e = np.abs(
            ref.pd_vector(psi0[j], del0[j]) - ref.pd_vector(psi1[j], del1[j])
        ).max()
        if not e <= TOL / h[j]:
            raise Violation(
                f"{'+'.join(done)} changed psi, delta at {q0[j]} from "
                f"{psi0[j]}, {del0[j]} to {psi1[j]}, {del1[j]}"
            )
    return dict(nontrivial=any(x["d"] > 0 for x in s["layers"][1:-1]),
                labels=done)


def rewrite():
    return st.builds(
        lambda kind, i, x, y, m: {"kind": kind, "i": i, "x": x, "y": y, "m": m},
        st.sampled_from(REWRITES), st.integers(0, 7), gen.uni(0, 1, 4),
        st.one_of(st.just(0.0), gen.uni(0, 1, 4)), gen.exact_material,
    )


@st.composite
def strat(draw):
    rw = draw(st.lists(rewrite(), min_size=1, max_size=3))
    kinds = [r["kind"] for r in rw]
    if "scale" in kinds:
        m = st.one_of(gen.const, gen.transparent, gen.metal)
        s = draw(gen.structure(mat=m, front=gen.transparent, nmax=5, vf=True,
                               mixeds=True))
    elif "frontk" in kinds:
        s = draw(gen.structure(front=gen.transparent, nmax=4, vf=True,
                               mixeds=True, solvent=True))
    elif "hidden" in kinds:
        s = draw(gen.structure(nmin=1, nmax=4))
        la = draw(gen.slab(gen.metal, d=gen.uni(2e4, 3e5, 1)))
        s["layers"].insert(draw(st.integers(1, len(s["layers"]) - 1)), la)
    elif "selfsolv" in kinds:
        s = draw(gen.structure(nmin=1, nmax=4, vf=True))
        s["solvent"] = draw(gen.exact_material)
        for la in s["layers"][1:-1]:
            la["m"] = s["solvent"]
    else:
        s = draw(gen.structure(nmax=5, vf=True, mixeds=True, solvent=True))
    if s["ema"] == "bruggeman" or s["ema"] == "maxwell-garnett":
        s["dp"] = max(0.02, min(0.95, s["dp"]))
    return {"s": s, "q": draw(gen.queries(1, 4)), "rw": rw}


SUBS = [Sub("rewrite", strat, check, quick=3000)]
