"""C08: effective medium approximations."""

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import RI, MixedSlabSE, SlabSE, StructureSE
from refellips.structureSE import overall_ri

RULE = (
    "two generated passive media (transparent, absorbing, metallic), a volume "
    "fraction and a depolarisation factor in [0, 1] (end points included) for "
    "each mixing rule, scalar and array valued; non-trivial if 0 < fraction < 1 "
    "and the media differ"
)
ASSUMPTIONS = [
    "passive media: n > 0, k >= 0",
    "mixtures within 1e-6 of a resonance (vanishing denominator or coincident "
    "roots) are outside the domain",
]


def mix(a, b, f, ema, L):
    return overall_ri(a, b, vf_B=f, ema=ema, depolarisation_factor=L)


def check(case):
    a, b = complex(*case["a"]), complex(*case["b"])
    f, L = case["f"], case["L"]
    e1, e2 = a * a, b * b
    sc = abs(e1) + abs(e2)
    lab = []
    for ema in gen.EMAS:
        # domain
        if ema == "maxwell-garnett":
            if abs(e1 + L * (1 - f) * (e2 - e1)) < 1e-6 * sc:
                lab.append("resonant")
                continue
        if ema == "bruggeman":
            bb = e1 * (1 - f - L) + e2 * (f - L)
            if L == 1:
                if abs(bb) < 1e-6 * sc:
                    continue
            elif abs(bb * bb + 4 * (1 - L) * L * e1 * e2) < 1e-6 * sc * sc:
                lab.append("resonant")
                continue
        got = build.cnum(mix(a, b, f, ema, L), f"{ema} mixture")
        e = got * got
        what = f"{ema} n={got} of A={a}, B={b}, vf_B={f}, L={L}"
        # a passive medium
        require(got.real >= -1e-9 and got.imag >= -1e-7 * (1 + abs(got)),
                f"gain or negative n: {what}")
        # the defining equation
        if ema == "linear":
            r = e - (e1 * (1 - f) + e2 * f)
            require(abs(r) < 1e-9 * sc, f"not the weighted average: {what}")
        elif ema == "maxwell-garnett":
            r = e * (e1 + L * (1 - f) * (e2 - e1)) - e1 * (
                e1 + (L * (1 - f) + f) * (e2 - e1))
            require(abs(r) < 1e-8 * sc * sc, f"not Maxwell-Garnett: {what}")
        else:
            r = (1 - f) * (e1 - e) * (e + L * (e2 - e)) + f * (e2 - e) * (
                e + L * (e1 - e))
            require(abs(r) < 1e-8 * (sc + abs(e)) ** 2, f"not Bruggeman: {what}")
            x = ref.ema_eps(e1, e2, f, ema, L)
            require(abs(e - x) < 1e-6 * (sc + abs(x)),
                    f"unphysical root, expected {ref.csqrt_up(x)}: {what}")
            g2 = build.cnum(mix(b, a, 1 - f, ema, L))
            require(abs(g2 * g2 - e) < 1e-6 * (sc + abs(e)),
                    f"not symmetric in its constituents ({g2}): {what}")
        # limits
        for ff, x in ((0.0, a), (1.0, b)):
            if ff == 1.0 and L == 1 and ema != "linear" and False:
                continue
            g = build.cnum(mix(a, b, ff, ema, L), f"{ema} pure limit")
            if ema == "bruggeman" and abs(e1 * (1 - ff - L) + e2 * (ff - L)) ** 2 < 1e-6 * sc * sc:
                continue
            d2 = (e1 * (1 - ff - L) + e2 * (ff - L)) ** 2 + 4 * (1 - L) * L * e1 * e2
            if ema == "bruggeman" and abs(d2) < 1e-6 * sc * sc:
                continue
            if ema == "maxwell-garnett" and abs(
                e1 + L * (1 - ff) * (e2 - e1)) < 1e-6 * sc:
                continue
            require(abs(g * g - x * x) < 1e-6 * sc,
                    f"{ema} with vf_B={ff} gives {g}, not {x} (A={a}, B={b}, L={L})")
        # no screening: linear; full screening: layers in series
        if ema != "linear":
            g = build.cnum(mix(a, b, f, ema, 0.0))
            x = (1 - f) * e1 + f * e2
            if ema == "maxwell-garnett" or (
                abs(x) > 1e-6 * sc and x.real > 0
            ):
                require(abs(g * g - x) < 1e-6 * sc,
                        f"{ema}, no screening: {g} not {x ** .5}; A={a} B={b} f={f}")
            den = (1 - f) * e2 + f * e1
            if abs(den) > 1e-5 * sc:
                g = build.cnum(mix(a, b, f, ema, 1.0))
                x = e1 * e2 / den
                require(abs(g * g - x) < 1e-6 * (sc + abs(x)),
                        f"{ema}, full screening: {g} not {ref.csqrt_up(x)}; "
                        f"A={a} B={b} f={f}")
        # real, positive: within the Wiener bounds
        if a.imag == 0 and b.imag == 0:
            up = ((1 - f) * e1 + f * e2).real
            lo = (e1 * e2 / ((1 - f) * e2 + f * e1)).real
            require(lo - 1e-7 * sc <= e.real <= up + 1e-7 * sc
                    and abs(e.imag) < 1e-7 * sc,
                    f"outside the Wiener bounds {lo}, {up}: {what}")
            lab.append("transparent")
        if a == b:
            require(abs(got - a) < 1e-6 * abs(a), f"A=B: {what}")
    return dict(nontrivial=0 < f < 1 and a != b, labels=lab)


def check_array(case):
    """array valued mixing = one at a time"""
    A = np.array([complex(*x) for x in case["A"]])
    b = complex(*case["b"])
    f = np.array(case["f"][: len(A)])
    ema, L = case["ema"], case["L"]
    sh = case.get("shape", "AF")
    B = np.full(len(A), b)
    if "F" not in sh:
        # one fraction for all
        f = np.full(len(A), f[0])
    if "A" not in sh:
        A = np.full(len(A), A[0])
    got = np.asarray(mix(A if "A" in sh else complex(A[0]),
                         B if "B" in sh else b,
                         f if "F" in sh else float(f[0]), ema, L), complex)
    require(got.shape == A.shape, f"{ema} mixing of {sh}: shape {got.shape}")
    one = np.array([mix(x, b, y, ema, L) for x, y in zip(A, f)], complex)
    for i, (x, y) in enumerate(zip(A, f)):
        e1, e2 = x * x, b * b
        sc = abs(e1) + abs(e2)
        d2 = (e1 * (1 - y - L) + e2 * (y - L)) ** 2 + 4 * (1 - L) * L * e1 * e2
        if abs(d2) < 1e-6 * sc * sc or abs(e1 + L * (1 - y) * (e2 - e1)) < 1e-6 * sc:
            continue
        require(
            np.isfinite(got[i]) and abs(got[i] - one[i]) < 1e-7 * (1 + abs(one[i])),
            f"{ema} array mixing element {i}: {got[i]} but alone {one[i]}",
        )
    # what isn't given takes the documented default
    a0, f0 = complex(A[0]), float(f[0])
    for kw, want in (({}, mix(a0, b, 0.0, "linear", 1 / 3)),
                     ({"vf_B": f0}, mix(a0, b, f0, "linear", 1 / 3)),
                     ({"vf_B": f0, "ema": ema}, mix(a0, b, f0, ema, 1 / 3)),
                     ({"ema": ema, "depolarisation_factor": L},
                      mix(a0, b, 0.0, ema, L))):
        g = complex(overall_ri(a0, b, **kw))
        require(g == complex(want) or abs(g - want) < 1e-12 * abs(want),
                f"overall_ri({a0}, {b}, {kw}) = {g}, expected {want}")
    try:
        mix(A[0], b, f[0], "mixwell", L)
    except Exception:
        pass
    else:
        raise Violation("an unknown mixing rule was accepted")
    return dict(nontrivial=len(A) > 1, labels=[ema])


def check_struct(case):
    """the same law governs solvated slabs and mixed slabs of a structure"""
    a, b = case["a"], case["b"]
    f, L, ema, w = case["f"], case["L"], case["ema"], case["w"]
    na, nb = ref.n_of(a, w), ref.n_of(b, w)
    e1, e2 = na * na, nb * nb
    sc = abs(e1) + abs(e2)
    d2 = (e1 * (1 - f - L) + e2 * (f - L)) ** 2 + 4 * (1 - L) * L * e1 * e2
    if abs(d2) < 1e-6 * sc * sc or abs(e1 + L * (1 - f) * (e2 - e1)) < 1e-6 * sc:
        raise Reject("resonant")
    x = ref.ema_eps(e1, e2, f, ema, L)
    air = RI([1.0, 0.0])
    A, B = build.material(a), build.material(b)
    s1 = StructureSE([air(), SlabSE(100, A, 0, vfsolv=f), B()], ema=ema,
                     depolarisation_factor=L)
    s2 = StructureSE([air(), SlabSE(100, A, 0, vfsolv=f), air()], solvent=B,
                     ema=ema, depolarisation_factor=L)
    s3 = StructureSE([air(), MixedSlabSE(100, A, B, f, 0), air()], ema=ema,
                     depolarisation_factor=L)
    for s, what in ((s1, "solvated by the backing"), (s2, "solvated"),
                    (s3, "mixed slab")):
        t = build.arr(s.slabs(wavelength=w), (3, 5))
        c = complex(t[1, 1], t[1, 2])
        require(abs(c * c - x) < 1e-6 * (sc + abs(x)),
                f"{what}: n={c}, the {ema} rule gives {ref.csqrt_up(x)} "
                f"(A={na} B={nb} f={f} L={L})")
    return dict(nontrivial=0 < f < 1, labels=[ema])


pair = st.one_of(gen.transparent, gen.const, gen.metal).map(lambda m: [m["n"], m["k"]])
fr = st.one_of(gen.uni(0, 1), gen.uni(0, 1), gen.logu(1e-8, 1e-2),
               st.sampled_from([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 1 - 1e-9]))
Ls = st.one_of(gen.uni(0, 1), st.just(1 / 3),
               st.sampled_from([0.0, 1.0, 0.5, 1e-6, 1 - 1e-4, 0.9, 0.1]))


def strat():
    return st.builds(lambda a, b, f, L: {"a": a, "b": b, "f": f, "L": L},
                     pair, pair, fr, Ls)


def strat_array():
    return st.builds(
        lambda A, b, f, e, L, sh: {"A": A, "b": b, "f": f, "ema": e, "L": L,
                                   "shape": sh},
        st.lists(pair, min_size=1, max_size=6), pair,
        st.lists(fr, min_size=6, max_size=6), st.sampled_from(gen.EMAS), Ls,
        st.sampled_from(["AF", "A", "A", "B", "F", "AB", "ABF"]))


def strat_struct():
    m = st.one_of(gen.transparent, gen.const, gen.metal, gen.dispersive_material)
    return st.builds(
        lambda a, b, f, e, L, w: {"a": a, "b": b, "f": f, "ema": e, "L": L, "w": w},
        m, m, fr, st.sampled_from(gen.EMAS), Ls, gen.wavelengths)


SUBS = [Sub("law", strat, check, quick=6000),
        Sub("array", strat_array, check_array, quick=1500),
        Sub("structure", strat_struct, check_struct, quick=1500)]
