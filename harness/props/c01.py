"""C01: Psi/Delta are the exact optical response of the layer stack."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Reject, Sub, Violation

RULE = (
    "a generated stack (0-6 inner layers; constant, metallic, Cauchy, Sellmeier, "
    "Lorentz, Tauc-Lorentz, user-defined, tabulated and bundled media) with 1-6 "
    "(wavelength, AOI) points, and multilayers of up to ~150 films repeated "
    "periodically, films that cancel the reflection of one polarisation; non-trivial if at least one inner layer has a "
    "non-zero thickness and at least one point is at oblique incidence with a "
    "well-conditioned reference (sqrt(|rs|^2+|rp|^2) > 1e-4)"
)
ASSUMPTIONS = [
    "isotropic, coherent, non-magnetic layers; 0 <= AOI < 89.6, no layer within 1e-8 (in n^2) of its critical angle",
    "agreement is judged on the polarisation state (Poincare vector), so Delta "
    "is not compared where Psi is 0 or 90 and it is undefined",
]

TOL = 1e-8


def judge(psi, delta, rs, rp, wav, aoi, tol=TOL, what=""):
    h = math.hypot(abs(rs), abs(rp))
    if not (-1e-9 <= psi <= 90 + 1e-9):
        raise Violation(f"{what} psi={psi} outside [0, 90] at {wav} nm {aoi} deg")
    if not (-1e-7 <= delta <= 360 + 1e-7):
        raise Violation(
            f"{what} delta={delta} outside [0, 360] at {wav} nm {aoi} deg"
        )
    err = np.abs(ref.pd_vector(psi, delta) - ref.poincare(rs, rp)).max()
    if not err <= tol / h:
        e = ref.psi_delta(rs, rp)
        raise Violation(
            f"{what} at {wav} nm, {aoi} deg: psi, delta = {psi}, {delta}; "
            f"the stack reflects psi, delta = {e[0]}, {e[1]} (error {err})"
        )
    return err


def usable(rs, rp, ns, aoi):
    """Is the point well conditioned (some light reflected, no layer exactly at
    its critical angle, not at grazing incidence)?"""
    if math.hypot(abs(rs), abs(rp)) < 1e-4 or min(abs(rs), abs(rp)) < 1e-11:
        return False
    if abs(aoi) > 89.6:
        return False
    sn = ns[0].real * math.sin(math.radians(aoi))
    return all(abs(n * n - sn * sn) > 1e-8 for n in ns[1:])


def reference(s, q):
    out = []
    for wav, aoi in q:
        la = ref.layers_of(s, wav)
        rs, rp = ref.stack_r([x[1] for x in la], [x[0] for x in la], aoi,
                             wav * 10)
        if not (np.isfinite(rs) and np.isfinite(rp)):
            raise Reject("reference not finite")
        out.append((rs, rp))
    return out


def check(case):
    s, q = case["s"], case["q"]
    refs = reference(s, q)
    use = [
        i for i, (a, b) in enumerate(refs)
        if usable(a, b, [x[1] for x in ref.layers_of(s, q[i][0])], q[i][1])
    ]
    if not use:
        raise Reject("no reflected light")
    q = [q[i] for i in use]
    refs = [refs[i] for i in use]
    m = build.model(s)
    psi, delta = build.call_model(m, q)
    for i, (rs, rp) in enumerate(refs):
        judge(psi[i], delta[i], rs, rp, *q[i])
    inner = [x for x in s["layers"][1:-1] if x["d"] > 0]
    labels = [f"layers={len(s['layers']) - 2}"]
    tir = False
    for w, a in q:
        n = [x[1] for x in ref.layers_of(s, w)]
        if any(abs(x.imag) < 1e-12 and n[0].real * math.sin(math.radians(a)) > x.real
               for x in n[1:]):
            tir = True
    if tir:
        labels.append("evanescent layer")
    if any(abs(x.imag) > 0.3 for x in n):
        labels.append("metallic")
    for la in s["layers"]:
        labels.append(la["m"]["t"])
    return dict(nontrivial=bool(inner) and any(a > 0 for _, a in q), labels=labels)


def strat():
    return st.builds(
        lambda s, q: {"s": s, "q": q},
        st.one_of(
            gen.structure(nmax=6),
            gen.structure(mat=st.one_of(gen.transparent, gen.metal), nmax=4),
            gen.structure(
                mat=gen.transparent,
                front=st.builds(lambda n: {"t": "const", "n": n, "k": 0.0},
                                gen.uni(1.3, 4, 4)),
                nmax=3,
            ),
        ),
        gen.queries(),
    )


def check_tmm(case):
    """The documented low-level entry point (AOI array, table of layers)."""
    from refellips.reflect_modelSE import Delta_Psi_TMM

    lay = np.array(case["layers"], float)
    aoi = np.array(case["aoi"], float)
    wav = case["wav"]
    n = [complex(a, b) for a, b in lay[:, 1:3]]
    refs = [ref.stack_r(n, lay[:, 0], a, wav * 10) for a in aoi]
    ok = [usable(*r, n, a) for r, a in zip(refs, aoi)]
    if not any(ok):
        raise Reject("no reflected light")
    aoi = aoi[ok]
    refs = [r for r, k in zip(refs, ok) if k]
    psi, delta = Delta_Psi_TMM(aoi, lay.copy(), wav, case["off"])
    psi = build.arr(psi, aoi.shape, "psi")
    delta = build.arr(delta, aoi.shape, "delta") - case["off"]
    for a, p, d, (rs, rp) in zip(aoi, psi, delta, refs):
        judge(p, d, rs, rp, wav, a)
    return dict(nontrivial=len(lay) > 2, labels=[f"layers={len(lay) - 2}"])


def strat_tmm():
    row = st.builds(
        lambda d, m, r: [d, m["n"], m["k"], r],
        gen.thick, st.one_of(gen.const, gen.transparent, gen.metal), gen.rough,
    )
    first = st.builds(lambda m, k: [0.0, m["n"], k, 0.0], gen.transparent,
                      st.sampled_from([0.0, 0.0, 0.01]))
    return st.builds(
        lambda f, rows, aoi, wav, off: {
            "layers": [f] + rows, "aoi": aoi, "wav": wav, "off": off},
        first, st.lists(row, min_size=1, max_size=12),
        st.lists(gen.uni(0, 89.9, 4), min_size=1, max_size=5),
        gen.wavelengths, st.sampled_from([0.0, 0.0, 3.5, -10.0]),
    )


def check_many(case):
    """Multilayers of many (up to ~150) films, opaque ones included."""
    rows = case["first"] + case["period"] * case["n"] + case["last"]
    c = dict(case, layers=rows)
    r = check_tmm(c)
    lam = case["wav"] * 10
    opaque = sum(x[2] * x[0] * 2 * math.pi / lam > 35 for x in rows[1:-1])
    r["nontrivial"] = len(rows) > 14
    r["labels"] = [">20 opaque" if opaque > 20 else "opaque" if opaque else "clear",
                   "layers>=50" if len(rows) >= 52 else "layers<50"]
    return r


def strat_many():
    def row(m, d=gen.thick):
        return st.builds(lambda d, m: [d, m["n"], m["k"], 0.0], d, m)

    clear = row(gen.transparent, gen.uni(0, 4000, 1))
    dark = row(gen.metal, st.one_of(gen.uni(0, 200, 1), gen.logu(100, 1e6)))
    any_ = row(st.one_of(gen.const, gen.metal))
    return st.builds(
        lambda f, pre, per, n, last, aoi, wav, off: {
            "first": [f] + pre, "period": per, "n": n, "last": last, "aoi": aoi,
            "wav": wav, "off": off},
        row(gen.transparent, st.just(0.0)),
        st.lists(clear, max_size=3),
        st.one_of(st.lists(clear, min_size=1, max_size=4),
                  st.lists(st.one_of(clear, dark, any_), min_size=1, max_size=5)),
        st.integers(3, 30), st.lists(any_, min_size=1, max_size=3),
        st.lists(gen.uni(0, 89.5, 3), min_size=1, max_size=4),
        gen.wavelengths, st.sampled_from([0.0, 0.0, 3.5]),
    )


def check_extreme(case):
    """One polarisation (almost) not reflected: Psi close to 0 or to 90."""
    n0, ns, aoi, wav = case["n0"], case["ns"], case["aoi"], case["wav"]
    if case["kind"] == "brewster":
        # film at its Brewster angle on a substrate of the same medium
        aoi = round(math.degrees(math.atan(ns / n0)), case["nd"])
        rows = [[0.0, n0, 0.0, 0.0], [case["d"], ns, 0.0, 0.0], [0.0, ns, 0.0, 0.0]]
    else:
        # quarter wave film that cancels the reflection of s (or p) light
        sn = n0 * math.sin(math.radians(aoi))
        if sn >= min(n0, ns):
            raise Reject("totally reflected")
        q0, qs = math.sqrt(n0**2 - sn**2), math.sqrt(ns**2 - sn**2)
        if case["kind"] == "s":
            q1 = math.sqrt(q0 * qs)
            n1 = math.sqrt(q1**2 + sn**2)
        else:
            # n1^2/q1 = sqrt(n0^2/q0 * ns^2/qs)
            y = n0**2 / q0 * ns**2 / qs
            # n1^4 = y (n1^2 - sn^2)
            d = y * y - 4 * y * sn * sn
            if d < 0:
                raise Reject("no such film")
            n1 = math.sqrt((y + math.sqrt(d)) / 2)
            q1 = math.sqrt(n1**2 - sn**2)
        rows = [[0.0, n0, 0.0, 0.0],
                [round(wav * 10 / 4 / q1 * (1 + 2 * case["m"]), case["nd"] + 2),
                 round(n1, case["nd"] + 2), 0.0, 0.0], [0.0, ns, 0.0, 0.0]]
    r = check_tmm({"layers": rows, "aoi": [aoi], "wav": wav, "off": 0.0})
    rs, rp = ref.stack_r([complex(x[1], x[2]) for x in rows],
                         [x[0] for x in rows], aoi, wav * 10)
    t = abs(rp) / abs(rs)
    r["nontrivial"] = t < 1e-2 or t > 1e2
    r["labels"] = ["psi<0.001" if t < 2e-5 else "psi>89.99" if t > 6e3 else
                   "psi<1" if t < 0.017 else "psi>89" if t > 57 else "moderate"]
    return r


def strat_extreme():
    return st.builds(
        lambda kind, n0, ns, aoi, wav, nd, m, d: dict(
            kind=kind, n0=n0, ns=ns, aoi=aoi, wav=wav, nd=nd, m=m, d=d),
        st.sampled_from(["s", "s", "p", "brewster"]),
        st.one_of(st.just(1.0), gen.uni(1, 2, 3)), gen.uni(1.2, 4, 3),
        gen.uni(20, 85, 3), gen.wavelengths, st.integers(1, 6), st.integers(0, 2),
        gen.uni(0, 2000, 1))


SUBS = [
    Sub("extreme", strat_extreme, check_extreme, quick=800),
    Sub("many", strat_many, check_many, quick=500),
    Sub("stack", strat, check, quick=2400),
    Sub("tmm", strat_tmm, check_tmm, quick=2400),
]
