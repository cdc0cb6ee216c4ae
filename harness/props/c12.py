"""C12: oscillator models are causal (Kramers-Kronig) and passive."""

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub

RULE = (
    "a generated Lorentz / Tauc-Lorentz / Gauss material (1-3 oscillators, "
    "narrow to overdamped); the code's own absorption is integrated numerically "
    "and compared with the code's dispersion at 1-4 energies, bandgap, "
    "resonances and both extremes included; non-trivial always"
)
ASSUMPTIONS = [
    "quadrature: 400-point Gauss-Legendre per segment, judged at 2e-5 of the "
    "strength; the Gaussian within the error of the code's energy grid",
]


def imag_of(r):
    def f(x):
        x = np.asarray(x, float)
        return np.asarray(r.epsilon(x), complex).imag.reshape(x.shape)
    return f


def check(case):
    m = case["m"]
    r = build.material(m)
    e2 = imag_of(r)
    t = m["t"]
    Es = list(case["E"])
    for j in case["at"]:
        Es.append(m["En"][j % len(m["En"])])
    if t == "tl" and case["gap"]:
        Es.append(m["Eg"])
        Es.append(m["Eg"] * (1 + 1e-9))
        Es.append(m["Eg"] * 0.999)
    wid = m["C"] if t == "tl" else m["Br"]
    br = []
    for E0, B in zip(m["En"], wid):
        for k in (-30, -8, -3, -1, 0, 1, 3, 8, 30):
            x = E0 + k * B
            if x > 0:
                br.append(x)
    a = m["Eg"] if t == "tl" else 0.0
    strength = sum(m["Am"])
    for E in Es:
        got = complex(np.asarray(r.epsilon(E)).ravel()[0])
        require(np.isfinite(got), f"epsilon({E}) = {got}")
        require(got.imag >= -1e-9 * (1 + abs(got)), f"gain at {E} eV: {got}")
        if t == "tl" and E <= m["Eg"]:
            require(abs(got.imag) < 1e-12, f"absorbs below the gap at {E}: {got}")
        c = build.cnum(r.complex(ref.HC / E), f"n at {E} eV")
        require(c.imag >= -1e-9 and c.real >= 0, f"n at {E} eV: {c}")
        kk = m["Einf"] + ref.kk_e1(e2, E, a, [b for b in br if b > a], 60.0)
        if t == "gauss":
            x = ref.gauss_eps(m, E)
            y = ref.gauss_eps_periodic(m, E)
            tol = 1e-4 * strength + abs(x - y) * 1.05 + sum(
                A * 5e-4 / B**2 for A, B in zip(m["Am"], m["Br"]))
        elif t == "tl":
            tol = 2e-5 * (1 + abs(got)) + 1e-6 * strength
        else:
            tol = 2e-5 * (1 + abs(got))
        require(abs(got.real - kk) <= tol,
                f"{t} at {E} eV: dispersion {got.real}, Kramers-Kronig of the "
                f"absorption {kk} (tol {tol})")
    # far above every resonance only the offset is left
    if t != "gauss":
        big = 1e4
        x = complex(np.asarray(r.epsilon(big)).ravel()[0])
        require(abs(x - m["Einf"]) < 1e-2, f"epsilon({big}) = {x}")
    # passive at any photon energy
    E = np.array(case["scan"])
    v = e2(E)
    require(np.isfinite(v).all() and (v >= -1e-9 * strength).all(),
            f"gain: {v} at {E}")
    # reality: a static field
    return dict(nontrivial=True, labels=[t, f"oscillators={len(m['Am'])}"]
                + (["C > sqrt2 En"] if t == "tl" and any(
                    c > 2**0.5 * e for c, e in zip(m["C"], m["En"])) else []))


LOR = gen.lorentz
MAT = st.one_of(gen.tauc(3), gen.lorentz, gen.gauss)


def strat():
    return st.builds(
        lambda m, E, at, gap, scan: {"m": m, "E": E, "at": at, "gap": gap,
                                     "scan": scan},
        MAT, st.lists(gen.uni(0.4, 9, 4), min_size=1, max_size=3),
        st.lists(st.integers(0, 2), max_size=1), st.booleans(),
        st.lists(gen.logu(0.05, 18), min_size=3, max_size=6))


SUBS = [Sub("kk", strat, check, quick=2000)]
