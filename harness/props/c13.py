"""C13: refractive index profile."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation

RULE = (
    "a generated stack (0-5 inner layers, solvated, mixed, reversed, any roughness "
    "including 0) with its profile evaluated on generated or default depths, for "
    "every kind of alignment, before and after changing thickness and wavelength; "
    "non-trivial if neighbouring layers differ and some roughness is not zero"
)
ASSUMPTIONS = [
    "interfaces are the default (Gaussian) ones",
    "depths within 1e-9 A of a sharp interface are not judged",
]


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def profile(layers, z):
    """n(z) with z = 0 at the first interface; None where not defined."""
    n = layers[0][1].real
    pos = 0.0
    for j in range(1, len(layers)):
        if j > 1:
            pos += layers[j - 1][0]
        step = layers[j][1].real - layers[j - 1][1].real
        s = layers[j][2]
        if s == 0:
            if abs(z - pos) < 1e-9 * (1 + abs(pos)):
                if abs(step) > 1e-12:
                    return None
            elif z > pos:
                n += step
        else:
            n += step * phi((z - pos) / s)
    return n


def compare(zz, nn, layers, offset, what):
    a = build.arr(zz, what=f"{what}: z")
    b = build.arr(nn, a.shape, f"{what}: n")
    # at most 80 of the points are judged
    idx = range(len(a)) if len(a) <= 80 else (
        list(range(0, len(a), max(1, len(a) // 70))) + [len(a) - 1])
    for i in idx:
        e = profile(layers, a[i] + offset)
        if e is None:
            continue
        # the position of a narrow interface is only known to rounding
        slack = 1e-9 * sum(
            abs(layers[j][1].real - layers[j - 1][1].real)
            * (0 if layers[j][2] == 0 else (1 + abs(a[i] + offset)) / layers[j][2])
            for j in range(1, len(layers)))
        require(abs(b[i] - e) <= 2e-8 * (1 + abs(e)) + slack,
                f"{what}: n({a[i]!r}) = {b[i]!r}, expected {e!r}")


def check(case):
    s = case["s"]
    stt = build.structure(s)
    L = len(s["layers"])
    cur = s
    for step in range(2):
        w = case["ws"][step]
        if step == 1:
            i = 1 + case["i"] % max(1, L - 2)
            if L > 2:
                stt[i].thick.value = case["d"]
                stt[i].rough.value = case["r"]
                cur = dict(s, layers=list(s["layers"]))
                cur["layers"][i] = dict(cur["layers"][i], d=case["d"], r=case["r"])
        if case["how"] == 0:
            stt.wavelength = w
        else:
            stt.slabs(wavelength=w)
        before = build.slab_table(stt).copy()
        layers = ref.layers_of(cur, w)
        if before.shape[0] != len(layers):
            raise Violation(f"{before.shape[0]} slabs")
        d = [la[0] for la in layers]
        iface = [sum(d[1:j + 1]) for j in range(L - 1)]  # position of interface j
        z = np.array(case["z"], float) if case["z"] is not None else None
        if z is not None:
            z = np.concatenate([z, [p + q for p in iface for q in (-0.7, 0.3, 11.0)],
                                [-1e4, iface[-1] + 1e4]])
        zin = None if z is None else z.copy()
        kw = {} if case["mdz"] is None else {"max_delta_z": case["mdz"]}
        zz, nn = stt.ri_profile(z=z, **kw)
        if z is None:
            za = build.arr(zz)
            require(za.ndim == 1 and len(za) >= 500 and np.all(np.diff(za) > 0),
                    "default depths are not an increasing grid")
            require(za[0] <= -5 - 4 * layers[1][2] + 1e-6
                    and za[-1] >= 5 + iface[-1] + 4 * layers[-1][2] - 1e-6,
                    f"default depths {za[0]}..{za[-1]} do not cover the interface")
            if case["mdz"] is not None:
                require(np.diff(za).max() <= case["mdz"] * (1 + 1e-9),
                        f"max_delta_z {case['mdz']} not respected")
        else:
            build.close(np.asarray(zz, float), zin, 1e-12, 1e-9, "depths")
            require(np.array_equal(z, zin), "the caller's depths were changed")
            if case["list"]:
                _, n2 = stt.ri_profile(z=z.tolist())
                build.close(np.asarray(n2, float), np.asarray(nn, float), 1e-12,
                            1e-12, "profile of a list of depths")
        compare(zz, nn, layers, 0.0, "profile")
        # alignment shifts z = 0 to an interface
        for al in case["aligns"]:
            al = al % (2 * L - 1) - L  # -L .. L-2
            off = iface[al] if al > 0 else (0.0 if al == 0 else
                                            (iface[L - 1 + al] if al > -L else 0.0))
            z2, n2 = stt.ri_profile(z=z, align=al, **kw)
            build.close(np.asarray(z2, float), np.asarray(zz, float) - off, 1e-12,
                        1e-8, f"align={al}: depths")
            build.close(np.asarray(n2, float), np.asarray(nn, float), 1e-9, 1e-10,
                        f"align={al}: profile")
        for bad in (L - 1, L + 3, -L - 1):
            if bad == 0:
                continue
            try:
                stt.ri_profile(align=bad)
            except RuntimeError:
                continue
            raise Violation(f"align={bad} accepted with {L} layers")
        # looking does not change anything
        after = build.slab_table(stt)
        build.close(after, before, 0, 0, "slabs after computing profiles")
    return dict(
        nontrivial=any(la[2] > 0 for la in layers[1:]) and len(
            {round(la[1].real, 9) for la in layers}) > 1,
        labels=["reversed" if s["rev"] else "forward",
                "default z" if case["z"] is None else "given z", f"layers {L}"])


@st.composite
def strat(draw):
    mat = st.one_of(gen.transparent, gen.const, gen.metal,
                    gen.dispersive_material, gen.bundled)
    d = st.one_of(gen.uni(0, 500, 2), st.just(0.0), gen.logu(0.1, 1e4))
    s = draw(gen.structure(mat=mat, nmin=0, nmax=5, vf=True, mixeds=True,
                           rev=True, solvent=True, d=d))
    s["dp"] = draw(st.one_of(st.just(1 / 3), gen.uni(0.02, 0.95, 4)))
    rr = st.one_of(st.just(0.0), gen.uni(0.1, 80, 2), gen.uni(0.1, 80, 2))
    for la in s["layers"]:
        la["r"] = draw(rr)
    z = st.one_of(st.none(), st.lists(gen.uni(-200, 2500, 3), min_size=1, max_size=6))
    return {"s": s, "ws": [draw(gen.wavelengths), draw(gen.wavelengths)],
            "z": draw(z), "list": draw(st.booleans()),
            "mdz": draw(st.one_of(st.none(), gen.uni(0.3, 5, 2))),
            "aligns": draw(st.lists(st.integers(0, 40), min_size=1, max_size=3)),
            "how": draw(st.integers(0, 1)), "i": draw(st.integers(0, 9)),
            "d": draw(d), "r": draw(rr)}


SUBS = [Sub("profile", strat, check, quick=1600)]
