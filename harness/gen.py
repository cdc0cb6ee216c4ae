"""Hypothesis strategies of JSON specs."""

from hypothesis import strategies as st

MATERIALS = ["air", "aluminium_oxide", "dmso", "gold", "pnipam",
             "polymer_diffuse", "polystyrene", "silica", "silicon", "void",
             "water"]
EMAS = ["linear", "maxwell-garnett", "bruggeman"]


def uni(lo, hi, nd=6):
    return st.integers(0, 10**6).map(
        lambda i: round(lo + (hi - lo) * i / 1e6, nd)
    )


def logu(lo, hi):
    import math

    a, b = math.log10(lo), math.log10(hi)
    return st.integers(0, 10**6).map(
        lambda i: float("%.6g" % 10 ** (a + (b - a) * i / 1e6))
    )


def frac(edge=(0.0, 1.0)):
    return st.one_of(uni(0, 1), uni(0, 1), st.sampled_from(list(edge)))


wavelengths = st.one_of(uni(200, 2000, 3), uni(200, 2000, 6), st.sampled_from([658.0, 400.0, 250.0, 1239.841984055]))
angles = st.one_of(uni(0, 90, 4), uni(40, 85, 4), st.sampled_from([0.0, 45.0, 70.0, 75.0, 89.9]))

const = st.builds(
    lambda n, k: {"t": "const", "n": n, "k": k},
    uni(1, 4, 5),
    st.one_of(st.just(0.0), logu(1e-8, 1.0), uni(0, 1, 5)),
)
metal = st.builds(
    lambda n, k: {"t": "const", "n": n, "k": k},
    st.one_of(uni(0.05, 3, 4), uni(0.05, 3, 4), logu(1e-4, 0.05)), uni(0.5, 9, 4)
)
transparent = st.builds(
    lambda n: {"t": "const", "n": n, "k": 0.0},
    st.one_of(uni(1, 2.5, 4), st.sampled_from([1.0, 1.33, 1.5])),
)
cauchy = st.builds(
    lambda A, B, C: {"t": "cauchy", "A": A, "B": B, "C": C},
    uni(1.3, 2.2, 4), uni(-0.008, 0.02, 6), uni(-0.0004, 0.0006, 7),
)
sellmeier = st.builds(
    lambda A, E, P, i: {"t": "sellmeier", "Am": A, "En": E, "P": P, "Einf": i},
    uni(0.2, 3, 4), uni(0.01, 0.19, 4), uni(0, 0.05, 5), uni(1, 3, 3),
)


def _osc(n, d):
    return st.lists(d, min_size=n, max_size=n)


lorentz = st.integers(1, 3).flatmap(
    lambda n: st.builds(
        lambda A, B, E, i: {"t": "lorentz", "Am": A, "Br": B, "En": E, "Einf": i},
        _osc(n, uni(0.1, 40, 3)), _osc(n, st.one_of(uni(0.05, 3, 3), logu(0.01, 5))),
        _osc(n, uni(0.5, 8, 3)), uni(1, 4, 3),
    )
)
gauss = st.integers(1, 3).flatmap(
    lambda n: st.builds(
        lambda A, B, E, i: {"t": "gauss", "Am": A, "Br": B, "En": E, "Einf": i},
        _osc(n, uni(0.1, 10, 3)), _osc(n, uni(0.25, 3, 3)),
        _osc(n, uni(0.1, 8, 3)), uni(1, 4, 3),
    )
)


@st.composite
def tauc(draw, nmax=3):
    n = draw(st.integers(1, nmax))
    Eg = draw(uni(0.3, 4, 3))
    En = [round(Eg + draw(uni(0.05, 6, 3)), 3) for _ in range(n)]
    C = [round(draw(uni(0.02, 0.99, 4)) * 2 * e, 4) for e in En]
    return {"t": "tl", "Am": [draw(uni(5, 200, 2)) for _ in range(n)], "C": C,
            "En": En, "Eg": Eg, "Einf": draw(uni(1, 3, 3))}


user = st.builds(
    lambda a, b, c: {"t": "user", "a": a, "b": b, "c": c},
    uni(1.2, 6, 3), uni(0, 0.05, 4), uni(0, 0.5, 4),
)


@st.composite
def table(draw, lo=0.18, hi=2.2):
    n = draw(st.integers(2, 8))
    w = sorted(set(draw(st.lists(uni(lo, hi, 4), min_size=n, max_size=n))))
    while len(w) < 2:
        w = [w[0], round(w[0] + 0.1, 4)]
    return {"t": "table", "um": w,
            "n": [draw(uni(1, 4, 4)) for _ in w],
            "k": [draw(st.one_of(st.just(0.0), uni(0, 2, 4))) for _ in w]}


bundled = st.sampled_from(MATERIALS).map(lambda n: {"t": "bundled", "name": n})

# materials whose reference index is exact (everything but the Gaussian, which
# the code evaluates on a grid)
exact_material = st.one_of(const, transparent, metal, cauchy, sellmeier, lorentz,
                           tauc(2), table(), bundled, user)
simple_material = st.one_of(transparent, const, cauchy)
dispersive_material = st.one_of(cauchy, sellmeier, lorentz, table(), user)

front_medium = st.one_of(
    transparent, cauchy,
    st.sampled_from([{"t": "bundled", "name": n} for n in ("air", "water", "void")]),
)
thick = st.one_of(uni(0, 3000, 2), logu(0.1, 1e5), st.just(0.0))
rough = st.one_of(st.just(0.0), uni(0, 50, 2), uni(0, 400, 2))


def slab(mat, d=thick, r=rough, vf=None):
    return st.builds(
        lambda m, d, r, vf: {"t": "slab", "m": m, "d": d, "r": r, "vf": vf},
        mat, d, r, vf if vf is not None else st.just(0.0),
    )


def mixed(mat, d=thick, r=rough):
    return st.builds(
        lambda a, b, v, d, r: {"t": "mixed", "a": a, "b": b, "vfb": v, "d": d, "r": r},
        mat, mat, frac(), d, r,
    )


dep = st.one_of(st.just(1 / 3), uni(0, 1, 4), st.sampled_from([0.0, 1.0, 0.5]))


@st.composite
def structure(draw, mat=exact_material, nmin=0, nmax=5, vf=False, mixeds=False,
              rev=False, solvent=False, front=front_medium, back=None, d=thick,
              ema=True):
    n = draw(st.integers(nmin, nmax))
    vfs = st.one_of(st.just(0.0), frac()) if vf else st.just(0.0)
    inner = slab(mat, d=d, vf=vfs)
    if mixeds:
        inner = st.one_of(inner, inner, mixed(mat, d=d))
    layers = [draw(slab(front, d=st.just(0.0), r=st.just(0.0)))]
    layers += [draw(inner) for _ in range(n)]
    layers += [draw(slab(back if back is not None else mat, d=st.just(0.0)))]
    s = {"layers": layers, "ema": "linear", "dp": 1 / 3, "rev": False,
         "solvent": None}
    if ema and (vf or mixeds):
        s["ema"] = draw(st.sampled_from(EMAS))
        s["dp"] = draw(dep)
    if rev:
        s["rev"] = draw(st.booleans())
    if solvent:
        s["solvent"] = draw(mat) if draw(st.booleans()) else None
    return s


def queries(nmin=1, nmax=6, wav=wavelengths, ang=angles):
    return st.lists(
        st.tuples(wav, ang).map(list), min_size=nmin, max_size=nmax
    )
