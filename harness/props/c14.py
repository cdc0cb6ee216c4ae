"""C14: structures with non-default interfaces (sliced), contracted structures."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from . import c01

from refellips import MixedSlabSE, ReflectModelSE, SlabSE
from refnx.reflect.interface import (
    Erf, Exponential, Linear, Sinusoidal, Step, Tanh,
)
from refnx.reflect.structure import contract_by_area

RULE = (
    "a generated stack (0-4 thin inner layers, solvated, mixed, reversed, any "
    "mixing rule) in which at least one interface has a non-default shape, "
    "evaluated at several wavelengths and angles; non-trivial if a non-default "
    "interface has non-zero roughness and separates different indices"
)
ASSUMPTIONS = [
    "a slice may sit up to 0.75 A away from where the ideal profile has its value",
    "thickness of the media at the ends is 0",
    "contraction (done by refnx) is only asked of layers at least 1 A thick",
]
SHAPES = {"erf": Erf, "lin": Linear, "exp": Exponential, "tanh": Tanh,
          "sin": Sinusoidal, "step": Step}
G = math.pi / math.sqrt(math.pi**2 - 8)


def shape(kind, z, s):
    """Published shapes of an interface at 0 with rms width s."""
    z = np.asarray(z, float)
    if s == 0:
        return np.where(z >= 0, 1.0, 0.0)
    if kind in (None, "erf"):
        from scipy.special import ndtr

        return ndtr(z / s)
    if kind == "lin":
        return np.clip(0.5 + z / (2 * math.sqrt(3) * s), 0, 1)
    if kind == "exp":
        e = 0.5 * np.exp(-math.sqrt(2) * np.abs(z) / s)
        return np.where(z > 0, 1 - e, e)
    if kind == "tanh":
        return 0.5 * (1 + np.tanh(math.sqrt(2 / math.pi) * z / s))
    if kind == "sin":
        return np.where(z <= -G * s, 0.0, np.where(
            z >= G * s, 1.0,
            0.5 + 0.5 * np.sin(math.pi * np.clip(z, -G * s, G * s) / G / 2 / s)))
    if kind == "step":
        return np.where(z <= -s, 0.0, np.where(z >= s, 1.0, 0.5))
    raise KeyError(kind)


def parts(s, kinds, w):
    """Interfaces in optical order: (position, jump of n, width, shape), media."""
    layers = ref.layers_of(s, w)
    kk = list(kinds)
    if s["rev"]:
        kk = [None] + kk[1:][::-1]
    pos, out = 0.0, []
    for j in range(1, len(layers)):
        if j > 1:
            pos += layers[j - 1][0]
        out.append((pos, layers[j][1] - layers[j - 1][1], layers[j][2], kk[j]))
    return layers, out


def ideal(layers, ifs, z, rev):
    """Complex index at depths z; shapes are drawn in the un-reversed direction"""
    n = np.full(np.shape(z), layers[0][1], complex)
    for p, dn, s, k in ifs:
        if rev:
            n = n + dn * (1 - shape(k, -(z - p), s))
        else:
            n = n + dn * shape(k, z - p, s)
    return n


def continuous(layers, ifs, rev, w, a, dz=0.25, o=0.0):
    lo = -5 - 8 * ifs[0][2] - 2 + o
    hi = 7 + ifs[-1][0] + 8 * ifs[-1][2]
    z = np.arange(lo + dz / 2, hi, dz)
    ns = np.concatenate([[layers[0][1]], ideal(layers, ifs, z, rev),
                         [layers[-1][1]]])
    ds = np.full(len(ns), dz / 10)
    rs, rp = ref.stack_r(ns, ds, a, w)
    return rs, rp, ns


def build_st(s, kinds, how="set"):
    stt = build.structure(s)
    for i, (c, k) in enumerate(zip(list(stt), kinds)):
        f = SHAPES[k]() if k is not None else None
        if how == "set":
            c.interfaces = f
        elif s["layers"][i]["t"] == "slab":
            stt[i] = SlabSE(c.thick, c.ri, c.rough, vfsolv=c.vfsolv, interface=f)
        else:
            stt[i] = MixedSlabSE(c.thick, c.ri_A, c.ri_B, c.vf_B, c.rough, interface=f)
    return stt


def check(case):
    s, kinds = case["s"], case["kinds"]
    q = case["q"]
    stt = build_st(s, kinds, case.get("how", "set"))
    model = ReflectModelSE(stt)
    if all(k is None for k in kinds):
        raise Reject("all default")
    # only points where light is reflected
    use = []
    for w, a in q:
        layers, ifs = parts(s, kinds, w)
        rs, rp, ns = continuous(layers, ifs, s["rev"], w, a)
        if min(abs(rs), abs(rp)) > 0.01 and c01.usable(rs, rp, ns, a):
            use.append([w, a])
    if not use:
        raise Reject("no reflected light")
    q = use
    psi, delta = build.call_model(model, q)
    seen = {}
    for (w, a), p, d in zip(q, psi, delta):
        if w not in seen:
            t = build.arr(stt.slabs(wavelength=w), what="slabs")
            require(t.ndim == 2 and t.shape[1] == 5 and len(t) >= 3,
                    f"slabs has shape {t.shape}")
            layers, ifs = parts(s, kinds, w)
            judge_rows(t, layers, ifs, w, s["rev"])
            seen[w] = t
        t = seen[w]
        ns = t[:, 1] + 1j * t[:, 2]
        rs, rp = ref.stack_r(ns, t[:, 0] / 10, a, w)
        c01.judge(p, d, rs, rp, w, a, 1e-7, "sliced structure")
    # the profile as a whole, on an independent fine grid
    w, a = q[0]
    layers, ifs = parts(s, kinds, w)
    rs, rp, ns = continuous(layers, ifs, s["rev"], w, a)
    err = np.abs(ref.poincare(rs, rp) - ref.pd_vector(psi[0], delta[0])).max()
    # how much the choice of slices matters
    v0 = ref.poincare(rs, rp)
    spread = 0.0
    for dz, o in ((0.5, 0.0), (0.5, 0.17), (0.5, 0.33), (0.5, 0.42), (0.7, 0.25),
                  (0.6, 0.1)):
        x = continuous(layers, ifs, s["rev"], w, a, dz, o)
        spread = max(spread, np.abs(ref.poincare(x[0], x[1]) - v0).max())
    tol = 2e-3 + 10 * spread
    # (slices of an absorbing incident medium are no part of the sample)
    require(err <= tol or abs(layers[0][1].imag) > 1e-12,
            f"optics of the sliced structure differ from the continuous "
            f"profile by {err} at {w} nm {a} deg")
    nt = any(k is not None and x[2] > 0 and abs(x[1]) > 1e-6
             for x, k in [(i, i[3]) for i in ifs])
    return dict(nontrivial=nt,
                labels=sorted({k for k in kinds if k}) +
                ["reversed" if s["rev"] else "forward"])


def judge_rows(t, layers, ifs, w, rev):
    c0 = complex(t[0, 1], t[0, 2])
    c1 = complex(t[-1, 1], t[-1, 2])
    require(abs(c0 - layers[0][1]) < 1e-8 * (1 + abs(c0)),
            f"first slice is {c0}, the incident medium is {layers[0][1]}")
    require(abs(c1 - layers[-1][1]) < 1e-8 * (1 + abs(c1)),
            f"last slice is {c1}, the backing medium is {layers[-1][1]}")
    require(np.all(t[1:-1, 0] > 0) and t[1:-1, 0].max() < 1.0,
            "slices are not thin")
    require(np.all(t[1:-1, 3] == 0), "slices have roughness")
    # centre of the slices, the table is centred on the profile
    edges = np.concatenate([[0], np.cumsum(t[1:-1, 0])])
    c = 0.5 * (edges[:-1] + edges[1:])
    zs, ze = -5 - 8 * ifs[0][2], 5 + ifs[-1][0] + 8 * ifs[-1][2]
    require(abs(edges[-1] - (ze - zs)) < 3,
            f"slices span {edges[-1]} A, expected about {ze - zs}")
    pos = c - 0.5 * edges[-1] + 0.5 * (zs + ze)
    win = np.linspace(-0.75, 0.75, 31)
    zz = pos[:, None] + win[None, :]
    n = ideal(layers, ifs, zz, rev)
    for col, f in ((1, np.real), (2, np.imag)):
        v = f(n)
        tol = 1e-7 + 1e-3 * max(abs(f(x[1])) for x in ifs)
        lo, hi = v.min(1) - tol, v.max(1) + tol
        bad = (t[1:-1, col] < lo) | (t[1:-1, col] > hi)
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation(
                f"slice at {pos[i]:.3f} A has {'nk'[col - 1]}={t[1 + i, col]!r}, the "
                f"profile there is within {lo[i]!r}..{hi[i]!r} at {w} nm")


def check_contract(case):
    s, c, w = case["s"], case["c"], case["w"]
    kinds = case["kinds"]
    stt = build_st(s, kinds)
    t0 = build.arr(stt.slabs(wavelength=w)).copy()
    stt.contract = c
    t1 = build.arr(stt.slabs(wavelength=w)).copy()
    require(t1.ndim == 2 and t1.shape[1] == 5 and 2 <= len(t1) <= len(t0),
            f"contracted from {len(t0)} to {t1.shape}")
    build.close(t1[[0, -1], 1:3], t0[[0, -1], 1:3], 1e-9, 1e-10,
                "media at the ends of a contracted structure")
    # the coarsening is the one of refnx, applied to the slabs as they are
    build.close(t1, np.array(contract_by_area(t0.copy(), c)), 1e-9, 1e-10,
                f"slabs contracted by {c}")
    # hardly any contraction, hardly any optical change
    q = case["q"]
    stt.contract = 1e-9
    m = ReflectModelSE(stt)
    for w_, a in q:
        stt.contract = 0
        tt = build.arr(stt.slabs(wavelength=w_))
        ns = tt[:, 1] + 1j * tt[:, 2]
        rs, rp = ref.stack_r(ns, tt[:, 0] / 10, a, w_)
        if not c01.usable(rs, rp, ns, a) or min(abs(rs), abs(rp)) < 1e-3 or (
                abs(ns[0].imag) > 1e-12):
            continue
        stt.contract = 1e-9
        psi, delta = build.call_model(m, [[w_, a]])
        c01.judge(psi[0], delta[0], rs, rp, w_, a, 1e-5, "contracted structure")
    # and off again
    stt.contract = 0
    t2 = build.arr(stt.slabs(wavelength=w))
    build.close(t2, t0, 0, 0, "slabs with contraction off")
    # passing through the constructor is the same
    st2 = build_st(s, kinds)
    st3 = type(st2)(list(st2), solvent=st2.solvent,
                    reverse_structure=st2.reverse_structure, contract=c,
                    ema=st2.ema, depolarisation_factor=st2.depolarisation_factor,
                    wavelength=w)
    build.close(build.arr(st3.slabs()), t1, 1e-12, 1e-12, "StructureSE(contract=..)")
    return dict(nontrivial=len(t1) < len(t0),
                labels=["shorter" if len(t1) < len(t0) else "same"])


def base(draw, nmax):
    mat = st.one_of(gen.transparent, gen.const, gen.dispersive_material)
    # (whether a slice falls into a layer much thinner than a slice is chance)
    d = gen.uni(0, 120, 2).map(lambda x: x if x >= 1 else 0.0)
    s = draw(gen.structure(mat=mat, nmin=0, nmax=nmax, vf=True, mixeds=True,
                           rev=True, solvent=True, d=d))
    s["dp"] = draw(st.one_of(st.just(1 / 3), gen.uni(0.02, 0.95, 4)))
    rr = st.one_of(st.just(0.0), gen.uni(3, 25, 2), gen.uni(3, 25, 2))
    for la in s["layers"]:
        la["r"] = draw(rr)
    return s


@st.composite
def strat(draw):
    s = base(draw, 4)
    kind = st.one_of(st.none(), st.sampled_from(sorted(SHAPES)))
    kinds = [draw(kind) for _ in s["layers"]]
    if all(k is None for k in kinds):
        kinds[-1] = "lin"
    return {"s": s, "kinds": kinds, "how": draw(st.sampled_from(["set", "make"])),
            "q": draw(gen.queries(1, 3, ang=gen.uni(20, 80, 3)))}


@st.composite
def strat_contract(draw):
    s = base(draw, 4)
    for la in s["layers"][1:-1]:
        la["d"] = round(la["d"] + 1, 2)
    kind = st.one_of(st.none(), st.none(), st.sampled_from(sorted(SHAPES)))
    kinds = [draw(kind) for _ in s["layers"]]
    return {"s": s, "kinds": kinds, "w": draw(gen.wavelengths),
            "c": draw(gen.logu(1e-4, 20)),
            "q": draw(gen.queries(1, 2, ang=gen.uni(20, 80, 3)))}


SUBS = [Sub("sliced", strat, check, quick=420),
        Sub("contract", strat_contract, check_contract, quick=500)]
