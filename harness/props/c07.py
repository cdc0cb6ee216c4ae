"""C07: solvation of layers."""

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation

from refellips import StructureSE

RULE = (
    "a generated stack with 1-5 inner layers, volume fractions of solvent in "
    "[0, 1] (0, 1 and tiny values included), a solvent that is a material or the "
    "backing medium, any mixing rule, reversed or not, evaluated at several "
    "wavelengths and after changing solvent/fractions; non-trivial if some inner "
    "layer has 0 < vf and the solvent differs from the layer"
)
ASSUMPTIONS = ["depolarisation factors within 1e-3 of 1 or 0 are left to C08"]


def table(s, w):
    return np.array([[d, c.real, c.imag, r, v]
                     for d, c, r, v in ref.layers_of(s, w)])


def cmp(stt, s, w, what):
    n = len(s["layers"])
    t = build.arr(stt.slabs(wavelength=w), (n, 5), what)
    build.close(t, table(s, w), 2e-9, 1e-9, f"{what} at {w} nm")
    # the media at the ends are never solvated
    for j, la in ((0, s["layers"][0]), (-1, s["layers"][-1])):
        if s["rev"]:
            la = s["layers"][-1 if j == 0 else 0]
        c = ref.n_of(la["m"], w)
        require(abs(complex(t[j, 1], t[j, 2]) - c) < 1e-9 * abs(c),
                f"{what}: end medium {j} was solvated: {t[j]} pure: {c}")
    return t


def perturb(m, obj, v):
    """Change a parameter of a material; the changed spec, or None."""
    f = {"const": "n", "cauchy": "A", "sellmeier": "Einf", "lorentz": "Einf",
         "gauss": "Einf", "tl": "Einf"}.get(m["t"])
    for p, path in build.material_handles(obj, m, []):
        if path == [f]:
            x = m[f] + 0.05 + 0.2 * v
            p.value = x
            return dict(m, **{f: x})
    return None


def own_wavelengths(s, own):
    """Without a wavelength of the structure every material is at its own."""
    stt = build.structure(s)
    require(stt.wavelength is None, "a new structure has a wavelength")
    k = [0]

    def fix(m, obj):
        w = own[k[0] % len(own)]
        k[0] += 1
        obj.wavelength = w
        c = ref.n_of(m, w)
        return {"t": "const", "n": c.real, "k": c.imag}

    s = dict(s, layers=[dict(la) for la in s["layers"]])
    for la, c in zip(s["layers"], stt):
        if la["t"] == "slab":
            la["m"] = fix(la["m"], c.ri)
        else:
            la["a"] = fix(la["a"], c.ri_A)
            la["b"] = fix(la["b"], c.ri_B)
    if s["solvent"]:
        s["solvent"] = fix(s["solvent"], stt.solvent)
    t = build.arr(stt.slabs(), (len(s["layers"]), 5), "slabs")
    build.close(t, table(s, 500.0), 2e-9, 1e-9,
                "slabs with every material at its own wavelength")


def check(case):
    s = case["s"]
    ws = case["ws"]
    stt = build.structure(s)
    for w in ws:
        cmp(stt, s, w, "slabs")
    # changes are live
    kind = case["kind"]
    s2 = dict(s)
    if kind == "solvent":
        m = case["m"]
        stt.solvent = build.material(m)
        s2["solvent"] = m
    elif kind == "none":
        stt.solvent = None
        s2["solvent"] = None
    elif kind == "vf":
        i = 1 + case["i"] % (len(s["layers"]) - 2)
        if s["layers"][i]["t"] == "slab":
            stt[i].vfsolv.value = case["v"]
            s2["layers"] = list(s["layers"])
            s2["layers"][i] = dict(s["layers"][i], vf=case["v"])
    elif kind == "ema":
        stt.ema = case["ema"]
        s2["ema"] = case["ema"]
    elif kind == "dp":
        stt.depolarisation_factor = case["dp"]
        s2["dp"] = case["dp"]
    elif kind == "param":
        # a parameter of the solvent, or of the backing that acts as solvent
        m = s["solvent"] or s["layers"][0 if s["rev"] else -1]["m"]
        obj = stt.solvent if s["solvent"] else stt[0 if s["rev"] else -1].ri
        m2 = perturb(m, obj, case["v"])
        if m2 is not None:
            if s["solvent"]:
                s2["solvent"] = m2
            else:
                s2["layers"] = list(s["layers"])
                j = 0 if s["rev"] else -1
                s2["layers"][j] = dict(s["layers"][j], m=m2)
    elif kind == "lparam":
        i = 1 + case["i"] % (len(s["layers"]) - 2)
        la = s["layers"][i]
        if la["t"] == "slab":
            m2 = perturb(la["m"], stt[i].ri, case["v"])
            if m2 is not None:
                s2["layers"] = list(s["layers"])
                s2["layers"][i] = dict(la, m=m2)
    elif kind == "bad":
        for bad in (1.33, "water", complex(1.3, 0)):
            try:
                stt.solvent = bad
            except ValueError:
                continue
            raise Violation(f"solvent = {bad!r} was accepted")
        for bad in (-0.1, 1.0001, 7):
            try:
                stt.depolarisation_factor = bad
            except ValueError:
                pass
            else:
                raise Violation(f"depolarisation_factor = {bad} was accepted")
            try:
                StructureSE(depolarisation_factor=bad)
            except ValueError:
                pass
            else:
                raise Violation(f"StructureSE(depolarisation_factor={bad})")
    for w in ws:
        cmp(stt, s2, w, f"slabs after changing {kind}")
    if case["own"]:
        own_wavelengths(s2, case["own"])
    # pure limits, without the reference: vf=0 is the layer, vf=1 the solvent
    for w in ws[:1]:
        t = build.arr(stt.slabs(wavelength=w))
        if s2["rev"]:
            continue
        for i, la in enumerate(s2["layers"][1:-1], 1):
            if la["t"] != "slab" or la["vf"] not in (0.0, 1.0):
                continue
            m = la["m"] if la["vf"] == 0 else (
                s2["solvent"] or s2["layers"][-1]["m"])
            c = ref.n_of(m, w)
            require(abs(complex(t[i, 1], t[i, 2]) - c) < 1e-8 * (1 + abs(c)),
                    f"layer {i} with vf={la['vf']} has n={t[i, 1:3]}, not {c}")
    vfs = [la.get("vf", 0) for la in s["layers"][1:-1]]
    return dict(
        nontrivial=any(v > 0 for v in vfs),
        labels=[s["ema"], kind, "reversed" if s["rev"] else "not reversed",
                "solvent" if s["solvent"] else "backing"],
    )


@st.composite
def strat(draw):
    mat = st.one_of(gen.transparent, gen.const, gen.metal,
                    gen.dispersive_material, gen.bundled)
    s = draw(gen.structure(mat=mat, nmin=1, nmax=5, vf=True, mixeds=True,
                           rev=True, solvent=True))
    dps = st.one_of(st.just(1 / 3), gen.uni(0.01, 0.97, 4),
                    st.sampled_from([0.0, 1.0]))
    s["dp"] = draw(dps)
    vf = st.one_of(gen.uni(0, 1), gen.uni(0, 1), gen.logu(1e-7, 1e-2),
                   st.sampled_from([0.0, 1.0, 0.5]))
    for la in s["layers"]:
        if la["t"] == "slab":
            la["vf"] = draw(vf)
    return {
        "s": s,
        "ws": draw(st.lists(gen.wavelengths, min_size=1, max_size=3)),
        "own": draw(st.one_of(st.just([]), st.just([]), st.lists(
            gen.wavelengths, min_size=1, max_size=4))),
        "kind": draw(st.sampled_from(
            ["solvent", "none", "vf", "ema", "dp", "bad", "param", "lparam"])),
        "m": draw(mat), "i": draw(st.integers(0, 9)), "v": draw(vf),
        "ema": draw(st.sampled_from(gen.EMAS)), "dp": draw(dps),
    }


SUBS = [Sub("solvation", strat, check, quick=2000)]
