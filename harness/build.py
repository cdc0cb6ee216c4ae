"""Build objects of the code under test from JSON specs; output guards."""

import numpy as np

from .core import Violation

import refellips
from refellips import (
    RI, Cauchy, Gauss, Lorentz, MixedSlabSE, ReflectModelSE, ScattererSE,
    Sellmeier, SlabSE, StructureSE, TaucLorentz, load_material,
)
from refnx.analysis import Parameter, Parameters


class UserOscillator(ScattererSE):
    """User defined dispersion, as in demos/refellipsDemo_UserDefinedOscillator"""

    def __init__(self, a, b, c, wavelength=658, name=""):
        super().__init__(name=name, wavelength=wavelength)
        self.a = Parameter(a, name="a")
        self.b = Parameter(b, name="b")
        self.c = Parameter(c, name="c")
        self._parameters = Parameters([self.a, self.b, self.c], name=name)

    @property
    def parameters(self):
        return self._parameters

    def epsilon(self, energy):
        e = np.asarray(energy, float)
        v = self.a.value + self.b.value * e * e + 1j * self.c.value * e
        return complex(v) if v.ndim == 0 else v


def material(m, name="", **kw):
    t = m["t"]
    if t == "const":
        return RI([m["n"], m["k"]], name=name, **kw)
    if t == "cauchy":
        return Cauchy(m["A"], m["B"], m["C"], name=name, **kw)
    if t == "sellmeier":
        return Sellmeier(m["Am"], m["En"], m["P"], m["Einf"], name=name, **kw)
    if t == "lorentz":
        return Lorentz(m["Am"], m["Br"], m["En"], m["Einf"], name=name, **kw)
    if t == "gauss":
        return Gauss(m["Am"], m["Br"], m["En"], m["Einf"], name=name, **kw)
    if t == "tl":
        return TaucLorentz(m["Am"], m["C"], m["En"], m["Eg"], m["Einf"],
                           name=name, **kw)
    if t == "user":
        return UserOscillator(m["a"], m["b"], m["c"], name=name, **kw)
    if t == "table":
        return RI((np.array(m["um"], float), np.array(m["n"], float),
                   np.array(m["k"], float)), name=name, **kw)
    if t == "bundled":
        return load_material(m["name"])
    raise KeyError(t)


def component(la, name=""):
    if la["t"] == "slab":
        c = SlabSE(la["d"], material(la["m"]), la["r"], name=name,
                   vfsolv=la["vf"])
    else:
        c = MixedSlabSE(la["d"], material(la["a"]), material(la["b"]),
                        la["vfb"], la["r"], name=name)
    return c


def structure(s):
    st = StructureSE(
        components=[component(la) for la in s["layers"]],
        solvent=material(s["solvent"]) if s.get("solvent") else None,
        reverse_structure=bool(s.get("rev")),
        ema=s["ema"],
        depolarisation_factor=s["dp"],
    )
    return st


def model(s, **kw):
    return ReflectModelSE(structure(s), **kw)


# ---------------------------------------------------------------- guards
def arr(x, shape=None, what="result"):
    """A finite real array of the right shape, or a violation."""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what} is not numeric: {x!r} ({e})")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what} has shape {a.shape}, expected {shape}")
    if not np.isfinite(a).all():
        raise Violation(f"{what} is not finite: {a!r}")
    return a


def cnum(x, what="refractive index"):
    try:
        c = complex(x)
    except Exception as e:
        raise Violation(f"{what} is not a complex number: {x!r} ({e})")
    if not np.isfinite(c):
        raise Violation(f"{what} is not finite: {c!r}")
    return c


def call_model(mod, q):
    q = np.asarray(q, float)
    out = mod(q)
    try:
        psi, delta = out
    except Exception:
        raise Violation(f"model returned {out!r}, not (psi, delta)")
    return arr(psi, (len(q),), "psi"), arr(delta, (len(q),), "delta")


def close(a, b, rtol, atol, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != {b.shape}")
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    if bad.any():
        i = np.argwhere(bad)[0]
        raise Violation(
            f"{what}: got {a[tuple(i)]!r} expected {b[tuple(i)]!r} at {i.tolist()}"
            f" ({int(bad.sum())} of {a.size} differ)"
        )


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def slab_table(st, what="slabs"):
    x = st.slabs()
    a = np.asarray(x, dtype=float) if x is not None else None
    if a is None or a.ndim != 2 or a.shape[1] != 5:
        raise Violation(f"{what}: not an (N, 5) table: {x!r}")
    return arr(a, what=what)


# ------------------------------------------------------- fitting parameters
MAT_FIELDS = {
    "cauchy": ("A", "B", "C"),
    "sellmeier": ("Am", "En", "P", "Einf"),
    "lorentz": ("Am", "Br", "En", "Einf"),
    "gauss": ("Am", "Br", "En", "Einf"),
    "tl": ("Am", "C", "En", "Eg", "Einf"),
    "user": ("a", "b", "c"),
}


def material_handles(obj, m, path):
    out = []
    for f in MAT_FIELDS.get(m["t"], ()):
        p = getattr(obj, f)
        if isinstance(m[f], list):
            for i in range(len(m[f])):
                out.append((p[i], path + [f, i]))
        else:
            out.append((p, path + [f]))
    return out


def handles(s, stt):
    """(Parameter, path into the spec) for everything that can be fitted, read
    from the public attributes of the layers."""
    out = []
    for i, (c, la) in enumerate(zip(stt, s["layers"])):
        p = ["layers", i]
        out.append((c.thick, p + ["d"]))
        out.append((c.rough, p + ["r"]))
        if la["t"] == "slab":
            out.append((c.vfsolv, p + ["vf"]))
            out += material_handles(c.ri, la["m"], p + ["m"])
        else:
            out.append((c.vf_B, p + ["vfb"]))
            out += material_handles(c.ri_A, la["a"], p + ["a"])
            out += material_handles(c.ri_B, la["b"], p + ["b"])
    if s.get("solvent"):
        out += material_handles(stt.solvent, s["solvent"], ["solvent"])
    return out


def spec_get(s, path):
    for p in path:
        s = s[p]
    return s


def spec_set(s, path, v):
    """A copy of the spec with one value changed."""
    import copy

    s = copy.deepcopy(s)
    t = s
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return s
