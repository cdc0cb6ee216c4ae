"""C11: parametric dispersion models follow their documented formulas."""

import numpy as np
from hypothesis import strategies as st

from refnx.analysis import Parameter

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import Cauchy, Gauss, Lorentz, Sellmeier, TaucLorentz

RULE = (
    "a generated Cauchy / Sellmeier / Lorentz (1-4 oscillators) / Tauc-Lorentz / "
    "Gauss / user-defined material, evaluated at scalar and array wavelengths, "
    "after changing its parameters, with Parameter objects shared by the caller; "
    "non-trivial if at least one strength is not zero"
)
ASSUMPTIONS = [
    "the Gaussian is evaluated by the code on a 0.02 eV grid over 40 eV: judged "
    "within the error of that grid (widths >= 0.25 eV)",
]


def near(c, e, m, what, w):
    if m["t"] != "gauss":
        require(abs(c - e) <= 1e-7 * abs(e) + 1e-9, f"{what}: {c} expected {e}")
        return
    # between the exact Kramers-Kronig partner and that on the code's grid
    E = ref.HC / w
    x, y = ref.gauss_eps(m, E), ref.gauss_eps_periodic(m, E)
    z = c * c
    lo, hi = min(x.real, y.real), max(x.real, y.real)
    t = 1e-6 + sum(a * 5e-4 / b**2 for a, b in zip(m["Am"], m["Br"]))
    require(lo - t <= z.real <= hi + t and abs(z.imag - x.imag) <= t,
            f"{what}: eps {z} expected {x} (to {y} on a grid), within {t}")


def scale(m, f):
    """other values for the parameters of the same material"""
    o = dict(m)
    t = m["t"]
    if t == "cauchy":
        o.update(A=m["A"] * f, B=m["B"] + 0.001 * f, C=m["C"] * f)
    elif t == "sellmeier":
        o.update(Am=m["Am"] * f, Einf=m["Einf"] * f, En=m["En"] / (1 + f))
    elif t in ("lorentz", "gauss"):
        o.update(Am=[a * f for a in m["Am"]], Einf=m["Einf"] + f,
                 Br=[max(0.3, b * f) for b in m["Br"]],
                 En=[e * min(f, 1.0) for e in m["En"]])
    elif t == "tl":
        o.update(Am=[a * f for a in m["Am"]], Einf=m["Einf"] + f,
                 En=[e + f for e in m["En"]], Eg=m["Eg"] * 0.9)
    elif t == "user":
        o.update(a=m["a"] + f, c=m["c"] * f)
    return o


def assign(r, m):
    t = m["t"]
    keys = {"cauchy": "A B C", "sellmeier": "Am En P Einf",
            "lorentz": "Am Br En Einf", "gauss": "Am Br En Einf",
            "tl": "Am C En Eg Einf", "user": "a b c"}[t].split()
    for k in keys:
        p = getattr(r, k)
        if isinstance(m[k], list):
            flat = list(p.flattened())
            require(len(flat) == len(m[k]), f"{k} has {len(flat)} values")
            for x, v in zip(flat, m[k]):
                x.value = v
        else:
            p.value = m[k]
    return keys


def check(case):
    m, ws = case["m"], case["ws"]
    r = build.material(m, name="mat", wavelength=case["w0"])

    def probe(mm, what):
        for w in ws:
            try:
                e = ref.n_of(mm, w)
            except ValueError:
                raise Reject("negative dielectric function")
            c = build.cnum(r.complex(w), f"{what} at {w}")
            near(c, e, mm, f"{what} at {w} nm", w)
            require(c.imag >= -1e-12 and c.real >= 0, f"{what} at {w} nm: {c}")
        a = np.asarray(r.complex(np.array(ws, float)), complex)
        require(a.shape == (len(ws),), f"{what}: array query gives {a.shape}")
        n = (0, 70, 0, 300, 1300)[int(round(ws[0] * 1000)) % 5]
        if n:
            # a whole spectrum
            x = np.linspace(0.9 * ws[0], 1.1 * ws[0], n)
            with np.errstate(all="ignore"):
                b = np.asarray(r.complex(x), complex)
            require(b.shape == x.shape, f"{what}: {n} wavelengths give {b.shape}")
            for i in (0, 1, n // 3, n // 2, n - 2, n - 1):
                with np.errstate(all="ignore"):
                    c = complex(r.complex(float(x[i])))
                require(not np.isfinite(c) or abs(b[i] - c) <= 1e-9 * (1 + abs(c)),
                        f"{what}: {b[i]} in an array of {n}, alone {c}")
        for w, c in zip(ws, a):
            near(complex(c), ref.n_of(mm, w), mm, f"{what} array query at {w} nm",
                 w)

    probe(m, m["t"])
    near(build.cnum(complex(r)), ref.n_of(m, case["w0"]), m,
         f"{m['t']} at its default wavelength", case["w0"])
    m2 = scale(m, case["f"])
    keys = assign(r, m2)
    probe(m2, f"{m['t']} with changed parameters")
    ids = {id(p) for p in r.parameters.flattened()}
    for k in keys:
        p = getattr(r, k)
        for x in (p.flattened() if isinstance(m[k], list) else [p]):
            require(id(x) in ids, f"parameter {k} of {m['t']} isn't exposed")
    if m["t"] in ("lorentz", "gauss", "tl"):
        # sum of the single oscillators
        keys = [k for k in ("Am", "Br", "C", "En") if k in m2]
        for w in ws[:2]:
            E = ref.HC / w
            tot = complex(np.asarray(r.epsilon(E)).ravel()[0])
            s = complex(m2["Einf"])
            for i in range(len(m2["Am"])):
                one = dict(m2, Einf=0.0)
                for k in keys:
                    one[k] = m2[k][i]
                rr = build.material(one)
                s += complex(np.asarray(rr.epsilon(E)).ravel()[0])
            require(abs(s - tot) < 1e-8 * (1 + abs(tot)),
                    f"{m['t']}: {tot} isn't the sum of its oscillators {s}")
            c = complex(r.complex(w))
            require(abs(c * c - tot) < 1e-8 * (1 + abs(tot)),
                    f"complex()**2 = {c * c} but epsilon = {tot}")
        e = np.asarray(r.epsilon(ref.HC / np.array(ws)), complex)
        require(e.shape == (len(ws),), "epsilon of an array")
    return dict(nontrivial=True, labels=[m["t"]])


def check_shared(case):
    """Parameters given by the caller stay connected; wrong lengths rejected"""
    m, w = case["m"], case["w"]
    p = {}
    spec = {}
    for k, v in m.items():
        if k == "t":
            continue
        if isinstance(v, list):
            p[k] = [Parameter(x, name=f"{k}{i}") for i, x in enumerate(v)]
        else:
            p[k] = Parameter(v, name=k)
    spec.update(p, t=m["t"])
    r1, r2 = build.material(spec), build.material(spec)
    m2 = scale(m, case["f"])
    for k, v in m2.items():
        if k == "t":
            continue
        if isinstance(v, list):
            for x, y in zip(p[k], v):
                x.value = y
        else:
            p[k].value = v
    try:
        e = ref.n_of(m2, w)
    except ValueError:
        raise Reject("negative dielectric function")
    for r in (r1, r2):
        near(build.cnum(r.complex(w)), e, m2,
             f"{m['t']} after changing the caller's Parameters", w)
    if m["t"] in ("lorentz", "gauss", "tl"):
        bad = dict(m, Am=list(m["Am"]) + [1.0])
        try:
            build.material(bad)
        except ValueError:
            pass
        else:
            raise Violation(f"{m['t']} accepted {len(bad['Am'])} amplitudes and "
                            f"{len(bad['En'])} energies")
    return dict(nontrivial=True, labels=[m["t"]])


def check_alias(case):
    """One Parameter given for several coefficients, of one or two materials,
    and a coefficient tied to another by a constraint."""
    m, w = case["m"], case["w"]
    slots = []
    for k, v in sorted(m.items()):
        if k == "t":
            continue
        slots += [(k, i) for i in range(len(v))] if isinstance(v, list) else [(k, None)]
    group = case["group"]
    val = [float(m[k] if i is None else m[k][i]) for k, i in slots]
    label = [group[j % len(group)] for j in range(len(slots))]
    pars = {}
    spec = {"t": m["t"]}
    for (k, i), v, g in zip(slots, val, label):
        p = pars.setdefault(g, Parameter(v, name=f"p{g}"))
        if i is None:
            spec[k] = p
        else:
            spec.setdefault(k, []).append(p)
    r1, r2 = build.material(spec), build.material(dict(spec))
    for step in range(2):
        if step:
            for g, p in pars.items():
                p.value = p.value * case["f"]
        m2 = {"t": m["t"]}
        for (k, i), g in zip(slots, label):
            v = pars[g].value
            if i is None:
                m2[k] = v
            else:
                m2.setdefault(k, []).append(v)
        if m["t"] == "sellmeier":
            if abs(w * 1e-3 - m2["En"]) < 1e-3:
                raise Reject("at the pole")
        if m["t"] == "tl" and not all(
                0.02 < c < 1.99 * e and e > m2["Eg"] * 1.001 and m2["Eg"] > 0
                for c, e in zip(m2["C"], m2["En"])):
            raise Reject("not a physical Tauc-Lorentz oscillator")
        if m["t"] == "gauss" and not all(
                0.25 <= b <= 4 and e <= 9 for b, e in zip(m2["Br"], m2["En"])):
            raise Reject("outside the grid")
        try:
            e = ref.n_of(m2, w)
        except ValueError:
            raise Reject("negative dielectric function")
        if not np.isfinite(e):
            raise Reject("not finite")
        for r in (r1, r2):
            near(build.cnum(r.complex(w)), e, m2,
                 f"{m['t']} whose coefficients share Parameters", w)
    return dict(nontrivial=len(pars) < len(slots), labels=[m["t"]])


def strat_alias():
    return st.builds(
        lambda m, w, f, g: {"m": m, "w": w, "f": f, "group": g},
        st.one_of(gen.cauchy, gen.sellmeier, gen.lorentz, gen.tauc(2), gen.gauss),
        gen.uni(200, 2000, 3), gen.uni(0.7, 1.4, 3),
        st.lists(st.integers(0, 5), min_size=1, max_size=9))


CLS = {"cauchy": Cauchy, "sellmeier": Sellmeier, "lorentz": Lorentz,
       "gauss": Gauss, "tl": TaucLorentz}
ARGS = {"cauchy": "A B C", "sellmeier": "Am En P Einf", "lorentz": "Am Br En Einf",
        "gauss": "Am Br En Einf", "tl": "Am C En Eg Einf"}
OPTIONAL = {"A": None, "B": 0.0, "C": 0.0, "Einf": 1.0}


def check_forms(case):
    """The ways of giving the coefficients: sequences of any kind, positional or
    by keyword, the optional ones and the wavelength left out."""
    m = dict(case["m"])
    t = m["t"]
    names = ARGS[t].split()
    drop = []
    if case["drop"]:
        drop = ["Einf"] if "Einf" in names else ["C", "B"][: case["drop"]]
        if t == "tl":
            drop = ["Einf"]
    for k in drop:
        m[k] = OPTIONAL[k]
    form = case["form"]

    def give(k):
        v = m[k]
        if not isinstance(v, list):
            return Parameter(v) if form == "params" else v
        if len(v) == 1 and form == "scalar":
            return v[0]
        if form == "params":
            return [Parameter(x) for x in v]
        return {"tuple": tuple, "array": np.array}.get(form, list)(v)

    kw = {} if case["w0"] is None else {"wavelength": case["w0"]}
    use = [k for k in names if k not in drop]
    if case["pos"]:
        r = CLS[t](*[give(k) for k in use], **kw)
    else:
        r = CLS[t](**{k: give(k) for k in use}, **kw)
    w0 = 658.0 if case["w0"] is None else case["w0"]
    try:
        e0, es = ref.n_of(m, w0), [ref.n_of(m, w) for w in case["ws"]]
    except ValueError:
        raise Reject("negative dielectric function")
    require(float(r.wavelength) == w0, f"{t}: wavelength {r.wavelength}, not {w0}")
    near(build.cnum(complex(r)), e0, m, f"{t} at its own wavelength", w0)
    for w, e in zip(case["ws"], es):
        near(build.cnum(r.complex(w)), e, m, f"{t} given as {form} at {w}", w)
    if t == "sellmeier":
        # its dielectric function is one of wavelength
        x = build.cnum(r.epsilon(case["ws"][0]))
        require(abs(x - es[0] ** 2) <= 1e-8 * (1 + abs(x)),
                f"sellmeier epsilon {x}, expected {es[0] ** 2}")
    elif t != "cauchy":
        x = build.cnum(np.asarray(r.epsilon(ref.HC / case["ws"][0])).ravel()[0])
        near(ref.csqrt_up(x), es[0], m, f"{t} epsilon", case["ws"][0])
    return dict(nontrivial=True, labels=[t, form] + ["omitted " + k for k in drop])


@st.composite
def strat_forms(draw):
    m = draw(st.one_of(gen.cauchy, gen.sellmeier, gen.lorentz, gen.tauc(3), gen.gauss))
    if draw(st.booleans()):
        m = dict(m)
        for k, v in m.items():
            if isinstance(v, list):
                m[k] = v[:1]
    return {"m": m, "form": draw(st.sampled_from(
        ["list", "tuple", "array", "scalar", "params"])),
        "drop": draw(st.integers(0, 2)), "pos": draw(st.booleans()),
        "w0": draw(st.one_of(st.none(), gen.uni(200, 2000, 3))),
        "ws": draw(st.lists(gen.uni(200, 2000, 3), min_size=1, max_size=2))}


MAT = st.one_of(gen.cauchy, gen.sellmeier, gen.lorentz, gen.tauc(3), gen.gauss,
                gen.user)


def strat():
    return st.builds(
        lambda m, ws, w0, f: {"m": m, "ws": ws, "w0": w0, "f": f},
        MAT, st.lists(gen.uni(200, 2000, 3), min_size=1, max_size=4),
        gen.uni(200, 2000, 3), gen.uni(0.5, 1.6, 3))


def strat_shared():
    return st.builds(lambda m, w, f: {"m": m, "w": w, "f": f},
                     st.one_of(gen.cauchy, gen.sellmeier, gen.lorentz,
                               gen.tauc(3), gen.gauss),
                     gen.uni(200, 2000, 3), gen.uni(0.5, 1.6, 3))


SUBS = [Sub("formula", strat, check, quick=2500),
        Sub("shared", strat_shared, check_shared, quick=1000),
        Sub("alias", strat_alias, check_alias, quick=1000),
        Sub("forms", strat_forms, check_forms, quick=800)]
