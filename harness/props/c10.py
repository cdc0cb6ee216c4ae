"""C10: constant and tabulated materials."""

import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation

import refellips
from refellips import RI, SlabSE, load_material

RULE = (
    "constants, dispersion tables (1-30 points, given as arrays, lists, an (3, N) "
    "array or a CSV file with or without an extinction column, by str or Path, "
    "any number format) and every bundled material, queried inside, on, beyond "
    "and next to the nodes, as scalars and arrays; non-trivial if the table has "
    "at least two different values"
)
ASSUMPTIONS = ["tables are sorted by wavelength (as every bundled one is)"]


def expect(m, w):
    return ref.n_of(m, w)


def top(m):
    """The largest extinction coefficient of a material."""
    k = ref.bundled_table(m["name"])[2] if m["t"] == "bundled" else m["k"]
    return max(k) if isinstance(k, (list, tuple)) else k


def probe(r, m, ws, what):
    for w in ws:
        c = build.cnum(r.complex(w), f"{what}.complex({w})")
        e = expect(m, w)
        require(abs(c - e) <= 1e-10 * abs(e) + 1e-12,
                f"{what} at {w} nm: {c} expected {e}")
        # weak absorption counts as well
        require(abs(c.imag - e.imag) <= 1e-10 * top(m),
                f"{what} at {w} nm: k = {c.imag} expected {e.imag}")
    a = np.asarray(r.complex(np.array(ws, float)), complex)
    e = np.array([expect(m, w) for w in ws])
    if m["t"] == "const":
        a = np.broadcast_to(a, e.shape)
    require(a.shape == e.shape, f"{what}: array query has shape {a.shape}")
    require(np.all(np.abs(a - e) <= 1e-10 * np.abs(e) + 1e-12),
            f"{what}: array query {a} expected {e}")
    # a whole spectrum
    n = (0, 70, 0, 300, 1300)[int(round(ws[0] * 1000)) % 5]
    if n:
        x = np.linspace(0.5 * ws[0], 1.5 * ws[0], n)
        a = np.asarray(r.complex(x), complex)
        # constants don't depend on the wavelength and may come as a scalar
        a = np.broadcast_to(a, x.shape) if a.ndim == 0 else a
        require(a.shape == x.shape, f"{what}: {n} wavelengths give shape {a.shape}")
        for i in (0, 1, n // 3, n // 2, n - 2, n - 1):
            y = expect(m, float(x[i]))
            require(abs(a[i] - y) <= 1e-9 * (1 + abs(y)),
                    f"{what}: {a[i]} at {x[i]} nm in an array of {n}, expected {y}")


def check(case):
    m, form, ws = case["m"], case["form"], case["ws"]
    nodes = [x * 1000 for x in m["um"]]
    ws = list(ws) + [nodes[i % len(nodes)] for i in case["at"]]
    ws += [nodes[0] - 1e-6, nodes[-1] + 1e-6, nodes[0] / 2, nodes[-1] * 3]
    ws += [0.5 * (nodes[i] + nodes[i + 1]) for i in range(len(nodes) - 1)][:5]
    mk = dict(m)
    um, n, k = (np.array(m[x], float) for x in ("um", "n", "k"))
    keep = [x.copy() for x in (um, n, k)]
    kw = {"wavelength": case["w0"]}
    with tempfile.TemporaryDirectory() as d:
        name = ""
        if form == "tuple":
            r = RI((um, n, k), **kw)
        elif form == "list":
            r = RI([list(um), list(n), list(k)], **kw)
        elif form == "array":
            r = RI(np.array([um, n, k]), **kw)
        else:
            cols = 2 if form.endswith("2") else 3
            if cols == 2:
                mk["k"] = [0.0] * len(m["k"])
            stem = case["stem"]
            p = os.path.join(d, stem + case["ext"])
            with open(p, "w", encoding="utf8") as f:
                f.write("Wavelength(um),n,k\n" if cols == 3 else "wl,n\n")
                for row in zip(um, n, k):
                    f.write(",".join(case["fmt"] % x if case["fmt"] != "r" else repr(float(x))
                                     for x in row[:cols]) + "\n")
            # what the file says
            w_, n_, k_ = ref.read_table(p)
            mk["um"] = [x / 1000 for x in w_]
            mk["n"], mk["k"] = n_, k_
            arg = p if case["str"] else pathlib.Path(p)
            r = RI(arg, **kw)
            require(r.name == stem.split(".")[0],
                    f"name of {os.path.basename(p)}: {r.name!r}")
            r2 = RI(arg, name="given", **kw)
            require(r2.name == "given", f"given name became {r2.name!r}")
    if len(set(mk["um"])) < len(mk["um"]):
        return dict(nontrivial=False, labels=["repeated node"])
    probe(r, mk, ws, form)
    # default wavelength, and live change of it
    r3 = RI((um, n, k))
    e = expect(m, 658.0)
    require(abs(r3.complex(None) - e) < 1e-10 * abs(e) + 1e-12,
            f"without a wavelength: {r3.complex(None)}, {e} at 658 nm")
    c = build.cnum(complex(r), "complex(material)")
    e = expect(mk, case["w0"])
    require(abs(c - e) < 1e-10 * abs(e) + 1e-12,
            f"default wavelength {case['w0']}: {c} expected {e}")
    r.wavelength = ws[0]
    c, e = build.cnum(r.complex(None)), expect(mk, ws[0])
    require(abs(c - e) < 1e-10 * abs(e) + 1e-12,
            f"after wavelength={ws[0]}: {c} expected {e}")
    # the caller's arrays are untouched and not aliased
    for x, y in zip((um, n, k), keep):
        require(np.array_equal(x, y), "RI modified the caller's table")
    um *= 7
    n += 1
    k += 1
    probe(r, mk, ws[:3], f"{form} after the caller changed its arrays")
    # through a slab
    s = r(100.0, 5.0, 0.25)
    require(isinstance(s, SlabSE) and s.thick.value == 100.0
            and s.rough.value == 5.0 and s.vfsolv.value == 0.25,
            "material(thick, rough, vfsolv)")
    return dict(nontrivial=len(set(mk["n"])) > 1 or len(set(mk["k"])) > 1,
                labels=[form])


def check_const(case):
    n, k, ws = case["n"], case["k"], case["ws"]
    for arg in ([n, k], (n, k), np.array([n, k])):
        r = RI(arg, name="x")
        probe(r, {"t": "const", "n": n, "k": k}, ws, "constant")
        require(abs(complex(r) - complex(n, k)) < 1e-12, "complex(constant)")
        require(r.name == "x", "name")
    if n == int(n):
        r = RI([int(n), 0])
        require(abs(build.cnum(r.complex(500)) - n) < 1e-12, "integer constant")
    for bad in (None,):
        try:
            RI(bad)
        except Exception:
            pass
        else:
            raise Violation("RI(None) accepted")
    try:
        RI([1.0, 0.0, 3.0, 4.0])
    except TypeError:
        pass
    else:
        raise Violation("RI of four numbers accepted")
    return dict(nontrivial=True, labels=["const"])


def check_bundled(case):
    name, ws = case["name"], case["ws"]
    w, n, k = ref.bundled_table(name)
    require(name in refellips.dispersion.materials, f"{name} isn't listed")
    r = load_material(name)
    require(r.name == name, f"name of {name}: {r.name!r}")
    require(all(a <= b for a, b in zip(w, w[1:])), f"{name} isn't sorted")
    # a node that is listed twice has no single value
    i = [j % len(w) for j in case["at"] if w.count(w[j % len(w)]) == 1]
    probe(r, {"t": "bundled", "name": name},
          list(ws) + [w[j] for j in i] + [w[0], w[-1], 0.9 * w[0], 1.1 * w[-1]], name)
    for bad in (case["bad"], name.upper() + "_", ""):
        try:
            load_material(bad)
        except ValueError:
            pass
        else:
            raise Violation(f"load_material({bad!r}) accepted")
    return dict(nontrivial=True, labels=[name])


FORMS = ["tuple", "list", "array", "csv3", "csv2", "csv3"]


@st.composite
def strat(draw):
    m = draw(gen.table(0.15, 3.0))
    n = draw(st.integers(0, 22))
    if n > 8:  # denser tables
        w = sorted({round(0.2 + i * draw(gen.uni(0.01, 0.1, 3)), 4) for i in range(n)})
        m = {"t": "table", "um": w, "n": [draw(gen.uni(0.1, 5, 4)) for _ in w],
             "k": [draw(gen.uni(0, 6, 4)) for _ in w]}
    elif n == 0:
        m = dict(m, **{x: m[x][:1] for x in ("um", "n", "k")})
    if draw(st.integers(0, 3)) == 0:
        f = 10.0 ** -draw(st.integers(2, 9))
        m = dict(m, k=[x * f for x in m["k"]])
    return {
        "m": m, "form": draw(st.sampled_from(FORMS)),
        "ws": draw(st.lists(gen.uni(100, 3500, 3), min_size=1, max_size=5)),
        "at": draw(st.lists(st.integers(0, 30), max_size=3)),
        "w0": draw(gen.wavelengths),
        "stem": draw(st.sampled_from(["film", "my material", "a.b", "SiO2_1", "x"])),
        "ext": draw(st.sampled_from([".csv", ".CSV", ".txt", ""])),
        "fmt": draw(st.sampled_from(["r", "%.6f", "%.8e", "%.4g"])),
        "str": draw(st.booleans()),
    }


def strat_const():
    return st.builds(
        lambda n, k, ws: {"n": n, "k": k, "ws": ws},
        st.one_of(gen.uni(0.05, 5, 5), st.sampled_from([1.0, 2.0])),
        st.one_of(st.just(0.0), gen.uni(0, 8, 5), gen.logu(1e-9, 1)),
        st.lists(gen.wavelengths, min_size=1, max_size=4))


def strat_bundled():
    return st.builds(
        lambda n, ws, at, bad: {"name": n, "ws": ws, "at": at, "bad": bad},
        st.sampled_from(gen.MATERIALS),
        st.lists(gen.uni(150, 3000, 3), min_size=1, max_size=6),
        st.lists(st.integers(0, 10**4), max_size=4),
        st.sampled_from(["unobtainium", "silica.csv", "../silica", "Si", "Water"]))


SUBS = [Sub("table", strat, check, quick=1800),
        Sub("const", strat_const, check_const, quick=300),
        Sub("bundled", strat_bundled, check_bundled, quick=600)]
