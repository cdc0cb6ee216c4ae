"""C24: copies and pickles of an analysis give the same answers."""

import copy
import math
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from refnx._lib import flatten
from refnx.reflect import Linear, Tanh

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import DataSE, ObjectiveSE, ReflectModelSE, SlabSE

RULE = (
    "a generated stack (every kind of material, solvent, mixing rule, reversed, "
    "contract, names, shared parameter, constraint, vary/bounds, interface shape), in a model, with "
    "data (mask, reflected delta, in memory or from a file that changes later), in an objective (lnsigma, extra term); a chain of "
    "1-3 copies (pickle of any protocol, deepcopy, copy.copy) of the structure, the "
    "model, the objective, the data or a material; answers compared, then the copy "
    "is changed; non-trivial if the stack has at least 2 inner layers or a solvent"
)
ASSUMPTIONS = ["user-supplied callables are importable (documented)"]


def extra(model, data):
    return -0.25 * float(model.structure[-1].rough) - len(data)


def duplicate(x, how):
    if how == "deep":
        return copy.deepcopy(x)
    if how == "copy":
        return copy.copy(x)
    return pickle.loads(pickle.dumps(x, protocol=int(how)))


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
        # identical calculations: not more than rounding is tolerated
        if a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12,
                                              equal_nan=True):
            return
        raise Violation(f"{what} of the copy is {b!r}, the original's {a!r}")


def params(x):
    return list(flatten(x.parameters))


def cmp_params(a, b, what):
    pa, pb = params(a), params(b)
    require(len(pa) == len(pb), f"{what}: {len(pb)} parameters, had {len(pa)}")
    for p, r in zip(pa, pb):
        require(p.name == r.name and p.vary == r.vary and p.units == r.units,
                f"{what}: parameter {p!r} became {r!r}")
        same(p.value, r.value, f"{what}: parameter {p.name}")
        require((p.constraint is None) == (r.constraint is None),
                f"{what}: constraint of {p.name}")
        for v in (p.value, p.value + 5.0, -1e6):
            same(p.bounds.logp(v), r.bounds.logp(v), f"{what}: prior of {p.name}")
        same(p.stderr if p.stderr is not None else -1.0,
             r.stderr if r.stderr is not None else -1.0, f"{what}: stderr")
    # what is shared stays shared
    ia = [[x is p for x in pa].index(True) for p in pa]
    ib = [[x is p for x in pb].index(True) for p in pb]
    require(ia == ib, f"{what}: sharing of parameters {ib}, was {ia}")


def cmp_structure(a, b, ws, what):
    require(type(a) is type(b) and len(a) == len(b), f"{what}: layers lost")
    for f in ("name", "ema", "depolarisation_factor", "reverse_structure",
              "contract", "wavelength"):
        require(getattr(a, f) == getattr(b, f),
                f"{what}: {f} is {getattr(b, f)!r}, was {getattr(a, f)!r}")
    require((a.solvent is None) == (b.solvent is None), f"{what}: solvent lost")
    require([c.name for c in a] == [c.name for c in b], f"{what}: names")
    for w in ws:
        same(a.slabs(wavelength=w), b.slabs(wavelength=w), f"{what}: slabs at {w}")
    cmp_params(a, b, what)
    za, na = a.ri_profile()
    zb, nb = b.ri_profile()
    same(za, zb, f"{what}: ri_profile z")
    same(na, nb, f"{what}: ri_profile")


def cmp_model(a, b, q, ws, what):
    require(a.name == b.name, f"{what}: name")
    same(a(q), b(q), f"{what}: psi, delta")
    cmp_structure(a.structure, b.structure, ws, what)
    cmp_params(a, b, what)


def cmp_data(a, b, what):
    same(np.array(a.data), np.array(b.data), f"{what}: data")
    same(a.mask, b.mask, f"{what}: mask")
    require(a.name == b.name and len(a) == len(b), f"{what}: data name")
    require(a.metadata == b.metadata, f"{what}: metadata")
    require(a.weighted == b.weighted, f"{what}: weighted")
    require(a.filename == b.filename and a.delimiter == b.delimiter,
            f"{what}: file {b.filename!r}, was {a.filename!r}")


def cmp_objective(a, b, q, ws, what):
    require(a.name == b.name, f"{what}: objective name")
    cmp_data(a.data, b.data, what)
    for f in ("residuals", "chisqr", "logp"):
        same(getattr(a, f)(), getattr(b, f)(), f"{what}: {f}")

    def ll(o):
        try:
            return o.logl()
        except RuntimeError:
            return float("nan")

    same(ll(a), ll(b), f"{what}: logl")
    require(a.weighted == b.weighted and a.npoints == b.npoints, f"{what}: weights")
    cmp_model(a.model, b.model, q, ws, what)
    cmp_params(a, b, what)


def check(case):
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        return check_in(case, tmp)
    finally:
        shutil.rmtree(tmp)


def check_in(case, tmp):
    s = case["s"]
    q = np.array(case["q"], float)
    ws = case["ws"]
    stt = build.structure(s)
    stt.name = case["name"]
    for i, c in enumerate(stt):
        c.name = f"{case['name']} {i}"
    stt.contract = case["contract"]
    n = len(s["layers"])
    if n > 3 and case["share"]:
        if isinstance(stt[1], SlabSE) and isinstance(stt[2], SlabSE):
            stt[2] = SlabSE(stt[1].thick, stt[1].ri, stt[2].rough,
                            vfsolv=stt[2].vfsolv, name=stt[2].name)
    if n > 2 and case["shape"]:
        # the interface on top of the first layer
        stt[1].interfaces = {"linear": Linear, "tanh": Tanh}[case["shape"]]()
    if n > 3 and case["con"]:
        stt[1].rough.constraint = 2.0 * stt[2].rough + 1.0
    for k, p in enumerate(params(stt)):
        if case["vary"][k % len(case["vary"])] and p.constraint is None:
            p.setp(vary=True, bounds=(p.value - 10.0, p.value + 20.0))
            p.stderr = 0.5
    model = ReflectModelSE(stt, delta_offset=case["off"], name="the model")
    dat = DataSE((q[:, 0].copy(), q[:, 1].copy(), np.full(len(q), 30.0),
                  np.linspace(5, 355, len(q))), name="some data",
                 reflect_delta=case["flip"], operator="me")
    path = os.path.join(tmp, "points.txt")
    if case["file"]:
        with open(path, "w") as f:
            for r in zip(*dat.data):
                f.write(",".join(map(repr, map(float, r))) + "\n")
        dat = DataSE(path, name="some data", reflect_delta=case["flip"],
                     delimiter=",", operator="me")
    if case["mask"] and len(q) > 1:
        dat.mask = np.arange(len(q)) % 2 == 0
    dat.weighted = case["weighted"]
    kw = {}
    if case["lnsigma"]:
        kw["lnsigma"] = -3.0
    if case["extra"]:
        kw["logp_extra"] = extra
    obj = ObjectiveSE(model, dat, name="my objective", **kw)

    orig = {"structure": stt, "model": model, "objective": obj, "data": dat}
    what = case["what"]
    hows = list(case["hows"])
    x = orig[what]
    y = x
    for h in hows:
        y = duplicate(y, h)
        require(y is not x and type(y) is type(x), f"{h} of {what} gave {y!r}")
    txt = f"{what} after {'+'.join(hows)}"
    deep = any(h != "copy" for h in hows)
    if what == "structure":
        cmp_structure(x, y, ws, txt)
        sy = y
    elif what == "model":
        # a model on its own
        cmp_model(x, y, q, ws, txt)
        sy = y.structure
    elif what == "objective":
        cmp_objective(x, y, q, ws, txt)
        sy = y.model.structure
    else:
        cmp_data(x, y, txt)
        sy = None

    # a copy follows the file as the original does
    if case["file"] and what in ("data", "objective"):
        with open(path, "w") as f:
            f.write("500.0,60.0,20.0,300.0\n600.0,70.0,10.0,30.0\n")
        dy = y if what == "data" else y.data
        for d in (dat, dy):
            d.refresh()
            d.mask = None
        cmp_data(dat, dy, txt + " and refresh")
        require(len(dy) == 2, f"{txt}: refresh gave {len(dy)} points")

    # the copy lives on its own
    base = np.asarray(stt.slabs(wavelength=ws[0])).copy()
    base_all = [float(p.value) for p in params(obj)]
    base_data = np.array(dat.data)
    base_mask = np.array(dat.mask)
    set0 = (stt.ema, stt.reverse_structure, stt.solvent, stt.depolarisation_factor)
    if deep and sy is not None:
        th = sy[1].thick
        th.value = th.value + 12.5
        # constraints of a copy act in the copy
        if n > 3 and case["con"]:
            sy[2].rough.value = 7.0
            same(15.0, sy[1].rough.value, "constrained roughness")
        sy.reverse_structure = not sy.reverse_structure
        sy.ema = "linear" if sy.ema != "linear" else "bruggeman"
        sy.append(copy.deepcopy(sy[0]))
        if what == "objective":
            y.data.mask = np.arange(len(y.data.mask)) < 1
            y.data.data = (q[:, 0], q[:, 1], q[:, 0] * 0 + 1, q[:, 0] * 0 + 2)
    elif what == "structure":
        sy.reverse_structure = not sy.reverse_structure
        sy.ema = "linear" if sy.ema != "linear" else "bruggeman"
        sy.depolarisation_factor = 0.25
        sy.append(copy.deepcopy(sy[0]))
        sy.solvent = None
    elif what == "data":
        y.mask = np.arange(len(y.mask)) < 1
        if deep:
            y.data = (q[:, 0], q[:, 1], q[:, 0] * 0 + 1, q[:, 0] * 0 + 2)
    require(set0 == (stt.ema, stt.reverse_structure, stt.solvent,
                     stt.depolarisation_factor), f"{txt}: settings of the original")
    require(len(stt) == n, f"{txt}: original has {len(stt)} layers, had {n}")
    same(base, stt.slabs(wavelength=ws[0]), f"{txt}: original's slabs, copy changed")
    same(base_all, [float(p.value) for p in params(obj)],
         f"{txt}: original's parameters, copy changed")
    if deep or what != "objective":
        same(base_data, np.array(dat.data), f"{txt}: original's data, copy changed")
        same(base_mask, dat.mask, f"{txt}: original's mask, copy changed")

    # materials
    for la in s["layers"]:
        for key in ("m", "a", "b"):
            if key not in la:
                continue
            m = build.material(la[key], name="mat")
            c = m
            for h in hows:
                c = duplicate(c, h)
            require(type(c) is type(m) and c.name == m.name, f"material {txt}")
            for w in ws:
                same(complex(m.complex(w)), complex(c.complex(w)),
                     f"{la[key]['t']} after {hows} at {w}")
            require(c.dispersive == m.dispersive and c.wavelength == m.wavelength,
                    f"{la[key]['t']}: settings")
            cmp_params(m, c, f"{la[key]['t']} after {hows}")
    return dict(nontrivial=n > 3 or s["solvent"] is not None,
                labels=[what] + sorted(set(hows)) + (["shared"] if case["share"] else [])
                + [la["m"]["t"] for la in s["layers"] if "m" in la])


@st.composite
def strat(draw):
    s = draw(gen.structure(mat=st.one_of(gen.exact_material, gen.gauss), nmin=0,
                           nmax=3, vf=True, mixeds=True, rev=True, solvent=True,
                           d=gen.uni(0.5, 500, 2)))
    s["dp"] = draw(st.sampled_from([1 / 3, 0.5, 0.2]))
    return {
        "s": s, "q": draw(gen.queries(1, 4, wav=gen.uni(300, 1200, 2),
                                      ang=gen.uni(30, 80, 2))),
        "ws": draw(st.lists(gen.uni(250, 1500, 2), min_size=1, max_size=2)),
        "name": draw(st.sampled_from(["", "sample", "Å film"])),
        "contract": draw(st.sampled_from([0, 0, 1.0, 0.25, 3.7, -0.5])),
        "share": draw(st.booleans()), "con": draw(st.booleans()),
        "vary": draw(st.lists(st.booleans(), min_size=1, max_size=7)),
        "off": draw(st.sampled_from([0.0, 2.5, -7.0])),
        "flip": draw(st.booleans()), "mask": draw(st.booleans()),
        "weighted": draw(st.booleans()), "lnsigma": draw(st.booleans()),
        "extra": draw(st.booleans()), "file": draw(st.booleans()),
        "shape": draw(st.sampled_from([None] * 12 + ["linear", "tanh"])),
        "what": draw(st.sampled_from(["structure", "structure", "model", "objective",
                                      "objective", "data"])),
        "hows": draw(st.lists(st.sampled_from(
            ["deep", "copy", "0", "2", "4", "5"]), min_size=1, max_size=3)),
    }


SUBS = [Sub("copies", strat, check, quick=1400)]
