"""C27: analyses don't disturb each other, nor the caller's data."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import (DataSE, MixedSlabSE, ObjectiveSE, ReflectModelSE, SlabSE,
                       StructureSE, load_material)
from refellips.reflect_modelSE import Delta_Psi_TMM
from refellips.structureSE import overall_ri

RULE = (
    "2-3 samples built from a common pool of materials and layers, 1-2 models per "
    "sample, 1-2 objectives per model with data of either delta convention; a history "
    "of 3-10 evaluations of any of them in any order (residuals, logl, model at other "
    "points, slabs, profiles, single materials at a given or at their own wavelength, plus writing into arrays handed in "
    "and out); every answer has to be the one a freshly built, unshared analysis "
    "gives; non-trivial if two objectives of different convention or two samples that "
    "share a layer are evaluated alternately"
)
ASSUMPTIONS = []


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-11,
                                            equal_nan=True)
    if not ok:
        raise Violation(f"{what}: {a!r}; a fresh analysis gives {b!r}")


class World:
    """Either everything shared (one world), or one part of it, fresh."""

    def __init__(self, case):
        self.case = case
        self.mats = {}
        self.layers = {}
        self.sts = {}
        self.models = {}
        self.objs = {}
        self.datas = {}
        self.cols = {}

    def mat(self, i):
        if i not in self.mats:
            self.mats[i] = build.material(self.case["mats"][i])
        return self.mats[i]

    def layer(self, i):
        if i not in self.layers:
            la = self.case["layers"][i]
            if la["t"] == "slab":
                c = SlabSE(la["d"], self.mat(la["m"]), la["r"], vfsolv=la["vf"])
            else:
                c = MixedSlabSE(la["d"], self.mat(la["m"]), self.mat(la["m2"]),
                                la["vf"], la["r"])
            self.layers[i] = c
        return self.layers[i]

    def st(self, i):
        if i not in self.sts:
            s = self.case["samples"][i]
            front, back = self.mat(s["front"]), self.mat(s["back"])
            comps = [SlabSE(0, front, 0)] + [self.layer(k) for k in s["layers"]] + [
                SlabSE(0, back, s["r"])]
            self.sts[i] = StructureSE(
                comps, solvent=None if s["solvent"] is None else self.mat(s["solvent"]),
                reverse_structure=s["rev"], ema=s["ema"])
        return self.sts[i]

    def model(self, i):
        if i not in self.models:
            m = self.case["models"][i]
            self.models[i] = ReflectModelSE(self.st(m["sample"]), delta_offset=m["off"])
        return self.models[i]

    def obj(self, i):
        if i not in self.objs:
            o = self.case["objs"][i]
            cols = [np.array([r[k] for r in o["rows"]]) for k in range(4)]
            keep = [c.copy() for c in cols]
            self.datas[i] = DataSE(tuple(cols), reflect_delta=o["flip"])
            require(all(np.array_equal(a, b) for a, b in zip(cols, keep)),
                    "DataSE changed the arrays that were handed in")
            self.cols[i] = cols
            self.objs[i] = ObjectiveSE(self.model(o["model"]), self.datas[i])
        return self.objs[i]


def ll(o):
    try:
        return o.logl()
    except RuntimeError:
        return np.nan


def evaluate(W, op):
    t, i = op["t"], op["i"]
    c = W.case
    if t in ("residuals", "chisqr", "logl", "plotdata"):
        o = W.obj(i % len(c["objs"]))
        if t == "residuals":
            return o.residuals()
        if t == "chisqr":
            return o.chisqr()
        if t == "logl":
            return ll(o)
        return np.array(o.data.data)
    if t == "model":
        # the convention of a model of its own isn't affected by its objectives
        # unless there is one: models with objectives are judged through these
        m = W.model(i % len(c["models"]))
        q = np.array(op["q"], float)
        keep = q.copy()
        r = np.array(m(q))
        require(np.array_equal(q, keep), "the model changed the query points")
        return r[0]
    st_ = W.st(i % len(c["samples"]))
    if t == "slabs":
        return st_.slabs(wavelength=op["w"])
    if t == "profile":
        st_.wavelength = op["w"]
        return np.array(st_.ri_profile())
    if t == "material":
        return complex(W.mat(i % len(c["mats"])).complex(op["w"]))
    if t == "default":
        # at the wavelength the material itself carries
        m = W.mat(i % len(c["mats"]))
        v = m.complex(None)
        return np.array([complex(np.ravel(v)[0]), m.wavelength])
    raise KeyError(t)


def check(case):
    W = World(case)
    # everything exists from the start, in the given order
    for i in case["order"]:
        W.obj(i % len(case["objs"]))
    for i in range(len(case["objs"])):
        W.obj(i)
    for i in range(len(case["models"])):
        W.model(i)
    for i in range(len(case["samples"])):
        W.st(i)
    n_layers = [len(W.st(i)) for i in range(len(case["samples"]))]
    prev = None
    alternated = False
    for op in case["ops"]:
        if op["t"] == "spoil":
            # what was handed in and what was handed out belongs to the caller
            k = op["i"] % len(case["objs"])
            for a in W.cols[k]:
                a += 1.0
            o = W.obj(k)
            for a in (o.residuals(), *o.data.data, o.data.psi, o.data.delta,
                      o.data.wavelength, o.model.structure.slabs(wavelength=600.0),
                      *o.model(np.array([[500.0, 60.0], [600.0, 65.0]]))):
                a = np.asarray(a)
                if a.ndim and a.flags.writeable:
                    a *= -2.0
                    a += 3.0
            continue
        got = evaluate(W, op)
        exp = evaluate(World(case), op)
        same(got, exp, f"{op['t']} {op['i']} of the shared world")
        if op["t"] in ("residuals", "chisqr", "logl"):
            o = case["objs"][op["i"] % len(case["objs"])]
            key = (o["flip"], case["models"][o["model"]]["sample"])
            if prev is not None and prev != key:
                alternated = True
            prev = key
    require(n_layers == [len(W.st(i)) for i in range(len(case["samples"]))],
            "layers were added or lost")
    for i, la in enumerate(case["layers"]):
        if i in W.layers:
            c = W.layers[i]
            require(float(c.thick) == la["d"] and float(c.rough) == la["r"],
                    "a parameter was changed by an evaluation")
    return dict(nontrivial=alternated, labels=sorted({o["t"] for o in case["ops"]}))


pool_mat = st.one_of(gen.transparent, gen.cauchy, gen.const, gen.table(), gen.bundled,
                     gen.lorentz, gen.user, gen.tauc(1))


@st.composite
def strat(draw):
    clear = st.one_of(gen.transparent, gen.cauchy)
    mats = [draw(clear)] + [draw(pool_mat) for _ in range(draw(st.integers(2, 4)))]
    nm = len(mats)
    mi = st.integers(0, nm - 1)
    layers = []
    for _ in range(draw(st.integers(2, 4))):
        t = draw(st.sampled_from(["slab", "slab", "mixed"]))
        layers.append({"t": t, "m": draw(mi), "m2": draw(mi),
                       "d": draw(gen.uni(1, 1500, 2)), "r": draw(gen.rough),
                       "vf": draw(st.one_of(st.just(0.0), gen.uni(0, 1, 3)))})
    samples = [
        {"front": 0, "back": draw(mi), "r": draw(gen.rough),
         "layers": draw(st.lists(st.integers(0, len(layers) - 1), min_size=1,
                                 max_size=4)),
         "solvent": draw(st.one_of(st.none(), mi)), "rev": False,
         "ema": draw(st.sampled_from(gen.EMAS))}
        for _ in range(draw(st.integers(2, 3)))]
    for s in samples:
        if draw(st.integers(0, 3)) == 0:
            s["rev"] = True
    models = [{"sample": draw(st.integers(0, len(samples) - 1)),
               "off": draw(st.sampled_from([0.0, 0.0, 3.5, -8.0]))}
              for _ in range(draw(st.integers(1, 3)))]
    objs = []
    for _ in range(draw(st.integers(2, 4))):
        n = draw(st.integers(1, 5))
        objs.append({
            "model": draw(st.integers(0, len(models) - 1)), "flip": draw(st.booleans()),
            "rows": [[draw(gen.uni(350, 1200, 2)), draw(gen.uni(30, 80, 2)),
                      draw(gen.uni(0, 90, 2)), draw(gen.uni(0, 360, 2))]
                     for _ in range(n)]})
    ops = [
        {"t": draw(st.sampled_from(["residuals", "residuals", "chisqr", "logl", "model",
                                    "slabs", "profile", "material", "default",
                                    "default", "spoil",
                                    "plotdata"])),
         "i": draw(st.integers(0, 11)), "w": draw(gen.uni(300, 1500, 2)),
         "q": draw(gen.queries(1, 3, wav=gen.uni(300, 1500, 2),
                               ang=gen.uni(20, 80, 2)))}
        for _ in range(draw(st.integers(3, 10)))]
    return {"mats": mats, "layers": layers, "samples": samples, "models": models,
            "objs": objs, "ops": ops,
            "order": draw(st.lists(st.integers(0, 3), max_size=4))}


def check_args(case):
    """Functions don't write into their arguments."""
    lay = np.array(case["layers"], float)
    aoi = np.array(case["aoi"], float)
    k1, k2 = lay.copy(), aoi.copy()
    a = Delta_Psi_TMM(aoi, lay, case["wav"], case["off"])
    require(np.array_equal(lay, k1) and np.array_equal(aoi, k2),
            "the optical calculation changed its arguments")
    b = Delta_Psi_TMM(aoi, lay, case["wav"], case["off"], reflect_delta=True)
    require(np.array_equal(lay, k1) and np.array_equal(aoi, k2),
            "the optical calculation changed its arguments (reflected delta)")
    c = Delta_Psi_TMM(aoi, lay, case["wav"], case["off"])
    same(np.array(c), np.array(a), "repeated call")
    A = lay[:, 1] + 1j * lay[:, 2]
    v = np.array(case["vf"][:1] * len(A))
    kA, kv = A.copy(), v.copy()
    for ema in gen.EMAS:
        overall_ri(A, A[0], vf_B=v, ema=ema)
        require(np.array_equal(A, kA) and np.array_equal(v, kv),
                f"{ema} mixing changed its arguments")
    # dispersion tables handed in
    um = np.sort(np.array(case["um"]))
    um = um + 1e-3 * np.arange(len(um))
    n, k = 1 + um, um * 0.1
    keep = [x.copy() for x in (um, n, k)]
    from refellips import RI

    tup = (um, n, k)
    r = RI(tup)
    v1 = complex(r.complex(case["wav"]))
    require(all(np.array_equal(x, y) for x, y in zip(keep, (um, n, k))),
            "RI changed the dispersion arrays handed in")
    r2 = RI(tup)
    same(complex(r2.complex(case["wav"])), v1, "a second RI from the same arrays")
    # bundled materials are handed out fresh
    name = case["name"]
    m1 = load_material(name)
    v1 = complex(m1.complex(case["wav"]))
    m1.wavelength = 321.0
    m1.name = "changed"
    m2 = load_material(name)
    require(m2 is not m1 and m2.name != "changed", "materials are shared")
    same(complex(m2.complex(case["wav"])), v1, "material loaded twice")
    return dict(nontrivial=len(lay) > 2, labels=[name])


@st.composite
def strat_args(draw):
    row = st.builds(lambda d, m: [d, m["n"], m["k"], 0.0], gen.thick,
                    st.one_of(gen.const, gen.metal, gen.transparent))
    return {"layers": draw(st.lists(row, min_size=2, max_size=6)),
            "aoi": draw(st.lists(gen.uni(1, 85, 2), min_size=1, max_size=4)),
            "wav": draw(gen.uni(300, 1500, 1)),
            "off": draw(st.sampled_from([0.0, 4.0])),
            "vf": [draw(gen.uni(0, 1, 3))],
            "um": draw(st.lists(gen.uni(0.2, 2, 3), min_size=2, max_size=6)),
            "name": draw(st.sampled_from(gen.MATERIALS))}


SUBS = [Sub("shared", strat, check, quick=1000),
        Sub("arguments", strat_args, check_args, quick=600)]
