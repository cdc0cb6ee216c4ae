"""C22: parameters reach the model: setting, sharing, constraining, varying."""

import copy
import math

import numpy as np
from hypothesis import strategies as st
from refnx._lib import flatten
from refnx.analysis import PDF, Interval, Parameter
from scipy.stats import norm

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation
from . import c01

from refellips import DataSE, MixedSlabSE, ObjectiveSE, ReflectModelSE, SlabSE, StructureSE

RULE = (
    "a generated stack (layers, mixed layers, solvent; dispersive materials with "
    "fitting parameters, parameters shared between layers, constrained parameters) "
    "and a history of 2-8 parameter operations (vectors for the varying or all "
    "parameters through the objective or the model, direct changes, changes of what "
    "varies, constraints, bounds, another solvent or layer, vectors of a wrong length); after every one the model has "
    "to be that of a stack with those values; non-trivial if at least one vector was "
    "set that changed at least two values"
)
ASSUMPTIONS = ["values stay inside the physical range of the material models"]


def build_shared(case):
    """The structure, in which some layers share a parameter or material."""
    s = case["s"]
    comps = []
    for i, la in enumerate(s["layers"]):
        if la["t"] == "mixed":
            comps.append(build.component(la))
            continue
        thick, ri = la["d"], None
        j = case["share_d"].get(str(i))
        if j is not None and int(j) < i:
            thick = comps[int(j)].thick
        j = case["share_m"].get(str(i))
        if j is not None and int(j) < i and s["layers"][int(j)]["t"] == "slab":
            ri = comps[int(j)].ri
        comps.append(SlabSE(thick, ri if ri is not None else build.material(la["m"]),
                            la["r"], vfsolv=la["vf"], name=f"layer {i}"))
    return StructureSE(
        comps, solvent=build.material(s["solvent"]) if s["solvent"] else None,
        reverse_structure=s["rev"], ema=s["ema"], depolarisation_factor=s["dp"])


def new_value(path, orig, u):
    k = path[-1]
    if len(path) == 3 and path[0] == "layers":
        if k == "d":
            return round(2000 * u, 2)
        if k == "r":
            return round(30 * u, 2)
        return round(u, 4)  # volume fractions
    if path == ["offset"]:
        return round(40 * u - 20, 3)
    if path == ["lnsigma"]:
        return round(-10 + 8 * u, 3)
    return float(orig) * (0.85 + 0.3 * u)


class State:
    def __init__(self, case):
        self.case = case
        self.s = copy.deepcopy(case["s"])
        # make the spec agree with what is shared
        for i in range(len(self.s["layers"])):
            la = self.s["layers"][i]
            if la["t"] != "slab":
                continue
            j = case["share_d"].get(str(i))
            if j is not None and int(j) < i:
                la["d"] = self.s["layers"][int(j)]["d"]
            j = case["share_m"].get(str(i))
            if j is not None and int(j) < i and self.s["layers"][int(j)]["t"] == "slab":
                la["m"] = copy.deepcopy(self.s["layers"][int(j)]["m"])
        self.st = build_shared(dict(case, s=self.s))
        self.model = ReflectModelSE(self.st, delta_offset=case["off"])
        q = case["q"]
        self.q = q
        z = [0.0] * len(q)
        self.data = DataSE([[x[0] for x in q], [x[1] for x in q],
                            [30.0 + x for x in z], [100.0 + x for x in z]])
        kw = {}
        if case["lnsigma"] is not None:
            kw["lnsigma"] = Parameter(case["lnsigma"], name="lnsigma")
        self.obj = ObjectiveSE(self.model, self.data, **kw)
        self.own = {}
        self.orig = {}
        self.path = {}
        self.con = {}  # id -> (id, c, e)
        self.vary = {}
        self.find()

    def find(self):
        """(Re)read which parameters there are from the layers."""
        case = self.case
        self.handles = build.handles(self.s, self.st)
        self.handles.append((self.model.delta_offset, ["offset"]))
        if case["lnsigma"] is not None:
            self.handles.append((self.obj.lnsigma, ["lnsigma"]))
        old, self.own = self.own, {}
        oldvary, self.vary = self.vary, {}
        self.path = {}
        for p, path in self.handles:
            require(isinstance(p, Parameter), f"{path} isn't a Parameter: {p!r}")
            v = (case["off"] if path == ["offset"] else case["lnsigma"]
                 if path == ["lnsigma"] else build.spec_get(self.s, path))
            if id(p) in old:
                v = old[id(p)]
            else:
                require(abs(p.value - v) <= 1e-12 * (1 + abs(v)),
                        f"parameter {path} has value {p.value}, given {v}")
            self.own[id(p)] = float(v)
            self.orig.setdefault(id(p), float(v))
            self.path.setdefault(id(p), path)
            self.vary[id(p)] = oldvary.get(id(p), False)
        self.keep = [p for p, _ in self.handles] + getattr(self, "keep", [])

    def value(self, i):
        if i in self.con:
            j, c, e = self.con[i]
            return c * self.value(j) + e
        return self.own[i]

    def spec(self):
        s = copy.deepcopy(self.s)
        for p, path in self.handles:
            if len(path) > 1:
                t = s
                for x in path[:-1]:
                    t = t[x]
                t[path[-1]] = self.value(id(p))
        return s

    def params(self):
        """Flattened parameters of the objective; all and only ours."""
        flat = list(flatten(self.obj.parameters))
        ids = {id(p) for p in flat}
        ours = set(self.own)
        for p in flat:
            require(id(p) in ours, f"unexpected parameter {p!r}")
        for p, path in self.handles:
            require(id(p) in ids,
                    f"parameter {path} isn't part of objective.parameters")
        return flat

    def verify(self, what):
        s = self.spec()
        w = self.case["w"]
        for p, path in self.handles:
            v = self.value(id(p))
            require(abs(p.value - v) <= 1e-9 * (1 + abs(v)),
                    f"{what}: parameter {path} is {p.value}, expected {v}")
        t = build.arr(self.st.slabs(wavelength=w), (len(s["layers"]), 5), "slabs")
        e = np.array([[d, c.real, c.imag, r, v]
                      for d, c, r, v in ref.layers_of(s, w)])
        build.close(t, e, 1e-7, 1e-8, f"{what}: slabs at {w}")
        off = self.value(id(self.model.delta_offset))
        psi, delta = np.asarray(self.model(np.array(self.q, float)), float)
        for (wv, a), p, d, (rs, rp) in zip(self.q, psi, delta, c01.reference(s, self.q)):
            ns = [x[1] for x in ref.layers_of(s, wv)]
            if c01.usable(rs, rp, ns, a):
                d0 = d - off
                err = np.abs(ref.pd_vector(p, d0) - ref.poincare(rs, rp)).max()
                require(err <= 1e-7 / math.hypot(abs(rs), abs(rp)) + 1e-7,
                        f"{what}: psi, delta-offset = {p}, {d0} at {wv} nm {a} deg; "
                        f"expected {ref.psi_delta(rs, rp)}")
        var = [p for p in flatten(self.obj.varying_parameters())]
        ids = [id(p) for p in var]
        require(len(ids) == len(set(ids)), f"{what}: a varying parameter is repeated")
        exp = {i for i, v in self.vary.items() if v}
        require(set(ids) == exp,
                f"{what}: varying {[self.path.get(i) for i in ids]}, expected "
                f"{[self.path[i] for i in exp]}")


def check(case):
    S = State(case)
    S.params()
    S.verify("as built")
    changed = 0
    kinds = set()
    for o in case["ops"]:
        op, us = o["op"], o["u"]
        kinds.add(op)
        flat = S.params()
        uniq = list({id(p): p for p in flat}.values())

        def val(p, k):
            return new_value(S.path[id(p)], S.orig[id(p)], us[k % len(us)])

        if op == "vary":
            for k, p in enumerate(uniq):
                if id(p) in S.con:
                    continue
                b = bool((o["bits"] >> (k % 30)) & 1)
                p.vary = b
                S.vary[id(p)] = b
        elif op == "setp":
            var = list(S.obj.varying_parameters())
            vec = [val(p, k) for k, p in enumerate(var)]
            old = [S.own[id(p)] for p in var]
            arg = np.array(vec) if o["how"] % 2 else list(vec)
            keep = list(vec)
            h = o["how"] % 5
            f = (S.obj.setp, S.obj.residuals, S.obj.chisqr, S.obj.logl,
                 S.obj.logpost)[h]
            try:
                f(arg)
            except RuntimeError as e:
                if "NaN" not in str(e):  # no light is reflected
                    raise
            require([float(x) for x in arg] == keep, "the vector was modified")
            for p, v in zip(var, vec):
                S.own[id(p)] = v
            changed = max(changed, sum(a != b for a, b in zip(old, vec)))
        elif op in ("full", "model_p"):
            base = flat if op == "full" else list(flatten(S.model.parameters))
            byid = {}
            vec = []
            for p in base:
                if id(p) not in byid:
                    byid[id(p)] = val(p, len(byid))
                vec.append(byid[id(p)])
            old = dict(S.own)
            if op == "full":
                S.obj.setp(np.array(vec))
            else:
                S.model(np.array(S.q, float), p=vec)
            S.own.update(byid)
            changed = max(changed, sum(old[i] != v for i, v in byid.items()))
        elif op == "direct":
            p = uniq[o["bits"] % len(uniq)]
            v = val(p, 0)
            p.value = v
            S.own[id(p)] = v
        elif op == "constraint":
            L = [i for i, la in enumerate(S.s["layers"][1:-1], 1)]
            if len(L) < 2:
                continue
            a = S.st[L[o["bits"] % len(L)]].thick
            b = S.st[L[(o["bits"] // 7) % len(L)]].thick
            if a is b or id(a) in S.con or id(b) in S.con or any(
                    j == id(a) for j, _, _ in S.con.values()):
                continue
            c, e = round(us[0] + 0.1, 2), round(50 * us[1 % len(us)], 1)
            a.constraint = b * c + e
            S.con[id(a)] = (id(b), c, e)
            S.vary[id(a)] = False
        elif op == "free":
            for p, path in S.handles:
                if id(p) in S.con:
                    S.own[id(p)] = S.value(id(p))
                    p.constraint = None
                    p.value = S.own[id(p)]
                    del S.con[id(p)]
                    break
        elif op == "bounds":
            # limits don't restrict what can be set
            for k, p in enumerate(uniq):
                if (o["bits"] >> (k % 30)) & 1 and id(p) not in S.con:
                    v = S.value(id(p))
                    w = us[k % len(us)] * (0.01 + abs(v))
                    p.setp(vary=True, bounds=(v - w, v + 0.5 * w + 1e-3))
                    S.vary[id(p)] = True
        elif op == "solvent":
            # another solvent: none, a new material, or that of a layer
            slabs = [i for i, la in enumerate(S.s["layers"]) if la["t"] == "slab"]
            i = slabs[o["bits"] % len(slabs)]
            how = o["how"] % 4
            S.s = S.spec()
            if how == 0:
                S.st.solvent, S.s["solvent"] = None, None
            elif how == 1:
                m = {"t": "cauchy", "A": 1.3 + us[0] / 2, "B": 0.01 * us[-1], "C": 0.0}
                S.st.solvent, S.s["solvent"] = build.material(m), m
            else:
                S.st.solvent = S.st[i].ri
                S.s["solvent"] = copy.deepcopy(S.s["layers"][i]["m"])
            S.find()
        elif op == "replace":
            # another layer in the place of this one
            n = len(S.s["layers"])
            i = 1 + o["bits"] % (n - 2)
            if any(id(S.st[i].thick) in (k, c[0]) for k, c in S.con.items()):
                continue
            S.s = S.spec()
            j = (o["bits"] // 7) % n
            la = copy.deepcopy(S.s["layers"][j])
            la["d"] = round(1500 * us[0], 2)
            if la["t"] == "slab" and o["how"] % 2:
                c = SlabSE(la["d"], S.st[j].ri, la["r"], vfsolv=la["vf"])
            else:
                c = build.component(la)
            S.s["layers"][i] = la
            S.st[i] = c
            S.find()
        elif op == "wrong":
            n = len(list(S.obj.varying_parameters()))
            for k in (len(flat) + 1, len(flat) + 5):
                if k == n:
                    continue
                try:
                    S.obj.setp(np.ones(k))
                except ValueError:
                    pass
                else:
                    raise Violation(f"vector of {k} accepted for {n} varying of "
                                    f"{len(flat)} parameters")
            k = n + 1
            if k not in (n, len(flat)):
                try:
                    S.obj.setp(np.full(k, 0.5))
                except ValueError:
                    pass
                else:
                    raise Violation(f"vector of {k} accepted for {n} varying of "
                                    f"{len(flat)} parameters")
        S.verify(op)
    return dict(nontrivial=changed >= 2,
                labels=sorted(kinds) + (["shared"] if case["share_d"] or case["share_m"]
                                        else []))


def check_prior(case):
    """prior_transform maps the unit cube onto the priors, in the order of the
    varying parameters; logp is the density of those priors."""
    stt = build.structure(case["s"])
    model = ReflectModelSE(stt)
    obj = ObjectiveSE(model, DataSE([[600.0], [70.0], [30.0], [100.0]]))
    hs = build.handles(case["s"], stt)
    # without bounds of the user's own, a volume fraction stays one
    for p, path in hs:
        if len(path) == 3 and path[-1] in ("vf", "vfb"):
            for v in (-0.5, -0.001, 1.001, 1.7):
                require(p.bounds.logp(v) == -math.inf,
                        f"{p.name}: volume fraction {v} is allowed by default")
            require(abs(p.bounds.logp(case["u"][0])) < 1e-9,
                    f"{p.name}: default prior {p.bounds!r}")
    chosen = []
    for k, (p, path) in enumerate(hs):
        pr = case["priors"][k % len(case["priors"])]
        if pr["t"] == "none":
            continue
        lo = round(p.value - pr["w"] * pr["f"], 6)
        if pr["t"] == "uni":
            p.setp(vary=True, bounds=(lo, round(lo + pr["w"], 6)))
            chosen.append((p, "uni", lo, round(lo + pr["w"], 6)))
        elif pr["t"] == "interval":
            p.setp(vary=True, bounds=Interval(lo, round(lo + pr["w"], 6)))
            chosen.append((p, "uni", lo, round(lo + pr["w"], 6)))
        else:
            p.setp(vary=True, bounds=PDF(norm(lo, pr["w"])))
            chosen.append((p, "norm", lo, pr["w"]))
    by = {id(c[0]): c for c in chosen}
    var = list(obj.varying_parameters())
    require({id(p) for p in var} == set(by), "varying parameters")
    if not var:
        return dict(nontrivial=False, labels=["none"])
    before = np.array(obj.parameters, float)
    u = np.array([case["u"][k % len(case["u"])] for k in range(len(var))])
    x = build.arr(obj.prior_transform(u), (len(var),), "prior_transform")
    for k, p in enumerate(var):
        _, t, a, b = by[id(p)]
        e = a + u[k] * (b - a) if t == "uni" else float(norm(a, b).ppf(u[k]))
        require(abs(x[k] - e) <= 1e-9 * (1 + abs(e) + abs(b)),
                f"prior_transform of {p.name}: {x[k]}, expected {e}")
    require(np.array_equal(before, np.array(obj.parameters, float)),
            "prior_transform changed the parameters")

    def logp(vals):
        tot = 0.0
        for p, v in zip(var, vals):
            _, t, a, b = by[id(p)]
            if t == "uni":
                if not a <= v <= b:
                    return -math.inf
                tot += -math.log(b - a)
            else:
                tot += float(norm(a, b).logpdf(v))
        return tot

    for vals in (x, x + case["kick"] * np.array([by[id(p)][3] - (
            by[id(p)][2] if by[id(p)][1] == "uni" else 0) for p in var])):
        # values on the very edge depend on rounding
        g = float(obj.logp(vals))
        edge = any(by[id(p)][1] == "uni" and min(
            abs(v - by[id(p)][2]), abs(v - by[id(p)][3])) < 1e-9 * (1 + abs(v))
            for p, v in zip(var, vals))
        if edge:
            continue
        e = logp(vals)
        require(g == e if math.isinf(e) else abs(g - e) <= 1e-8 * (1 + abs(e)),
                f"logp is {g}, expected {e}")
        if math.isinf(e):
            require(obj.logpost(vals) == -math.inf, "logpost outside the prior")
    return dict(nontrivial=len(var) >= 2, labels=sorted({c[1] for c in chosen}))


par_material = st.one_of(gen.cauchy, gen.sellmeier, gen.lorentz, gen.user,
                         gen.transparent, gen.const)


@st.composite
def strat(draw):
    s = draw(gen.structure(mat=par_material, nmin=1, nmax=4, vf=True, mixeds=True,
                           rev=True, solvent=True, front=st.one_of(
                               gen.transparent, gen.cauchy),
                           d=st.one_of(gen.uni(1, 2000, 2), st.just(0.0))))
    s["dp"] = draw(st.one_of(st.just(1 / 3), gen.uni(0.05, 0.9, 4)))
    n = len(s["layers"])
    share_d, share_m = {}, {}
    for i in range(2, n - 1):
        if draw(st.integers(0, 3)) == 0:
            share_d[str(i)] = draw(st.integers(1, i - 1))
        if draw(st.integers(0, 3)) == 0:
            share_m[str(i)] = draw(st.integers(1, i - 1))
    ops = [
        {"op": draw(st.sampled_from(
            ["vary", "vary", "setp", "setp", "setp", "full", "model_p", "direct",
             "constraint", "free", "wrong", "bounds", "solvent", "replace"])),
         "bits": draw(st.integers(0, 2**30 - 1)),
         "how": draw(st.integers(0, 9)),
         "u": draw(st.lists(gen.uni(0, 1, 4), min_size=4, max_size=9))}
        for _ in range(draw(st.integers(2, 8)))
    ]
    if ops[0]["op"] != "vary":
        ops.insert(0, {"op": "vary", "bits": draw(st.integers(0, 2**30 - 1)),
                       "how": 0, "u": [0.5]})
    return {
        "s": s, "share_d": share_d, "share_m": share_m, "ops": ops,
        "off": draw(st.one_of(st.just(0.0), gen.uni(-20, 20, 2))),
        "lnsigma": draw(st.one_of(st.none(), gen.uni(-10, -2, 2))),
        "w": draw(gen.uni(400, 1200, 2)),
        "q": draw(gen.queries(1, 3, wav=gen.uni(400, 1200, 2), ang=gen.uni(30, 80, 2))),
    }


@st.composite
def strat_prior(draw):
    s = draw(gen.structure(mat=par_material, nmin=1, nmax=2, vf=True, solvent=True,
                           front=gen.transparent, ema=False))
    pr = st.one_of(
        st.just({"t": "none"}),
        st.builds(lambda t, w, f: {"t": t, "w": w, "f": f},
                  st.sampled_from(["uni", "interval", "norm"]), gen.logu(0.01, 500),
                  gen.uni(0, 1, 3)))
    return {"s": s, "priors": draw(st.lists(pr, min_size=1, max_size=7)),
            "u": draw(st.lists(st.one_of(
                gen.uni(0.001, 0.999, 5),
                st.sampled_from([1e-8, 1e-4, 0.5, 0.99999, 1 - 1e-8])), min_size=1,
                max_size=7)),
            "kick": draw(st.sampled_from([0.3, -0.4, 0.9, 1.5]))}


SUBS = [Sub("flow", strat, check, quick=700),
        Sub("prior", strat_prior, check_prior, quick=300)]
