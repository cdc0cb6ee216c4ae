"""C21: what a fit minimises: residuals, chi-squared, log-probabilities."""

import math

import numpy as np
from hypothesis import strategies as st
from refnx.analysis import GlobalObjective, Parameter

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation
from .c01 import reference, usable
from .c04 import fold

from refellips import DataSE, ObjectiveSE, ReflectModelSE, SlabSE, StructureSE
from refellips.objectiveSE import circular_distance

RULE = (
    "a generated stack, 1-3 datasets of 1-8 (spectra of up to 150) measured points (delta anywhere on the "
    "circle, masks, both delta conventions), offset, lnsigma, weights switched, user "
    "log-probability terms, priors, and parameter vectors (thickness, offset, lnsigma, roughness) that are set on the way; "
    "compared with a reference calculation from the layers; non-trivial if there are "
    "at least two unmasked points and at least one of: mask, reflected data, offset, "
    "lnsigma, weights, extra term, several datasets"
)
SCALE = 2
ASSUMPTIONS = [
    "points at which psi/delta are ill-conditioned (sin 2psi < 0.02, hardly any "
    "light reflected) or that lie within 1e-5 deg of the jump of delta are left out"
]


class PriorSlab(SlabSE):
    """A layer that carries knowledge of its own (as refnx components can)."""

    weight = 0.0

    def logp(self):
        return -self.weight * float(self.thick) ** 2


class Extra:
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.calls = []

    def __call__(self, model, data):
        self.calls.append((model, data))
        return (self.a * float(model.structure[1].thick)
                + self.b * float(np.sum(data.psi)))


def expected(s, q, off, flip):
    """psi, delta of the points of q."""
    psi, delta = [], []
    for rs, rp in reference(s, q):
        p, d = ref.psi_delta(rs, rp)
        psi.append(p)
        delta.append(d)
    psi, delta = np.array(psi), np.array(delta)
    if flip:
        delta = fold(delta)
    return psi, delta + off


def good(s, q):
    for (w, a), (rs, rp) in zip(q, reference(s, q)):
        ns = [x[1] for x in ref.layers_of(s, w)]
        if not usable(rs, rp, ns, a) or math.hypot(abs(rs), abs(rp)) < 1e-3:
            return False
        p, d = ref.psi_delta(rs, rp)
        if math.sin(math.radians(2 * p)) < 0.02 or min(d, 360 - d) < 1e-5:
            return False
    return True


def stats(case, s, ds, thick):
    """Reference (residuals, chisqr, logl) for a dataset spec."""
    rows = [r for r, m in zip(ds["rows"], ds["mask"]) if m]
    q = [r[:2] for r in rows]
    psi, delta = expected(s, q, case["off"], ds["flip"])
    pd = np.array([r[2] for r in rows])
    dd = np.array([r[3] for r in rows])
    if ds["flip"]:
        dd = fold(dd)
    res = np.r_[psi - pd, ref.circ(delta, dd)]
    chi = math.fsum(res**2)
    var = np.ones(len(res))
    if ds["lnsigma"] is not None:
        var = 1 + math.exp(2 * ds["lnsigma"]) * np.r_[psi, delta] ** 2
    t = res**2 / var
    if ds["weighted"] and ds["use_weights"]:
        t = t + np.log(2 * math.pi * var)
    ll = -0.5 * math.fsum(t)
    ll -= case["comp"] * thick**2
    if ds["extra"] is not None:
        ll += ds["extra"][0] * thick + ds["extra"][1] * math.fsum(pd)
    return res, chi, ll


def near(a, b, tol, what):
    a = np.asarray(a, float)
    if a.shape != np.shape(b) or not (np.abs(a - b) <= tol).all():
        raise Violation(f"{what} is {a!r}, expected {b!r}")


def check(case):
    s = case["s"]
    if any(not any(d["mask"]) for d in case["data"]):
        raise Reject("everything masked")
    d1 = case["thick"]
    s1 = build.spec_set(s, ["layers", 1, "d"], d1)
    for d in case["data"]:
        q = [r[:2] for r in d["rows"]]
        if not (good(s, q) and good(s1, q)):
            raise Reject("ill conditioned")
    stt = build.structure(s)
    lay = s["layers"][1]
    if case["comp"]:
        c = PriorSlab(lay["d"], build.material(lay["m"]), lay["r"],
                      vfsolv=lay["vf"])
        c.weight = case["comp"]
        stt[1] = c
    model = ReflectModelSE(stt, delta_offset=case["off"])
    objs, extras = [], []
    for d in case["data"]:
        cols = [np.array([r[i] for r in d["rows"]]) for i in range(4)]
        dat = DataSE(tuple(cols), reflect_delta=d["flip"])
        if not all(d["mask"]):
            dat.mask = np.array(d["mask"])
        dat.weighted = d["weighted"]
        if d["raw"] and not d["flip"] and all(d["mask"]):
            # measured columns instead of a dataset
            dat = tuple(cols)
        kw = {}
        ex = None
        if d["lnsigma"] is not None:
            kw["lnsigma"] = d["lnsigma"]
        if d["extra"] is not None:
            ex = Extra(*d["extra"])
            kw["logp_extra"] = ex
        o = ObjectiveSE(model, dat, use_weights=d["use_weights"], **kw)
        if type(dat) is tuple:
            o.data.weighted = d["weighted"]
        require(o.weighted == (d["weighted"] and d["use_weights"]),
                f"weighted is {o.weighted}")
        objs.append(o)
        extras.append(ex)
    p = stt[1].thick
    lo, hi = case["bounds"]
    p.setp(vary=True, bounds=(lo, hi))
    prior = -math.log(hi - lo)

    def verify(s, th, pvals, what):
        inside = lo <= th <= hi
        lp = prior if inside else -math.inf
        tot = []
        for k, (o, d) in enumerate(zip(objs, case["data"])):
            res, chi, ll = stats(case, s, d, th)
            tol = 1e-6 * (1 + len(res))
            w = f"{what}, dataset {k}"
            near(o.residuals(pvals), res, 2e-6, w + ": residuals")
            near(o.chisqr(pvals), chi, tol * 400, w + ": chisqr")
            sc = 1e-6 * (1 + abs(ll)) + tol * 400
            near(o.logl(pvals), ll, sc, w + ": logl")
            if extras[k] is not None:
                m, dt = extras[k].calls[-1]
                require(m is model and dt is o.data,
                        "logp_extra called with other objects")
            near(o.logp(pvals), lp, 1e-9, w + ": logp") if inside else require(
                o.logp(pvals) == -math.inf, w + ": logp outside the bounds")
            if extras[k] is not None:
                extras[k].calls.clear()
            post = o.logpost(pvals)
            if inside:
                near(post, ll + lp, sc, w + ": logpost")
            else:
                require(post == -math.inf, f"{w}: logpost {post} outside bounds")
            near(o.nll(pvals), -ll, sc, w + ": nll")
            require(abs(float(p.value) - th) <= 1e-9 * (1 + abs(th)),
                    f"{w}: thickness is {p.value}, {th} was asked for")
            tot.append((res, chi, ll, sc))
        if len({o.weighted for o in objs}) == 1 and len(objs) > 1:
            lam = case["lam"][:len(objs)]
            g = GlobalObjective(objs, lambdas=lam) if case["uselam"] else (
                GlobalObjective(objs))
            lam = lam if case["uselam"] else [1.0] * len(objs)
            exp = np.concatenate([t[0] * l for t, l in zip(tot, lam)])
            near(g.residuals(pvals), exp, 1e-5, what + ": global residuals")
            near(g.chisqr(pvals), math.fsum(exp**2), 1e-3 * len(exp) ,
                 what + ": global chisqr")
            near(g.logl(pvals), math.fsum(t[2] * l for t, l in zip(tot, lam)),
                 3 * sum(t[3] for t in tot), what + ": global logl")

    order = case["order"]
    verify(s, lay["d"], None, "as built")
    if order:
        verify(s1, d1, np.array([d1]), "pvals")
        verify(s1, d1, None, "afterwards")
    else:
        p.value = d1
        verify(s1, d1, None, "after a direct change")
        verify(s, lay["d"], [lay["d"]], "pvals")
    nvis = sum(sum(d["mask"]) for d in case["data"])
    labels = []
    for d in case["data"]:
        labels += [k for k, v in (("mask", not all(d["mask"])), ("flip", d["flip"]),
                                  ("lnsigma", d["lnsigma"] is not None),
                                  ("weights", d["weighted"]),
                                  ("extra", d["extra"] is not None)) if v]
    if case["off"]:
        labels.append("offset")
    if case["comp"]:
        labels.append("component logp")
    if len(objs) > 1:
        labels.append("global")
    return dict(nontrivial=nvis >= 2 and bool(labels), labels=sorted(set(labels)))


@st.composite
def strat(draw):
    s = draw(gen.structure(
        mat=st.one_of(gen.transparent, gen.cauchy, gen.const, gen.table()),
        nmin=1, nmax=3, front=gen.front_medium, back=st.one_of(
            gen.metal, gen.bundled, gen.const), d=gen.uni(1, 3000, 2),
        vf=draw(st.booleans())))
    s["dp"] = 1 / 3
    dl = st.one_of(gen.uni(0, 360, 3), st.sampled_from(
        [0.0, 360.0, 180.0, 359.5, 0.5, 181.0]))
    data = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 8))
        data.append({
            "rows": [[draw(gen.uni(300, 1500, 2)), draw(gen.uni(35, 82, 2)),
                      draw(gen.uni(0, 90, 3)), draw(dl)] for _ in range(n)],
            "mask": [draw(st.integers(0, 3)) > 0 for _ in range(n)]
            if draw(st.booleans()) else [True] * n,
            "flip": draw(st.booleans()),
            "raw": draw(st.integers(0, 3)) == 0,
            "lnsigma": draw(st.one_of(st.none(), gen.uni(-12, 1, 2))),
            "weighted": draw(st.booleans()),
            "use_weights": draw(st.booleans()),
            "extra": draw(st.one_of(st.none(), st.tuples(
                gen.uni(-2, 2, 3), gen.uni(-2, 2, 3)).map(list))),
        })
    return {
        "s": s, "data": data,
        "off": draw(st.one_of(st.just(0.0), gen.uni(-30, 30, 2),
                              gen.uni(-400, 800, 1))),
        "comp": draw(st.sampled_from([0.0, 0.0, 1e-4, 0.5])),
        "thick": draw(gen.uni(1, 3000, 2)),
        "bounds": draw(st.sampled_from([[0.0, 5000.0], [0.0, 5000.0],
                                        [500.0, 1700.5], [-10.0, 20.0]])),
        "lam": [draw(gen.uni(0.1, 3, 2)) for _ in range(3)],
        "uselam": draw(st.booleans()), "order": draw(st.booleans()),
    }


def check_vector(case):
    """Thickness, offset and lnsigma vary together, each with a prior; spectra."""
    s, d = case["s"], case["d"]
    rows = spectrum(d["rows"], case["n"])
    n = len(rows)
    bits = [(case["bits"] >> (i % 30)) & 1 == 1 for i in range(n)]
    if not case["masked"] or not any(bits):
        bits = [True] * n
    cols = [np.array([r[i] for r in rows]) for i in range(4)]
    dat = DataSE(tuple(cols), reflect_delta=d["flip"])
    if not all(bits):
        dat.mask = np.array(bits)
    dat.weighted = d["weighted"]
    stt = build.structure(s)
    model = ReflectModelSE(stt, delta_offset=case["off"])
    lns = d["lnsigma"]
    o = ObjectiveSE(model, dat, lnsigma=lns, use_weights=d["use_weights"])
    th = stt[1].thick
    cand = {"thick": (th, -1.0, 4e5), "off": (model.delta_offset, -500.0, 900.0),
            "ln": (o.lnsigma, -20.0, 5.0), "rough": (stt[1].rough, -1.0, 999.0)}
    vary = [k for k in case["vary"] if cand[k][0] is not None]
    for k in vary:
        cand[k][0].setp(vary=True, bounds=cand[k][1:])
    val = {"thick": s["layers"][1]["d"], "off": case["off"], "ln": lns}

    def verify(pvals, what):
        s1 = build.spec_set(s, ["layers", 1, "d"], val["thick"])
        q = [r[:2] for r, b in zip(rows, bits) if b]
        if not good(s1, q):
            raise Reject("ill conditioned")
        dd = dict(d, rows=rows, mask=bits, lnsigma=val["ln"], extra=None)
        res, chi, ll = stats(dict(case, off=val["off"], comp=0.0), s1, dd, val["thick"])
        sc = 1e-6 * (1 + abs(ll)) + 4e-4 * (1 + len(res))
        near(o.residuals(pvals), res, 2e-6, what + ": residuals")
        near(o.chisqr(pvals), chi, 4e-4 * (1 + len(res)), what + ": chisqr")
        near(o.logl(pvals), ll, sc, what + ": logl")
        near(o.nll(pvals), -ll, sc, what + ": nll")
        lp = -math.fsum(math.log(cand[k][2] - cand[k][1]) for k in vary)
        near(o.logp(pvals), lp, 1e-9, what + ": logp")
        near(o.logpost(pvals), lp + ll, sc, what + ": logpost")

    verify(None, "as built")
    new = {"thick": case["thick"], "off": case["off2"], "ln": case["ln2"],
           "rough": 3.0}
    by = {id(cand[k][0]): k for k in vary}
    vec = []
    var = list(o.varying_parameters())
    require(len(var) == len(vary) and {id(p) for p in var} == set(by),
            f"{len(var)} varying parameters, {vary} vary")
    for p in var:
        vec.append(new[by[id(p)]])
        val[by[id(p)]] = new[by[id(p)]]
    if vary:
        verify(np.array(vec), "pvals")
        verify(None, "afterwards")
        # one of them outside its bounds
        k = case["i"] % len(var)
        out = list(vec)
        out[k] = cand[by[id(var[k])]][2] + 1.0
        require(o.logp(out) == -math.inf and o.logpost(out) == -math.inf,
                f"log-probability with {by[id(var[k])]} outside its bounds")
        verify(vec, "and back")
    return dict(nontrivial=len(vary) >= 2 and len(rows) >= 2,
                labels=vary + (["spectrum"] if n > 20 else []))


def spectrum(rows, n):
    if n <= len(rows):
        return rows[:n]
    out = []
    for i in range(n):
        r = rows[i % len(rows)]
        out.append([round(300 + 1200.0 * i / n, 3), r[1], r[2],
                    round((r[3] + 1.3 * i) % 360, 3)])
    return out


@st.composite
def strat_vector(draw):
    c = draw(strat())
    d = c["data"][0]
    return {"s": c["s"], "d": d, "off": c["off"],
            "n": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8),
                                st.integers(20, 150))),
            "bits": draw(st.integers(0, 2**30 - 1)), "masked": draw(st.booleans()),
            "vary": draw(st.lists(st.sampled_from(["thick", "off", "ln", "rough"]),
                                  unique=True)),
            "thick": c["thick"], "off2": draw(gen.uni(-400, 800, 2)),
            "ln2": draw(gen.uni(-12, 1, 2)), "i": draw(st.integers(0, 9))}


def check_circ(case):
    a, b, per = case["a"], case["b"], case["period"]
    n = max(len(a), len(b))
    A = np.array(a) if case["form"] != "scalar" else a[0]
    B = np.array(b[:len(a)]) if case["form"] == "array" else b[0]
    if case["form"] == "array":
        A = np.array(a[:len(B)])
    g = circular_distance(A, B, period=per) if per != 360 or case["kw"] else (
        circular_distance(A, B))
    g2 = circular_distance(B, A, period=per)
    # exact: distance to the nearest multiple of the period
    from fractions import Fraction as F

    def dist(x, y):
        d = abs(F(x) - F(y)) % F(per)
        return float(min(d, F(per) - d))

    Ab, Bb = np.broadcast_arrays(A, B)
    e = np.array([dist(float(x), float(y)) for x, y in zip(Ab.ravel(), Bb.ravel())])
    e = e.reshape(np.shape(Ab))
    tol = 1e-9 * (1 + per + np.max(np.abs(a)) + np.max(np.abs(b)))
    for x in (g, g2):
        x = build.arr(x, np.shape(e), "circular distance")
        require((np.abs(x - e) <= tol).all(),
                f"circular distance of {A}, {B} is {x}, expected {e}")
        require((x >= 0).all() and (x <= per / 2 + tol).all(), f"{x} out of range")
    return dict(nontrivial=bool(np.any(np.abs(np.asarray(Ab) - Bb) > per / 2)),
                labels=[case["form"], f"period {per}"])


def strat_circ():
    ang = st.one_of(gen.uni(-1000, 1000, 4), gen.uni(0, 360, 3), st.sampled_from(
        [0.0, 180.0, 360.0, -180.0, 720.0, 359.9, 90.0, 270.0]))
    return st.builds(
        lambda a, b, p, f, k: {"a": a, "b": b, "period": p, "form": f, "kw": k},
        st.lists(ang, min_size=1, max_size=5), st.lists(ang, min_size=1, max_size=5),
        st.sampled_from([360, 360, 180, 2 * math.pi, 100.0]),
        st.sampled_from(["array", "scalar", "mixed"]), st.booleans())


SUBS = [Sub("objective", strat, check, quick=1000),
        Sub("vector", strat_vector, check_vector, quick=500),
        Sub("distance", strat_circ, check_circ, quick=1500)]
