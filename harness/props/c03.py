"""C03: every query point is answered on its own."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Reject, Sub, Violation
from .c01 import judge, usable

RULE = (
    "a generated dispersive stack and 2-40 query points (repeats, near-equal "
    "wavelengths, unsorted, several AOIs per wavelength), answered as one batch, "
    "one point at a time, permuted, as integers / lists / non-contiguous arrays "
    "and after a history of other queries; non-trivial if the batch has at least "
    "two distinct wavelengths"
)
ASSUMPTIONS = ["well-conditioned query points only (see C01)"]
TOL = 1e-8


def same(a, b, h, q, what):
    for j in range(len(q)):
        e = np.abs(
            ref.pd_vector(a[0][j], a[1][j]) - ref.pd_vector(b[0][j], b[1][j])
        ).max()
        if not e <= TOL / h[j]:
            raise Violation(
                f"{what}: at {list(q[j])} psi, delta = {a[0][j]}, {a[1][j]} but "
                f"on its own {b[0][j]}, {b[1][j]}"
            )


def check(case):
    s = case["s"]
    keep, h = [], []
    for w, a in case["q"]:
        la = ref.layers_of(s, w)
        ns = [x[1] for x in la]
        rs, rp = ref.stack_r(ns, [x[0] for x in la], a, 10 * w)
        if usable(rs, rp, ns, a):
            keep.append([w, a])
            h.append(math.hypot(abs(rs), abs(rp)))
    if len(keep) < 2:
        raise Reject("no usable points")
    q = keep
    # reference: a new model per point
    one = [build.call_model(build.model(s), [p]) for p in q]
    psi = [x[0][0] for x in one]
    delta = [x[1][0] for x in one]
    # each with the indices of its own wavelength
    if s["ema"] == "linear":
        for i, (w, a) in enumerate(q):
            la = ref.layers_of(s, w)
            rs, rp = ref.stack_r([x[1] for x in la], [x[0] for x in la], a, 10 * w)
            judge(psi[i], delta[i], rs, rp, w, a, tol=3e-8)
    m = build.model(s)
    same(build.call_model(m, q), (psi, delta), h, q, "batch")
    kind = case["kind"]
    if kind == "permute":
        rng = np.random.default_rng(case["seed"])
        p = rng.permutation(len(q))
        o = build.call_model(m, [q[i] for i in p])
        same(o, ([psi[i] for i in p], [delta[i] for i in p]),
             [h[i] for i in p], [q[i] for i in p], "permuted batch")
    elif kind == "history":
        rng = np.random.default_rng(case["seed"])
        for _ in range(4):
            i = int(rng.integers(len(q)))
            same(build.call_model(m, [q[i]]), ([psi[i]], [delta[i]]), [h[i]],
                 [q[i]], "query after other queries")
    elif kind == "setwavelength":
        # the structure's own wavelength is irrelevant for a model query
        m.structure.wavelength = case["w"]
        for la, c in zip(s["layers"], m.structure):
            if la["t"] == "slab" and la["m"]["t"] != "bundled":
                c.ri.wavelength = case["w"]
        same(build.call_model(m, q), (psi, delta), h, q, "structure.wavelength")
    elif kind == "list":
        o = m([list(x) for x in q])
        same((build.arr(o[0], (len(q),)), build.arr(o[1], (len(q),))),
             (psi, delta), h, q, "list query")
    elif kind == "strided":
        big = np.zeros((2 * len(q), 4))
        big[::2, 1:3] = q
        o = m(big[::2, 1:3])
        same((build.arr(o[0], (len(q),)), build.arr(o[1], (len(q),))),
             (psi, delta), h, q, "strided query")
    elif kind == "fortran":
        o = m.model(np.asfortranarray(np.array(q)))
        same((build.arr(o[0], (len(q),)), build.arr(o[1], (len(q),))),
             (psi, delta), h, q, "fortran query")
    return dict(nontrivial=len({w for w, _ in q}) > 1, labels=[kind])


def check_int(case):
    """integer wavelengths and angles give the same as floats"""
    s, q = case["s"], case["q"]
    for w, a in q:
        la = ref.layers_of(s, float(w))
        ns = [x[1] for x in la]
        rs, rp = ref.stack_r(ns, [x[0] for x in la], float(a), 10.0 * w)
        if not usable(rs, rp, ns, a):
            raise Reject("no usable points")
    f = build.call_model(build.model(s), np.array(q, float))
    o = build.model(s)(np.array(q, dtype=case["dtype"]))
    n = len(q)
    same((build.arr(o[0], (n,), "psi"), build.arr(o[1], (n,), "delta")),
         f, [1e-2] * n, q, "integer query")
    o = build.model(s)([[int(w), int(a)] for w, a in q])
    same((build.arr(o[0], (n,), "psi"), build.arr(o[1], (n,), "delta")),
         f, [1e-2] * n, q, "integer list query")
    return dict(nontrivial=True, labels=[case["dtype"]])


@st.composite
def strat(draw):
    s = draw(gen.structure(
        mat=st.one_of(gen.dispersive_material, gen.bundled, gen.const), nmax=4,
        vf=True, mixeds=True, rev=False, solvent=True))
    s["dp"] = max(0.02, min(0.95, s["dp"]))
    base = draw(st.lists(gen.wavelengths, min_size=1, max_size=5))
    eps = st.sampled_from([0.0, 0.0, 1e-9, 1e-6, 1e-3, 0.04, 0.4, 1.0])
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(9, 40)))
    aois = draw(st.lists(gen.uni(0, 89, 3), min_size=1, max_size=4))
    q = [
        [draw(st.sampled_from(base)) + draw(eps),
         draw(st.one_of(st.sampled_from(aois), gen.uni(0, 89, 3)))]
        for _ in range(n)
    ]
    return {"s": s, "q": q,
            "kind": draw(st.sampled_from(
                ["permute", "history", "setwavelength", "list", "strided",
                 "fortran"])),
            "seed": draw(st.integers(0, 10**6)),
            "w": draw(gen.wavelengths)}


def strat_int():
    return st.builds(
        lambda s, q, d: {"s": s, "q": q, "dtype": d},
        gen.structure(mat=gen.dispersive_material, nmax=3),
        st.lists(st.tuples(st.integers(250, 1500), st.integers(1, 85)).map(list),
                 min_size=1, max_size=6),
        st.sampled_from(["int64", "int32", "int16", "float32"]),
    )


def check_long(case):
    """Whole spectra: hundreds of points."""
    s = case["s"]
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    w = np.linspace(case["w0"], case["w1"], max(2, n // case["na"]))
    a = np.linspace(case["a0"], case["a0"] + 10, case["na"])
    q = np.array([[x, y] for y in a for x in w])
    if case["shuffle"]:
        q = q[rng.permutation(len(q))]
    m = build.model(s)
    with np.errstate(all="ignore"):
        psi, delta = [np.asarray(x) for x in m(q)]
    build.require(psi.shape == delta.shape == (len(q),), "shape of the answer")
    pick = sorted({0, len(q) - 1, *rng.integers(0, len(q), 6).tolist(),
                   *(i for i in (99, 100, 127, 128, 255, 256, 511, 512, 999, 1000)
                     if i < len(q))})
    used = 0
    for i in pick:
        wi, ai = float(q[i][0]), float(q[i][1])
        la = ref.layers_of(s, wi)
        ns = [x[1] for x in la]
        rs, rp = ref.stack_r(ns, [x[0] for x in la], ai, 10 * wi)
        if not usable(rs, rp, ns, ai):
            continue
        used += 1
        o = build.call_model(build.model(s), [[wi, ai]])
        same(([psi[i]], [delta[i]]), o, [math.hypot(abs(rs), abs(rp))], [q[i]],
             f"point {i} of {len(q)}")
    if not used:
        raise Reject("no usable points")
    return dict(nontrivial=len(q) > 100, labels=["shuffled" if case["shuffle"] else "spectrum",
                                                 "n>250" if len(q) > 250 else "n<=250"])


def strat_long():
    return st.builds(
        lambda s, n, na, w0, dw, a0, sh, seed: {
            "s": s, "n": n, "na": na, "w0": w0, "w1": w0 + dw, "a0": a0,
            "shuffle": sh, "seed": seed},
        gen.structure(mat=st.one_of(gen.cauchy, gen.lorentz, gen.table(), gen.bundled),
                      nmax=3, solvent=True, vf=True, ema=False),
        st.integers(60, 1200), st.integers(1, 4), gen.uni(250, 900, 1),
        gen.uni(50, 900, 1), gen.uni(30, 75, 2), st.booleans(),
        st.integers(0, 10**6))


SUBS = [Sub("spectrum", strat_long, check_long, quick=150),
        Sub("batch", strat, check, quick=1200),
        Sub("dtype", strat_int, check_int, quick=600)]
