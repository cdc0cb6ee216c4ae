"""C15: a DataSE hands out exactly the points it was given, minus masked ones."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import build, gen
from ..build import require
from ..core import Sub, Violation

from refellips import DataSE

RULE = (
    "a dataset of 0-400 points (repeated and unsorted wavelengths, delta at and "
    "around 0/180/360) and a history of 1-8 operations (set/clear masks of every "
    "form, replace data, copy, pickle, wrap in a new dataset, hand the points of one to another, change the arrays "
    "that were handed in) compared with a list model after every step; "
    "non-trivial if at least one point is masked and one is not at some moment"
)
ASSUMPTIONS = ["columns are one dimensional and of equal length"]

FIELDS = ("wavelength", "aoi", "psi", "delta")


def refl(d):
    return 360 - d if d > 180 else d


class Model:
    def __init__(self, rows, flipped):
        self.flipped = flipped
        self.set(rows)

    def set(self, rows):
        self.rows = [list(r[:3]) + [refl(r[3]) if self.flipped else r[3]]
                     for r in rows]
        self.mask = [True] * len(rows)

    def visible(self):
        return [r for r, m in zip(self.rows, self.mask) if m]


def verify(d, m, what):
    vis = m.visible()
    n = len(vis)
    require(len(d) == n, f"{what}: len is {len(d)}, {n} points are unmasked")
    cols = [[r[i] for r in vis] for i in range(4)]
    tup = d.data
    require(len(tup) == 4, f"{what}: data has {len(tup)} columns")
    for i, f in enumerate(FIELDS):
        for got, w in ((getattr(d, f), f), (tup[i], f"data[{i}]")):
            a = build.arr(got, (n,), f"{what}: {w}")
            require(a.tolist() == cols[i],
                    f"{what}: {w} is {a.tolist()}, expected {cols[i]}")
    mk = np.asarray(d.mask)
    require(mk.shape == (len(m.rows),) and mk.astype(bool).tolist() == m.mask,
            f"{what}: mask is {d.mask!r}, expected {m.mask}")
    # grouped by wavelength: a partition of the visible points
    groups = list(d.unique_wavelength_data())
    exp = sorted({r[0] for r in vis})
    require([float(g[0]) for g in groups] == exp,
            f"{what}: groups at {[g[0] for g in groups]}, expected {exp}")
    for g in groups:
        sel = [r for r in vis if r[0] == float(g[0])]
        for i in (1, 2, 3):
            a = build.arr(g[i], (len(sel),), f"{what}: group {g[0]}")
            require(a.tolist() == [r[i] for r in sel],
                    f"{what}: group at {g[0]} has {FIELDS[i]} {a.tolist()}")
    require(f"{n} points" in str(d), f"{what}: str is {d!s}")
    repr(d)


def containers(rows, how):
    cols = [np.array([r[i] for r in rows], float) for i in range(4)]
    if how == 0:
        return tuple(cols)
    if how == 1:
        return [c.tolist() for c in cols]
    if how == 2:
        return np.array(cols).reshape(4, len(rows))
    if how == 3:
        return list(cols)
    # column views of an (N, 4) table
    return tuple(np.array(rows, float).reshape(len(rows), 4).T)


def spoil(data):
    """Change arrays that were handed in: datasets mustn't follow."""
    for c in data:
        if isinstance(c, np.ndarray):
            c *= -3.0
        else:
            c[:] = [-1.0] * len(c)


def unchanged(data, rows):
    return all(
        [float(x) for x in data[i]] == [float(r[i]) for r in rows] for i in range(4))


def mask_arg(bits, form):
    if form == "list":
        return [bool(b) for b in bits]
    if form == "int":
        return np.array([int(b) for b in bits])
    if form == "float":
        return np.array([2.5 * b for b in bits])
    if form == "tuple":
        return tuple(bool(b) for b in bits)
    return np.array(bits, bool)


def check(case):
    rows, flip = case["rows"], case["flip"]
    data = containers(rows, case["how"])
    kw = {}
    m = Model(rows, flip)
    if case["mask0"] is not None and rows:
        bits = [(i * 7 + case["mask0"]) % 3 != 0 for i in range(len(rows))]
        kw["mask"] = mask_arg(bits, "bool")
        m.mask = bits
    if case["meta"]:
        kw["temperature"] = 25.0
    d = DataSE(data, name="abc", reflect_delta=flip, **kw)
    require(unchanged(data, rows), "DataSE changed the caller's arrays")
    spoil(data)
    verify(d, m, "new")
    require(d.name == "abc", f"name {d.name!r}")
    require(not case["meta"] or d.metadata.get("temperature") == 25.0,
            "metadata keyword lost")
    partial = 0 < sum(m.mask) < len(m.mask)
    others = []
    for o in case["ops"]:
        op = o["op"]
        n = len(m.rows)
        before = list(m.mask)
        if op == "mask":
            bits = [(o["bits"] >> (i % 30)) & 1 == 1 for i in range(n)]
            a = mask_arg(bits, o["form"])
            d.mask = a
            if isinstance(a, np.ndarray):
                a[:] = 0
            m.mask = bits
        elif op == "scalar":
            d.mask = bool(o["bits"] & 1)
            m.mask = [bool(o["bits"] & 1)] * n
        elif op == "clear":
            d.mask = None
            m.mask = [True] * n
        elif op == "bad":
            if n:
                keep = np.array(d.mask)
                try:
                    d.mask = [True] * (n + 1 if n != 0 else 2)
                except Exception:
                    pass
                else:
                    raise Violation(f"mask of {n + 1} for {n} points accepted")
                require(np.array_equal(keep, d.mask), "failed mask left a trace")
        elif op == "set":
            new = containers(o["rows"], o["how"])
            d.data = new
            require(unchanged(new, o["rows"]), "data= changed the caller's arrays")
            spoil(new)
            m.set(o["rows"])
        elif op == "wrap":
            # a dataset made of a dataset: same points, mask, name, metadata
            others.append((d, copy.deepcopy(m)))
            kw = {}
            if o["how"] == 1:
                kw["reflect_delta"] = True
                if not m.flipped:
                    mask = m.mask
                    m.flipped = True
                    m.set(m.rows)
                    m.mask = mask
            elif o["how"] == 2 and n:
                bits = [(o["bits"] >> (i % 30)) & 1 == 1 for i in range(n)]
                kw["mask"] = mask_arg(bits, o["form"])
                m.mask = bits
            d = DataSE(d, **kw)
            require(d.name == "abc", f"wrapped dataset is called {d.name!r}")
            require(not case["meta"] or d.metadata.get("temperature") == 25.0,
                    "metadata of a wrapped dataset")
        elif op == "handover":
            # points of another dataset
            e = DataSE(containers(o["rows"], o["how"]), reflect_delta=case["flip"])
            me = Model(o["rows"], case["flip"])
            d.data = e.data
            m.set(me.rows)
            others.append((e, me))
        elif op == "copy":
            others.append((d, copy.deepcopy(m)))
            d = copy.deepcopy(d)
        elif op == "pickle":
            others.append((d, copy.deepcopy(m)))
            d = pickle.loads(pickle.dumps(d))
        elif op == "poke" and n:
            # a mask that is written to belongs to this dataset only (whether
            # the dataset follows is its own business)
            try:
                d.mask[o["bits"] % n] = False
            except ValueError:
                pass
            m.mask = np.array(d.mask, bool).tolist()
            require(sum(a != b for a, b in zip(m.mask, before)) <= 1,
                    "writing to one value of the mask changed others")
        elif op == "look":
            # arrays that were handed out are the caller's
            for f in FIELDS:
                a = getattr(d, f)
                a[:] = -7.0
            for a in d.data:
                a[:] = -8.0
            for g in d.unique_wavelength_data():
                for a in g[1:]:
                    a[:] = -9.0
        verify(d, m, op)
        partial |= 0 < sum(m.mask) < len(m.mask)
    for i, (x, mm) in enumerate(others):
        verify(x, mm, f"original of copy {i}")
    return dict(nontrivial=partial,
                labels=sorted({o["op"] for o in case["ops"]}) +
                ["reflected" if flip else "as measured"])


deltas = st.one_of(gen.uni(0, 360, 3), gen.uni(0, 360, 3),
                   st.sampled_from([0.0, 180.0, 360.0, 179.999, 180.001, 359.5]))
row = st.tuples(st.one_of(gen.uni(200, 2000, 2), st.sampled_from([500.0, 600.0, 658.0]),
                          st.sampled_from([500.0004, 500.0000001, 600.01, 599.9999])),
                st.one_of(gen.uni(40, 80, 1), st.sampled_from([65.0, 70.0])),
                gen.uni(0, 90, 3), deltas).map(list)


def spread(few, n):
    out = []
    for i in range(n):
        r = few[i % len(few)]
        out.append([round(r[0] + 0.5 * i, 3), r[1], r[2],
                    round((r[3] + 1.7 * i) % 360, 3)])
    return out


def rows(lo=0, hi=12):
    return st.one_of(st.lists(row, min_size=lo, max_size=hi),
                     st.lists(row, min_size=lo, max_size=hi),
                     st.lists(row, min_size=max(lo, 1), max_size=40),
                     # a spectrum: few drawn points, many rows
                     st.builds(spread, st.lists(row, min_size=1, max_size=4),
                               st.integers(30, 400)))


OPS = ["mask", "mask", "mask", "scalar", "clear", "bad", "set", "handover", "wrap", "wrap", "copy",
       "pickle", "look", "poke"]


@st.composite
def strat(draw):
    return {
        "rows": draw(rows()), "how": draw(st.integers(0, 4)),
        "flip": draw(st.booleans()), "meta": draw(st.booleans()),
        "mask0": draw(st.one_of(st.none(), st.integers(0, 2))),
        "ops": [
            {"op": draw(st.sampled_from(OPS)), "bits": draw(st.integers(0, 2**30 - 1)),
             "form": draw(st.sampled_from(["bool", "list", "int", "float", "tuple"])),
             "rows": draw(rows(0, 6)), "how": draw(st.integers(0, 4))}
            for _ in range(draw(st.integers(1, 8)))
        ],
    }


SUBS = [Sub("history", strat, check, quick=1800)]
