"""C20: reading HORIBA .spe files."""

import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen
from ..build import require
from ..core import Sub, Violation

from refellips import DataSE
from refellips.dataSE import open_HORIBAfile

RULE = (
    "a generated .spe file: metadata sections (empty, one line, several lines) in any "
    "order around a data table of 1-40 points (wavelengths rising, falling, repeated or in any order) with columns in any order, read by "
    "str/Path/handle, with and without wavelength limits and reflection; non-trivial "
    "if there are at least 2 points and 2 other sections"
)
ASSUMPTIONS = ["every section but a final data table is ended by a blank line",
               "the file is ASCII/UTF-8; angle of incidence written as dd.dd"]


def check(case):
    cols = list(case["cols"])
    rows = []
    for r in case["rows"]:
        v = dict(nm="%.3f" % r[0], Psi="%.4f" % r[2], Delta="%.4f" % r[3],
                 Chi2="0.01", Is="0.5", Ic="-0.25", eV="2.0")
        rows.append(v)
    table = [" ".join(cols)] + [" ".join(v[c] for c in cols) for v in rows]
    secs = [(k, list(v)) for k, v in case["secs"]]
    names = [k for k, _ in secs]
    secs.insert(case["ia"] % (len(secs) + 1),
                ("INCIDENCE ANGLE", ["%.2f%s" % (case["aoi"], case["unit"])]))
    secs.insert(case["da"] % (len(secs) + 1), ("DATA", table))
    lines = list(case["lead"])
    for i, (k, v) in enumerate(secs):
        lines += [f"# {k}:"] + v + [""] * (1 + case["gap"] * (i % 2))
    ended = case["last"] or secs[-1][0] != "DATA"
    if not ended:
        while lines and not lines[-1]:
            lines.pop()
    tmp = tempfile.mkdtemp(prefix="c20-")
    lo, hi = case["lo"], case["hi"]
    kw = {}
    if lo is not None or hi is not None:
        kw["lambda_cutoffs"] = [-np.inf if lo is None else lo,
                                np.inf if hi is None else hi]
    if case["flip"]:
        kw["reflect_delta"] = True
    try:
        p = os.path.join(tmp, case["name"] + ".spe")
        with open(p, "w", newline="") as f:
            f.write(case["eol"].join(lines) + case["eol"])
        if case["how"] == "handle":
            with open(p) as f:
                d = open_HORIBAfile(f, **kw)
        else:
            d = open_HORIBAfile(pathlib.Path(p) if case["how"] == "path" else p, **kw)
    finally:
        shutil.rmtree(tmp)
    require(isinstance(d, DataSE), f"{type(d)}")
    keep = [v for v in rows
            if (lo is None or float(v["nm"]) > lo) and (hi is None or float(v["nm"]) < hi)]
    n = len(keep)
    w = build.arr(d.wavelength, (n,), "wavelength")
    a = build.arr(d.aoi, (n,), "aoi")
    psi = build.arr(d.psi, (n,), "psi")
    dl = build.arr(d.delta, (n,), "delta")
    require(np.allclose(w, [float(v["nm"]) for v in keep], rtol=1e-12),
            f"wavelengths {w.tolist()}")
    require(np.allclose(a, float("%.2f" % case["aoi"]), rtol=1e-12),
            f"aoi {a.tolist()}, the file has {case['aoi']}")
    require(np.allclose(psi, [float(v["Psi"]) for v in keep], rtol=1e-12, atol=1e-12),
            f"psi {psi.tolist()}")
    ed = [float(v["Delta"]) for v in keep]
    if case["flip"]:
        ed = [360 - x if x > 180 else x for x in ed]
    require(np.allclose(dl, ed, rtol=1e-12, atol=1e-12),
            f"delta {dl.tolist()}, expected {ed}")
    require(str(d.name) == p[:-4], f"name {d.name!r} of {p}")
    for k, v in secs if ended else secs[:-1]:
        e = None if not v else (v[0] if len(v) == 1 else v)
        require(d.metadata.get(k, "missing") == e,
                f"metadata {k!r}: {d.metadata.get(k, 'missing')!r}, the file has {e!r}")
    return dict(nontrivial=len(rows) >= 2 and len(names) >= 2,
                labels=[case["how"], "cut" if n < len(rows) else "all points"])


LINES = ["Sample A", "25.0", "Xe lamp", "1 2 3 4", "key=value", "#5 wafer", "2020-01-01"]
LABELS = ["EXPERIMENT", "SAMPLE NAME", "DATE AND TIME", "COMMENT", "SPOT SIZE",
          "INTEGRATION TIME", "OPERATOR"]


@st.composite
def strat(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))
    w0, dw = draw(gen.uni(190, 800, 3)), draw(gen.uni(0.5, 12, 3))
    rows = [[w0 + dw * i, 0, draw(gen.uni(0, 90, 4)), draw(st.one_of(
        gen.uni(0, 360, 4), st.sampled_from([0.0, 180.0, 360.0, 270.0])))]
        for i in range(n)]
    order = draw(st.sampled_from(["up", "up", "down", "repeat", "any"]))
    if order == "down":
        rows.reverse()
    elif order == "repeat":
        for i in range(1, n, 2):
            rows[i][0] = rows[i - 1][0]
    elif order == "any":
        rows = draw(st.permutations(rows))
    labels = draw(st.lists(st.sampled_from(LABELS), max_size=6, unique=True))
    secs = [[k, draw(st.lists(st.sampled_from(LINES), max_size=3))] for k in labels]
    extra = draw(st.lists(st.sampled_from(["Chi2", "Is", "Ic", "eV"]), max_size=3,
                          unique=True))
    cols = draw(st.permutations(["nm", "Psi", "Delta"] + extra))
    cut = st.one_of(st.none(), st.none(), gen.uni(190, 1000, 3),
                    st.integers(0, n - 1).map(lambda i: float("%.3f" % rows[i][0])))
    return {
        "rows": rows, "secs": secs, "cols": cols, "lo": draw(cut), "hi": draw(cut),
        "flip": draw(st.booleans()), "ia": draw(st.integers(0, 9)),
        "da": draw(st.integers(0, 9)), "gap": draw(st.integers(0, 1)),
        "lead": draw(st.sampled_from([[], ["SPE file"], ["", "x y"]])),
        "last": draw(st.booleans()), "eol": draw(st.sampled_from(["\n", "\r\n"])),
        "how": draw(st.sampled_from(["str", "path", "handle"])),
        "aoi": draw(gen.uni(40, 85, 2)), "unit": draw(st.sampled_from(["", " deg"])),
        "name": draw(st.sampled_from(["film", "my film.v2", "a"])),
    }


SUBS = [Sub("file", strat, check, quick=1000)]
