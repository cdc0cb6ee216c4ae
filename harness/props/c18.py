"""C18: reading Woollam M2000 (CompleteEASE) files."""

import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen
from ..build import require
from ..core import Sub, Violation

from refellips import DataSE
from refellips.dataSE import open_M2000file

RULE = (
    "a generated static or dynamic CompleteEASE export (1-40 points, 1-8 times, one "
    "or several angles), any header, line ends, with or without final newline, read "
    "by str/Path/handle with any decimation of points and times; non-trivial if "
    "there are at least 2 points, and for dynamic files at least 2 times"
)
ASSUMPTIONS = [
    "times of a dynamic file differ by at least 0.2 s (closer ones share a key that "
    "is rounded to 0.1 s: known finding)",
]


def write(tmp, name, lines, case):
    p = os.path.join(tmp, name)
    eol = case["eol"]
    with open(p, "w", newline="") as f:
        f.write(eol.join(lines) + (eol if case["last"] else ""))
    return p


def read(p, how, **kw):
    if how == "handle":
        with open(p) as f:
            return open_M2000file(f, **kw)
    return open_M2000file(pathlib.Path(p) if how == "path" else p, **kw)


def head(case):
    return "VASEmethod[" + ", ".join(f"{k}={v}" for k, v in case["meta"]) + "]"


def judge(d, pts, case, what):
    require(isinstance(d, DataSE), f"{what}: {type(d)}")
    n = len(pts)
    for i, f in enumerate(("wavelength", "aoi", "psi", "delta")):
        a = build.arr(getattr(d, f), (n,), f"{what}: {f}")
        e = [float(x[i]) for x in pts]
        require(np.allclose(a, e, rtol=1e-12, atol=1e-12),
                f"{what}: {f} is {a.tolist()}, the file has {e}")
    for k, v in case["meta"]:
        require(str(d.metadata.get(k)) == v,
                f"{what}: metadata {k} is {d.metadata.get(k)!r}, not {v!r}")


def fmt(r):
    return ["%.3f" % r[0], "%.3f" % r[1], "%.4f" % r[2], "%.4f" % r[3]]


def check_static(case):
    rows = [fmt(r) for r in case["rows"]]
    lines = ["", head(case), "nm"]
    for i, r in enumerate(rows):
        lines.append("\t".join(r + ["%.4f" % (0.01 + i * 1e-3), "0.0318", ""]))
        lines.append(f"dPolE\t{r[0]}\t0.000\t-5.2834\t1.0000")
        lines.append(f"uR\t{r[0]}\t0.000\t0.6504\t1.0000")
    tmp = tempfile.mkdtemp(prefix="c18-")
    try:
        p = write(tmp, case["name"], lines, case)
        kw = {}
        if case["drop"] > 1 or case["explicit"]:
            kw["dropdatapoints"] = case["drop"]
        d = read(p, case["how"], **kw)
    finally:
        shutil.rmtree(tmp)
    judge(d, rows[:: case["drop"]], case, "static file")
    return dict(nontrivial=len(rows) >= 2,
                labels=[case["how"], f"drop {min(case['drop'], 3)}"])


def keytime(s):
    return float(s) * 60


def check_dynamic(case):
    rows = [fmt(r) for r in case["rows"]]
    times = ["%.4f" % t for t in case["times"]]
    lines = ["", head(case), "Dynamic", "nm"]
    sets = []
    for j, t in enumerate(times):
        pts = []
        for i, r in enumerate(rows):
            q = list(r)
            q[2] = "%.4f" % ((float(r[2]) + 1.7 * j) % 90)
            q[3] = "%.4f" % ((float(r[3]) + 11.3 * j) % 360)
            pts.append(q)
            lines.append("\t".join(q + ["0.0988", "0.2195", "", t]))
        sets.append((t, pts))
    tmp = tempfile.mkdtemp(prefix="c18-")
    try:
        p = write(tmp, case["name"], lines, case)
        kw = {}
        if case["drop"] > 1:
            kw["dropdatapoints"] = case["drop"]
        if case["every"] > 1:
            kw["take_every"] = case["every"]
        out = read(p, case["how"], **kw)
    finally:
        shutil.rmtree(tmp)
    require(isinstance(out, dict), f"dynamic file gave {type(out)}")
    sets.sort(key=lambda x: float(x[0]))
    sets = sets[:: case["every"]]
    keys = [float(k) for k in out]
    require(len(keys) == len(sets),
            f"{len(keys)} datasets, expected {len(sets)} of {len(times)} times")
    require(keys == sorted(keys), f"times are not in order: {keys}")
    for (k, d), (t, pts) in zip(out.items(), sets):
        require(abs(float(k) - keytime(t)) <= 0.0501,
                f"time {k!r} s, expected {keytime(t)} s")
        judge(d, pts[:: case["drop"]], case, f"time {k}")
    return dict(nontrivial=len(rows) >= 2 and len(times) >= 2,
                labels=[case["how"], f"every {min(case['every'], 3)}"])


def check_other(case):
    """Anything else is refused."""
    tmp = tempfile.mkdtemp(prefix="c18-")
    try:
        p = write(tmp, case["name"],
                  ["", head(case), case["third"], "nm", "1\t2\t3\t4\t5\t6\t\t7"], case)
        try:
            x = read(p, case["how"])
        except ValueError:
            pass
        else:
            raise Violation(f"file of kind {case['third']!r} read as {x!r}")
    finally:
        shutil.rmtree(tmp)
    return dict(nontrivial=True, labels=[case["third"]])


@st.composite
def base(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))
    w0, dw = draw(gen.uni(190, 800, 3)), draw(gen.uni(0.5, 12, 3))
    angs = draw(st.lists(gen.uni(45, 80, 3), min_size=1, max_size=2))
    rows = [[w0 + dw * (i // len(angs)), angs[i % len(angs)],
             draw(gen.uni(0, 90, 4)),
             draw(st.one_of(gen.uni(-90, 360, 4), st.sampled_from([0.0, 180.0])))]
            for i in range(n)]
    meta = [["EllipsometerType", draw(st.sampled_from(["4", "7"]))],
            ["CompleteEASE", draw(st.sampled_from(["3.65", "6.51"]))]]
    if draw(st.booleans()):
        meta.append(["AcqTime", "%.3f" % draw(gen.uni(0, 99, 3))])
    if draw(st.integers(0, 2)) == 0:
        for i in range(draw(st.integers(1, 9))):
            meta.append([f"Key{i}", draw(st.sampled_from(
                ["0", "-1.5", "Yes", "a b", "[1;2]", "x/y.z", "1e-3"]))])
    return {"rows": rows, "meta": meta, "drop": draw(st.sampled_from([1, 1, 2, 3, 5, 50])),
            "eol": draw(st.sampled_from(["\n", "\r\n"])), "last": draw(st.booleans()),
            "how": draw(st.sampled_from(["str", "path", "handle"])),
            "name": draw(st.sampled_from(["a.dat", "b c.txt"])),
            "explicit": draw(st.booleans())}


@st.composite
def long(draw):
    """Long tables: a few thousand rows."""
    c = draw(base())
    n, k = draw(st.integers(400, 4000)), len(c["rows"])
    c["rows"] = [[round(190 + 0.4 * i, 3), c["rows"][i % k][1],
                  c["rows"][i % k][2], round((c["rows"][i % k][3] + 0.37 * i) % 360, 4)]
                 for i in range(n)]
    return c


@st.composite
def dynamic(draw):
    c = draw(base())
    c["rows"] = c["rows"][:12]
    t = draw(gen.uni(0, 50, 4))
    times = [t]
    for _ in range(draw(st.integers(0, 7))):
        t = round(t + draw(st.one_of(gen.uni(0.004, 0.05, 4), gen.uni(0.004, 3, 4))), 4)
        times.append(t)
    if draw(st.integers(0, 9)) == 0:
        times = times[::-1]
    c["times"] = times
    c["every"] = draw(st.sampled_from([1, 1, 2, 3, 9]))
    return c


@st.composite
def other(draw):
    c = draw(base())
    c["third"] = draw(st.sampled_from(["eV", "Generic", "", "nm ", "dynamic"]))
    return c


@st.composite
def longdyn(draw):
    """Long runs: hundreds of times, or long spectra at a few times."""
    c = draw(dynamic())
    if draw(st.booleans()):
        n, dt = draw(st.integers(100, 900)), draw(gen.uni(0.005, 0.5, 4))
        c["rows"] = c["rows"][:3]
        c["times"] = [round(c["times"][0] + dt * i, 4) for i in range(n)]
    else:
        c["rows"] = draw(long())["rows"][:1500]
        c["times"] = c["times"][:3]
    return c


SUBS = [Sub("static", base, check_static, quick=700),
        Sub("dynamic", dynamic, check_dynamic, quick=700),
        Sub("long", long, check_static, quick=16),
        Sub("longdyn", longdyn, check_dynamic, quick=16),
        Sub("other", other, check_other, quick=60)]
