"""C19: reading FilmSense files."""

import io
import math
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation

from refellips import DataSE
from refellips.dataSE import open_FilmSenseFile

RULE = (
    "a generated FilmSense static or dynamic export (1-12 wavelengths, 1-8 (in long runs 3000) times, "
    "psi in (0, 90), delta anywhere on the circle, N/C/S written with 3-8 decimals), "
    "read by str/Path/handle; non-trivial if some delta is in each half of the circle "
    "or there are several times"
)
ASSUMPTIONS = ["|N| < 1, sin(2 psi) > 1e-3 (otherwise delta is undefined)"]


def ncs(psi, delta, nd):
    p, d = math.radians(2 * psi), math.radians(delta)
    return ["%.*f" % (nd, v) for v in
            (math.cos(p), math.sin(p) * math.cos(d), math.sin(p) * math.sin(d))]


def expected(N, C, S):
    N, C, S = float(N), float(C), float(S)
    return (math.degrees(math.acos(max(-1, min(1, N)))) / 2,
            math.degrees(math.atan2(S, C)) % 360)


def judge(d, wl, cells, aoi, what):
    require(isinstance(d, DataSE), f"{what}: {type(d)}")
    n = len(wl)
    w = build.arr(d.wavelength, (n,), f"{what}: wavelength")
    a = build.arr(d.aoi, (n,), f"{what}: aoi")
    psi = build.arr(d.psi, (n,), f"{what}: psi")
    dl = build.arr(d.delta, (n,), f"{what}: delta")
    require(np.allclose(w, [float(x) for x in wl], rtol=1e-12),
            f"{what}: wavelengths {w.tolist()}, the file has {wl}")
    require(np.allclose(a, aoi, rtol=1e-12), f"{what}: aoi {a.tolist()} not {aoi}")
    for i, c in enumerate(cells):
        ep, ed = expected(*c[:3])
        s2 = math.sin(math.radians(2 * ep))
        tol = 1e-4 + 60 * 2e-7 / max(s2, 4e-4)
        require(abs(psi[i] - ep) <= tol, f"{what}: psi {psi[i]}, expected {ep}")
        h = math.hypot(float(c[1]), float(c[2]))
        require(-1e-9 <= dl[i] <= 360 + 1e-4, f"{what}: delta {dl[i]} out of range")
        if h > 1e-4:
            require(ref.circ(dl[i], ed) <= 1e-4,
                    f"{what}: delta {dl[i]}, expected {ed} (N, C, S = {c[:3]})")


def read(p, how):
    if how == "handle":
        with open(p) as f:
            return open_FilmSenseFile(f)
    if how == "stringio":
        with open(p) as f:
            return open_FilmSenseFile(io.StringIO(f.read()))
    return open_FilmSenseFile(pathlib.Path(p) if how == "path" else p)


def check(case):
    wl = ["%.2f" % w for w in case["wl"]]
    n = len(wl)
    nd = case["nd"]
    times = case["times"]
    dyn = case["dyn"]
    aoi = "%.3f" % case["aoi"]
    k = 0
    sets = []
    for t in times if dyn else [None]:
        cells = []
        for i in range(n):
            psi = case["psi"][k % len(case["psi"])]
            de = case["delta"][k % len(case["delta"])]
            k += 1
            cells.append(ncs(psi, de, nd) + ["0.99839", "%.4f" % (5 + i)])
        sets.append((t, cells))
    leds = [f"{w}\t14.32\t3.39\t2.48" + ("\t1.218\t1.363\t0.059" if case["wide"] else "")
            for w in wl]
    if dyn:
        lines = ["Film_Sense_Dyn_Data", f"{n}\t{len(times)}\t{aoi}\t2"] + leds
        lines.append("Time\t" + "\t".join(
            f"L{i}_{c}" for i in range(n) for c in "NCSPI") + "\tAlignX\tFit_Diff")
        for t, cells in sets:
            lines.append("\t".join(["%.3f" % t] + [x for c in cells for x in c] +
                                   ["-0.007", "0.0018764"]))
    else:
        lines = ["Film_Sense_Data",
                 f"{n}\t1\t{aoi}\t-0.002\t-0.003\t19.0913"] + leds
        lines += ["\t".join(c) for c in sets[0][1]]
        if case["tail"]:
            lines += ["3", "Fit_Diff\t0.0046", "Thick\t2.1"]
    tmp = tempfile.mkdtemp(prefix="c19-")
    try:
        p = os.path.join(tmp, "fs.txt")
        with open(p, "w", newline="") as f:
            f.write(case["eol"].join(lines) + case["eol"])
        out = read(p, case["how"])
    finally:
        shutil.rmtree(tmp)
    if dyn:
        require(isinstance(out, dict), f"dynamic file gave {type(out)}")
        exp = {}
        for t, cells in sets:
            exp[float("%.3f" % t)] = cells
        require([float(x) for x in out] == list(exp),
                f"times {list(out)}, the file has {list(exp)}")
        items = [(d, exp[float(t)], f"time {t}") for t, d in out.items()]
    else:
        items = [(out, sets[0][1], "static")]
    for d, cells, what in items:
        judge(d, wl, cells, float(aoi), what)
        md = d.metadata
        require(md.get("numwvls") == n and float(md.get("nomAOI")) == float(aoi)
                and md.get("numdatasets") == (len(times) if dyn else 1),
                f"{what}: metadata {md}")
        if not dyn:
            require(md.get("AlignX") == -0.002 and md.get("AlignY") == -0.003
                    and md.get("AvInten") == 19.0913, f"metadata {md}")
    ds = [x % 360 for x in case["delta"]]
    return dict(nontrivial=(min(ds) < 180 < max(ds)) or (dyn and len(times) > 1),
                labels=["dynamic" if dyn else "static", case["how"]])


def check_other(case):
    try:
        x = open_FilmSenseFile(io.StringIO(case["first"] + "\n1\t1\t70\t0\t0\t0\n"))
    except Exception:
        return dict(nontrivial=True, labels=[])
    raise Violation(f"file that starts {case['first']!r} read as {x!r}")


@st.composite
def strat_long(draw):
    """Long runs: a few thousand times."""
    c = draw(strat())
    c["wl"] = c["wl"][: draw(st.integers(1, 3))]
    n = draw(st.integers(200, 3000))
    dt = draw(gen.uni(0.01, 4, 3))
    t0 = c["times"][0]
    c["times"] = [round(t0 + dt * i, 3) for i in range(n)]
    c["dyn"] = True
    return c


@st.composite
def strat(draw):
    n = draw(st.integers(1, 12))
    t = draw(gen.uni(0, 100, 3))
    times = [t]
    for _ in range(draw(st.integers(0, 7))):
        t = round(t + 0.001 + draw(gen.uni(0, 30, 3)), 3)
        times.append(t)
    return {
        "wl": [round(350 + 50 * i + draw(gen.uni(0, 49, 2)), 2) for i in range(n)],
        "psi": draw(st.lists(gen.uni(0.5, 89, 3), min_size=1, max_size=9)),
        "delta": draw(st.lists(st.one_of(
            gen.uni(0, 360, 3), st.sampled_from([0.0, 90.0, 180.0, 270.0, 359.99, 180.1,
                                                 359.9995, 359.99999, 0.0004])),
            min_size=1, max_size=9)),
        "aoi": draw(st.one_of(gen.uni(-75, 75, 3), st.sampled_from([-70.012, 65.0]))),
        "nd": draw(st.integers(3, 8)), "times": times, "dyn": draw(st.booleans()),
        "wide": draw(st.booleans()), "tail": draw(st.booleans()),
        "eol": draw(st.sampled_from(["\n", "\r\n"])),
        "how": draw(st.sampled_from(["str", "path", "handle"])),
    }


def strat_other():
    return st.sampled_from(["", "Film_Sense", "film_sense_data", "VASEmethod[]",
                            "#Lambda", "Film_Sense_Data2"]).map(lambda f: {"first": f})


SUBS = [Sub("file", strat, check, quick=900),
        Sub("long", strat_long, check, quick=6),
        Sub("other", strat_other, check_other, quick=24)]
