"""C17: reading Accurion EP3/EP4 files."""

import io
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Sub, Violation

from refellips import DataSE
from refellips.dataSE import custom_round, open_EP4file

RULE = (
    "a generated .dat file: 1-9 locations and 1-6 times, each with several "
    "wavelengths/angles measured in 1-4 zones (delta anywhere on the circle), rows "
    "with NaN anywhere, columns in any order with or without time/position columns, "
    "read by str/Path/handle, with and without reflection; non-trivial if at least "
    "one point is the average of several rows or there are several datasets"
)
ASSUMPTIONS = [
    "rows of a location are within 0.1 mm of its first row and consecutive "
    "locations differ by more than 0.4 mm",
    "repeated measurements of a point spread over less than 20 degrees of delta, "
    "or are two less than 180 degrees apart",
]
SUFFIX = "_20200929-083122.ds.dat"
BASE = ["#Lambda", "Bandwidth", "AOI", "Delta", "Psi", "Zone", "Amin", "ROIidx"]


def make(case):
    """-> (text, expected datasets)"""
    cols = list(BASE)
    if case["time"]:
        cols.append("Time")
    if case["pos"]:
        cols += ["X_pos", "Y_pos"]
    if case["perm"]:
        cols = cols[:1] + sorted(cols[1:], key=lambda c: hash_of(c, case["perm"]))
    lines = ["\t".join(cols), "\t".join(["#nm"] + ["-"] * (len(cols) - 1))]
    blocks = []  # (time, location index, x, y, {(aoi, lam): [(psi, delta)]})
    times = case["times"] if case["time"] else [None]
    locs = case["locs"] if case["pos"] else [[0.0, 0.0]]
    rows = []
    k = 0
    for t in times:
        for li, (x, y) in enumerate(locs):
            pts = {}
            b = dict(t=t, x=x, y=y, pts=pts, xs=[], ys=[])
            blocks.append(b)
            start = len(rows)
            for (lam, aoi) in case["grid"]:
                n = case["zones"][k % len(case["zones"])]
                psi0 = case["psi"][k % len(case["psi"])]
                del0 = case["delta"][k % len(case["delta"])]
                k += 1
                for z in range(n):
                    j = case["jit"][(k + z) % len(case["jit"])]
                    psi = round(min(90, max(0, psi0 + 0.3 * j)), 3)
                    dl = round((del0 + case["spread"] * j) % 360, 3)
                    xx = round(x + (case["wob"] * j if k + z > 1 else 0), 3)
                    yy = round(y - (case["wob"] * j if k + z > 1 else 0), 3)
                    if not b["xs"]:
                        xx, yy = x, y
                    bad = None
                    if case["nan"] and (k + z) % case["nan"] == 0:
                        # a failed measurement: not part of the data
                        bad = dict(zip(BASE, [lam, 2.0, aoi, 0.1, 0.2, 5, 31.2,
                                              "000"]), Time=t, X_pos=xx, Y_pos=yy)
                        c = case.get("nancols", ["Amin"])
                        bad[c[(k + z) % len(c)]] = "NaN"
                    if bad is not None and case.get("nanfirst"):
                        rows.append(bad)
                    pts.setdefault((aoi, lam), []).append((psi, dl))
                    b["xs"].append(xx)
                    b["ys"].append(yy)
                    rows.append(dict(zip(BASE, [lam, 2.0, aoi, dl, psi, z + 1, 31.2,
                                                "000"]),
                                     Time=t, X_pos=xx, Y_pos=yy))
                    if bad is not None and not case.get("nanfirst"):
                        rows.append(bad)
            if case["zmajor"]:
                rows[start:] = sorted(rows[start:], key=lambda r: 5 if r["Zone"] == "NaN" else r["Zone"])
    for r in rows:
        lines.append("\t".join(str(r[c]) for c in cols))
    return "\n".join(lines) + "\n", blocks, times, locs


def hash_of(c, p):
    return (sum(ord(ch) * (i + p) for i, ch in enumerate(c)) * 7919) % 101


def check(case):
    text, blocks, times, locs = make(case)
    tmp = tempfile.mkdtemp(prefix="c17-")
    try:
        p = os.path.join(tmp, case["name"] + SUFFIX)
        with open(p, "w") as f:
            f.write(text)
        how = case["how"]
        if how == "handle":
            with open(p) as f:
                out = open_EP4file(f, reflect_delta=case["flip"])
        elif how == "path":
            out = open_EP4file(pathlib.Path(p), reflect_delta=case["flip"])
        else:
            out = open_EP4file(p, reflect_delta=case["flip"])
    finally:
        shutil.rmtree(tmp)
    if len(blocks) == 1:
        require(isinstance(out, DataSE), f"one dataset came as {type(out)}")
        out = [out]
    require(isinstance(out, (list, tuple)) and len(out) == len(blocks),
            f"{len(out)} datasets, the file has {len(blocks)}")
    averaged = False
    for d, b in zip(out, blocks):
        require(isinstance(d, DataSE), f"{type(d)} isn't a DataSE")
        keys = sorted(b["pts"])
        n = len(keys)
        w = build.arr(d.wavelength, (n,), "wavelength")
        a = build.arr(d.aoi, (n,), "aoi")
        psi = build.arr(d.psi, (n,), "psi")
        dl = build.arr(d.delta, (n,), "delta")
        got = sorted(zip(a.tolist(), w.tolist()))
        require(got == keys, f"points {got}, the file has {keys}")
        for i in range(n):
            m = b["pts"][(a[i], w[i])]
            averaged |= len(m) > 1
            ep = np.mean([x[0] for x in m])
            first = m[0][1]
            ed = (first + np.mean([(x[1] - first + 180) % 360 - 180 for x in m])) % 360
            require(abs(psi[i] - ep) < 1e-7, f"psi {psi[i]} is not the mean {ep}")
            require(-1e-9 <= dl[i] <= 360 + 1e-9, f"delta {dl[i]} out of range")
            if case["flip"]:
                ed = 360 - ed if ed > 180 else ed
                require(dl[i] <= 180 + 1e-9, f"delta {dl[i]} not reflected")
                require(abs(dl[i] - ed) < 1e-6 or
                        min(ed, 360 - ed) + min(dl[i], 360 - dl[i]) < 1e-6,
                        f"delta {dl[i]}, expected {ed} from {m}")
            else:
                require(ref.circ(dl[i], ed) < 1e-6, f"delta {dl[i]} is not the mean "
                        f"{ed} of {m}")
        md = d.metadata
        tt = md.get("time")
        if len(times) > 1:
            require(tt is not None and abs(float(tt) - b["t"]) < 1e-9,
                    f"time {tt!r}, expected {b['t']}")
        else:
            require(tt is None, f"time {tt!r} of a single measurement")
        wobbles = case["pos"] and (len(set(b["xs"])) > 1 or len(set(b["ys"])) > 1)
        if len(locs) > 1 or wobbles:
            for nm, e in (("X pos", np.mean(b["xs"])), ("Y pos", np.mean(b["ys"]))):
                require(md.get(nm) is not None and
                        abs(float(md[nm]) - e) <= 0.0051 + 2 * case["wob"],
                        f"{nm} = {md.get(nm)!r}, expected {e}")
        else:
            require(md.get("X pos") is None and md.get("Y pos") is None,
                    f"location {md} of a file with a single location")
        if how != "handle":
            e = p[: -len(SUFFIX)]
            require(str(d.name).startswith(e), f"name {d.name!r}")
            rest = str(d.name)[len(e):]
            if md.get("X pos") is not None:
                tag = f"_x={md['X pos']}mm_y={md['Y pos']}mm"
                require(rest.startswith(tag), f"name {d.name!r}")
                rest = rest[len(tag):]
            require(rest == (f"_t={tt}s" if tt is not None else ""),
                    f"name {d.name!r}")
    return dict(nontrivial=averaged or len(blocks) > 1,
                labels=[f"times {len(times)}", f"locations {len(locs)}", how,
                        "averaged" if averaged else "single rows"])


def check_round(case):
    x, b = case["x"], case["base"]
    r = build.arr(custom_round(x, b), np.shape(x), "custom_round")
    for v, e in zip(r, x):
        require(abs(v - e) <= b / 2 + 0.0051, f"custom_round({e}, {b}) = {v}")
        require(abs(v / b - round(v / b)) * b <= 0.0051,
                f"custom_round({e}, {b}) = {v} is not a multiple")
    return dict(nontrivial=True, labels=[])


def strat_round():
    return st.builds(lambda x, b: {"x": x, "base": b},
                     st.lists(gen.uni(-100, 100, 4), min_size=1, max_size=6),
                     st.sampled_from([0.25, 0.5, 0.1, 1.0, 2.0, 5.0]))


@st.composite
def strat(draw):
    nl = draw(st.one_of(st.integers(1, 4), st.integers(1, 9)))
    locs = []
    for _ in range(nl):
        x = draw(gen.uni(-30, 30, 3))
        y = draw(gen.uni(-30, 30, 3))
        if locs and draw(st.booleans()):  # only one coordinate changes
            if draw(st.booleans()):
                x = locs[-1][0]
            else:
                y = locs[-1][1]
        if locs and draw(st.booleans()):  # hardly apart
            step = draw(gen.uni(0.45, 1.5, 3)) * draw(st.sampled_from([1, -1]))
            x, y = draw(st.sampled_from([
                [round(locs[-1][0] + step, 3), locs[-1][1]],
                [locs[-1][0], round(locs[-1][1] + step, 3)]]))
        if locs and abs(x - locs[-1][0]) < 0.4 and abs(y - locs[-1][1]) < 0.4:
            x = round(locs[-1][0] + 0.5 + draw(gen.uni(0, 3, 3)), 3)
        locs.append([x, y])
    # times also between the first and last location
    if len(locs) > 1 and abs(locs[0][0] - locs[-1][0]) < 0.4 and abs(
            locs[0][1] - locs[-1][1]) < 0.4:
        locs[-1][1] = round(locs[-1][1] + 7, 3)
    t = sorted(set(draw(st.lists(gen.uni(0, 5000, 3), min_size=1,
                             max_size=draw(st.sampled_from([1, 3, 6]))))))
    if draw(st.booleans()):
        t = t[::-1]
    grid = draw(st.lists(
        st.tuples(st.sampled_from([365.0, 503.9, 658.0, 658.0, 900.5]),
                  st.one_of(gen.uni(40, 80, 1), st.sampled_from([50.0, 60.0]))
                  ).map(list),
        min_size=1, max_size=6))
    grid = [list(g) for g in dict.fromkeys(map(tuple, grid))]
    zones = draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 9)),
                          min_size=1, max_size=4))
    spread = draw(gen.uni(0, 8, 2))
    if draw(st.integers(0, 3)) == 0:
        # two zones far apart: their mean on the circle is unambiguous
        zones = [min(z, 2) for z in zones]
        spread = draw(gen.uni(8, 80, 2))
    return {
        "time": draw(st.booleans()), "pos": draw(st.booleans()), "times": t,
        "locs": locs, "grid": grid,
        "zones": zones,
        "psi": draw(st.lists(gen.uni(0, 90, 3), min_size=1, max_size=5)),
        "delta": draw(st.lists(st.one_of(
            gen.uni(0, 360, 3), st.sampled_from([0.0, 180.0, 359.9, 0.2])),
            min_size=1, max_size=5)),
        "jit": draw(st.lists(gen.uni(-1, 1, 3), min_size=3, max_size=7)),
        "spread": spread,
        "wob": draw(st.sampled_from([0.0, 0.0, 0.005, 0.05])),
        "nan": draw(st.integers(0, 3)), "nanfirst": draw(st.booleans()),
        "nancols": draw(st.lists(st.sampled_from(
            ["Amin", "Bandwidth", "AOI", "Delta", "Psi", "Zone"]), min_size=1,
            max_size=3)), "perm": draw(st.integers(0, 5)),
        "name": draw(st.sampled_from(["sample1", "my film 2", "x"])),
        "how": draw(st.sampled_from(["str", "path", "handle"])),
        "flip": draw(st.booleans()), "zmajor": draw(st.booleans()),
    }


SUBS = [Sub("file", strat, check, quick=1100),
        Sub("round", strat_round, check_round, quick=200)]
