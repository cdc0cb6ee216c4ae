"""C16: saving, loading and refreshing 4 column files."""

import io
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build, gen
from ..build import require
from ..core import Sub, Violation
from .c15 import Model, containers, row, rows, verify

from refellips import DataSE

RULE = (
    "a dataset saved and loaded again through a str path, Path or open handle, or "
    "a text file with 0-100 header lines, any delimiter/number format/line ends, "
    "loaded, masked, rewritten on disk and refreshed, wrapped; delta reflected or not; "
    "non-trivial if the file has a header or was refreshed, and at least 2 points"
)
ASSUMPTIONS = [
    "header lines do not start with a number in the first column",
    "a file has at least one data row",
]


def target(p, how):
    if how == "str":
        return p, None
    if how == "path":
        return pathlib.Path(p), None
    f = open(p, "w" if how == "w" else "r")
    return f, f


def check_roundtrip(case):
    flip = case["flip"]
    d = DataSE(containers(case["rows"], 0), reflect_delta=flip)
    m = Model(case["rows"], flip)
    bits = [(case["bits"] >> (i % 30)) & 1 == 1 for i in range(len(m.rows))]
    if case["masked"]:
        d.mask = bits
        m.mask = bits
    tmp = tempfile.mkdtemp(prefix="c16-")
    try:
        p = os.path.join(tmp, case["name"])
        if case["save"] == "handle":
            with open(p, "w") as f:
                d.save(f)
        elif case["save"] == "stringio":
            f = io.StringIO()
            d.save(f)
            with open(p, "w") as g:
                g.write(f.getvalue())
        else:
            d.save(target(p, case["save"])[0])
        verify(d, m, "dataset after save")
        # every point is saved, masked or not
        full = Model(m.rows, False)
        for how in case["loads"]:
            if how == "handle":
                with open(p) as f:
                    e = DataSE(f)
            elif how == "stringio":
                e = DataSE(io.StringIO(open(p).read()))
            elif how == "load":
                e = DataSE()
                e.load(p)
            elif how == "loadh":
                e = DataSE([[1.0], [2.0], [3.0], [4.0]])
                with open(p) as f:
                    e.load(f)
            else:
                e = DataSE(target(p, how)[0])
            verify(e, full, f"saved with {case['save']}, loaded by {how}")
        e = DataSE(p, reflect_delta=True)
        verify(e, Model(m.rows, True), "loaded with reflect_delta")
        # a second generation is identical
        p2 = os.path.join(tmp, "second.txt")
        DataSE(p).save(p2)
        verify(DataSE(pathlib.Path(p2)), full, "second generation")
    finally:
        shutil.rmtree(tmp)
    return dict(nontrivial=len(m.rows) >= 2,
                labels=[case["save"], "masked" if case["masked"] else "unmasked"])


def write(p, rows, case, header):
    dl, fmt, eol = case["dl"], case["fmt"], case["eol"]
    lines = list(header)
    vals = []
    for r in rows:
        t = [(fmt % x) if fmt != "r" else repr(float(x)) for x in r]
        vals.append([float(x) for x in t])
        lines.append(dl.join(t))
    text = eol.join(lines) + (eol if case["last"] else "")
    with open(p, "w", newline="") as f:
        f.write(text)
    return vals


def check_file(case):
    tmp = tempfile.mkdtemp(prefix="c16-")
    flip = case["flip"]
    dl = case["dl"]
    try:
        p = os.path.join(tmp, "data.txt")
        vals = write(p, case["rows"], case, case["header"])
        how = case["how"]
        kw = {} if dl == "\t" else {"delimiter": dl}
        fh = None
        if how == "handle":
            fh = open(p)
            d = DataSE(fh, reflect_delta=flip, **kw)
        else:
            d = DataSE(target(p, how)[0], reflect_delta=flip, **kw)
        m = Model(vals, flip)
        verify(d, m, f"file read by {how}")
        if how != "handle":
            require(str(d.filename) == p, f"filename {d.filename!r}")
        refreshed = False
        for o in case["ops"]:
            n = len(m.rows)
            if o["op"] == "mask":
                bits = [(o["bits"] >> (i % 30)) & 1 == 1 for i in range(n)]
                d.mask = bits
                m.mask = bits
            elif o["op"] == "rewrite":
                new = o["rows"]
                if o["same"]:
                    new = [list(x) for x in (new * (n // len(new) + 1))[:n]]
                vals = write(p, new, case, o["header"])
            elif o["op"] == "refresh":
                if fh is not None:
                    fh.seek(0)
                d.refresh()
                keep = m.mask if len(vals) == n else None
                m.set(vals)
                if keep is not None:
                    m.mask = keep
                refreshed = True
            elif o["op"] == "wrap":
                # a dataset made of a dataset follows the same file
                d = DataSE(d)
            elif o["op"] == "set":
                d.data = containers(o["rows"], 1)
                m.set(o["rows"])
            verify(d, m, o["op"])
        if fh is not None:
            fh.close()
    finally:
        shutil.rmtree(tmp)
    return dict(nontrivial=len(vals) >= 2 and (refreshed or bool(case["header"])),
                labels=[how, "refreshed" if refreshed else "read once",
                        "reflected" if flip else "as measured"])


HEAD = ["# comment", "", "nm\taoi\tPsi\tDelta", "Wavelength,Angle", "VASE data",
        "nm AOI\tPsi\tDelta", "#", "sample 12 at 25C", "--- 1.0 2.0"]


@st.composite
def strat_rt(draw):
    return {
        "rows": draw(rows(1)), "flip": draw(st.booleans()),
        "masked": draw(st.booleans()), "bits": draw(st.integers(0, 2**30 - 1)),
        "name": draw(st.sampled_from(["a.txt", "b c.dat", "ünï.txt", "noext"])),
        "save": draw(st.sampled_from(["str", "path", "handle", "stringio"])),
        "loads": draw(st.lists(st.sampled_from(
            ["str", "path", "handle", "stringio", "load", "loadh"]),
            min_size=2, max_size=3)),
    }


@st.composite
def strat_file(draw):
    head = st.one_of(
        st.lists(st.sampled_from(HEAD), max_size=4),
        st.lists(st.sampled_from(HEAD), max_size=4),
        st.builds(lambda n, k: [HEAD[(i * k) % len(HEAD)] for i in range(n)],
                  st.one_of(st.integers(0, 100), st.integers(96, 100)),
                  st.integers(0, 8)),
    )
    return {
        "rows": draw(rows(1)), "header": draw(head), "flip": draw(st.booleans()),
        "dl": draw(st.sampled_from(["\t", "\t", ",", ";"])),
        "fmt": draw(st.sampled_from(["r", "%.4f", "%.8e", "%g"])),
        "eol": draw(st.sampled_from(["\n", "\r\n"])), "last": draw(st.booleans()),
        "how": draw(st.sampled_from(["str", "path", "handle"])),
        "ops": [
            {"op": draw(st.sampled_from(
                ["mask", "rewrite", "rewrite", "refresh", "refresh", "set", "wrap"])),
             "bits": draw(st.integers(0, 2**30 - 1)), "rows": draw(rows(1, 6)),
             "same": draw(st.booleans()), "header": draw(head)}
            for _ in range(draw(st.integers(0, 5)))
        ],
    }


SUBS = [Sub("roundtrip", strat_rt, check_roundtrip, quick=900),
        Sub("file", strat_file, check_file, quick=900)]
