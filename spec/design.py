"""Writes /verif/DESIGN.md."""

import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
from harness import core  # noqa: E402

core.setup_imports()

# what the answer is compared with, and why a test of examples can't settle it
ORACLE = {
    "C01": "downward Airy/Parratt recursion in long double with kz from sqrt(n^2 - s^2) on the decaying branch - not the forward 2x2 matrix product of the code. States are compared on the Poincare sphere.",
    "C02": "metamorphic: the sample before and after a chain of rewrites that leave the optics alone (the rewritten sample is also compared with the reference).",
    "C03": "a model built anew for every point; whole spectra of up to 1200 points are spot-checked the same way, at round block sizes too.",
    "C04": "the conventions written down independently (fold at 180, then the offset), on data, model, residuals.",
    "C05": "a Python list of layers as a model of the structure; the slab table is recomputed from it after every operation.",
    "C06": "the sample built by hand in the opposite order; the reference response.",
    "C07": "reference mixing laws applied to the inner layers only.",
    "C08": "the defining equation of each rule is evaluated at the returned value (residual), plus end points, exchange of the constituents, passivity and the reference root.",
    "C09": "reference mixture; a plain slab of that index; the same mixture expressed by solvation.",
    "C10": "an own CSV reader and interpolation; a snapshot of the bundled tables (`data/materials`); the same table by every route of loading.",
    "C11": "the documented formulas in long double; histories of parameter changes; Parameters shared within and between materials.",
    "C12": "principal-value quadrature (Kramers-Kronig) of the code's own absorption; sign of the absorption; the gap.",
    "C13": "sum of error-function steps computed from the reference layer table.",
    "C14": "the documented interface shapes integrated independently; optics of a fine reference slicing; refnx's contraction applied to the uncontracted table.",
    "C15": "a list of points and a list of booleans as model of the dataset.",
    "C16": "round trip through save/load and generated files; the rows written are the rows expected.",
    "C17": "the generator knows positions, times, zones; means on the circle computed from complex numbers.",
    "C18": "the generator knows the rows; Python slices for the decimation.",
    "C19": "N, C, S generated from known Psi and Delta.",
    "C20": "the generator knows the table, its column order and sections.",
    "C21": "residuals, chi-squared, log-likelihood, log-posterior recomputed from the reference response and the parameter values.",
    "C22": "a JSON spec of the sample is updated alongside every operation; slab table, Psi and Delta have to be those of the spec.",
    "C23": "central differences of the reference model's residuals.",
    "C24": "answers of copy and original, before and after changes of either.",
    "C25": "synthetic data from the reference model; an independent Gauss-Newton fit decides whether the sample is determined.",
    "C26": "snapshots of all parameters, settings, data and answers before and after; the artists of the axes compared with the reference response.",
    "C27": "every answer of a world in which everything is shared against a world built anew for that one answer.",
    "C28": "Airy recursion and its transmission counterpart in long double; energy balance (R + T <= 1, equality without loss); reciprocity of the reversed stack.",
}

out = [open(os.path.join(HERE, "design_head.md")).read()]
man = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
for line in open(f"{V}/properties.jsonl"):
    d = json.loads(line)
    pid = d["id"]
    mod = importlib.import_module(f"harness.props.{pid.lower()}")
    sc = getattr(mod, "SCALE", 4)
    out.append(f"### {pid} {d['title']}\n")
    out.append(d["statement"] + "\n")
    out.append(f"* Generated: {mod.RULE}.")
    out.append(f"* Oracle: {ORACLE[pid]}")
    note = man[pid]["level_note"].split("no proof. ")[-1]
    out.append("* Bounds: " + note)
    for a in mod.ASSUMPTIONS:
        out.append(f"* Assumes: {a}")
    out.append("* Cost: " + ", ".join(
        f"{s.name} {s.quick * sc} cases (thorough {s.thorough})" for s in mod.SUBS))
    out.append(f"* Beyond the tests: {d['why_tests_cant']}\n")
out.append(open(os.path.join(HERE, "design_tail.md")).read())
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
extra = json.load(open(os.path.join(HERE, "caught.json")))
for p in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {extra.get(i, m['property'])} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
