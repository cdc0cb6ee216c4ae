"""C28: the transfer-matrix amplitudes are those of the stack and conserve energy."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Reject, Sub, Violation

RULE = (
    "a generated stack of 0-8 layers (transparent, absorbing, metallic, opaque, "
    "evanescent, zero thickness; some repeated into multilayers) with 1-6 points, "
    "given as scalars, arrays or broadcastable pairs of angles and wavelengths; "
    "non-trivial if there is at least one inner layer of non-zero thickness and "
    "a point at oblique incidence"
)
ASSUMPTIONS = [
    "passive layers, no layer within 1e-6 (in n^2) of its critical angle, "
    "incidence below 89.5 degrees",
    "layers with a single-pass transmission below 1e-15 are opaque: behind them "
    "only the smallness of the transmission is judged",
]

LD = np.longdouble
CLD = np.clongdouble


def amplitudes(ns, ds, s, lam):
    """{r_s, t_s, r_p, t_p} for the lateral index s, by downward recursion."""
    ns = [CLD(n) for n in ns]
    kz = []
    for n in ns:
        q = np.sqrt(n * n - LD(s) * LD(s))
        if q.imag < 0 or (q.imag == 0 and q.real < 0):
            q = -q
        kz.append(q)
    out = {}
    opaque = 0.0
    den = LD(1)
    for pol in "sp":
        r = t = None
        for j in range(len(ns) - 2, -1, -1):
            if pol == "s":
                a, b = kz[j], kz[j + 1]
                ft = 2 * a / (a + b)
            else:
                a, b = ns[j + 1] ** 2 * kz[j], ns[j] ** 2 * kz[j + 1]
                ft = 2 * ns[j] * ns[j + 1] * kz[j] / (a + b)
            fr = (a - b) / (a + b)
            den = min(den, abs(a + b) / (abs(a) + abs(b)))
            if r is None:
                r, t = fr, ft
                continue
            dl = 2 * LD(np.pi) * kz[j + 1] * LD(ds[j + 1]) / LD(lam)
            opaque = max(opaque, float(dl.imag))
            ph = np.exp(CLD(1j) * dl)
            d = 1 + fr * r * ph * ph
            den = min(den, abs(d))
            r, t = (fr + r * ph * ph) / d, ft * t * ph / d
        out["r_" + pol], out["t_" + pol] = complex(r), complex(t)
    return out, [complex(k) for k in kz], opaque, float(den)


def lossless(n):
    return n.imag == 0.0


def run(ns, ds, th, lam):
    from refellips.reflect_modelSE import coh_tmm

    return coh_tmm(ns, ds, th, lam)


def check(case):
    ns = [complex(a, b) for _, a, b in case["rows"]]
    ds = [x[0] for x in case["rows"]]
    front = case["front"]
    n0 = complex(*front)
    ns = [n0] + ns
    ds = [np.inf] + ds[:-1] + [np.inf]
    if case["rep"] > 1:
        ns = ns[:1] + ns[1:-1] * case["rep"] + ns[-1:]
        ds = ds[:1] + ds[1:-1] * case["rep"] + ds[-1:]
    lams = [w for w, _ in case["q"]]
    svals = [n0.real * math.sin(math.radians(a)) for _, a in case["q"]]
    for s in svals:
        if any(abs(n * n - s * s) < 1e-6 for n in ns):
            raise Reject("critical angle")
    if n0.imag:
        # absorbing ambient: the angle is complex so that n0 sin(th0) is real
        ths = [np.arcsin(s / n0) for s in svals]
    else:
        ths = [math.radians(a) for _, a in case["q"]]
    form = case["form"]
    if form == "scalar":
        lams, ths, svals = lams[:1], ths[:1], svals[:1]
        args = (ths[0], lams[0])
    elif form == "onewav":
        lams = lams[:1] * len(ths)
        args = (np.array(ths), lams[0])
    elif form == "oneangle":
        ths, svals = ths[:1] * len(lams), svals[:1] * len(lams)
        args = (ths[0], np.array(lams))
    elif form == "grid":
        n = len(ths)
        args = (np.array(ths)[:, None], np.array(lams)[None, :])
        ths = [t for t in ths for _ in range(n)]
        svals = [t for t in svals for _ in range(n)]
        lams = lams * n
    else:
        args = (np.array(ths), np.array(lams))
    nl, dl = (list(ns), list(ds)) if case["lists"] else (np.array(ns), np.array(ds))
    if all(lossless(n) for n in ns) and case["real"]:
        nl = [n.real for n in ns] if case["lists"] else np.array([n.real for n in ns])
    keep = (np.array(nl), np.array(dl), np.array(args[0]), np.array(args[1]))
    res = run(nl, dl, *args)
    for a, b in zip(keep, (nl, dl) + args):
        if not np.array_equal(a, np.asarray(b)):
            raise Violation("coh_tmm changed its arguments")
    n = len(ths)
    got = {}
    for k in ("r_s", "t_s", "r_p", "t_p"):
        got[k] = np.asarray(res[k], complex)
        if not np.isfinite(got[k]).all():
            raise Violation(f"{k} is not finite: {got[k]}")
    for k, v in got.items():
        if np.ravel(v).shape != (n,):
            raise Violation(f"{k} has {np.size(v)} values for {n} points")
    labels = set()
    for i in range(n):
        e, kz, opq, den = amplitudes(ns, ds, svals[i], lams[i])
        if den < 1e-5 or not all(np.isfinite(v) for v in e.values()):
            labels.add("resonant, skipped")
            continue
        tol = 1e-10 / den ** 2
        where = f"at {lams[i]} (units of d), n0 sin(th) = {svals[i]}"
        for k in e:
            g = np.ravel(got[k])[i]
            lim = tol * max(1.0, abs(e[k]))
            if k[0] == "t" and opq < 33:
                lim = 1e-8 / den ** 2 * abs(e[k]) + 1e-300
            if not abs(g - e[k]) <= lim:
                raise Violation(f"{k} = {g}, the stack gives {e[k]} {where}")
        if not n0.imag:
            for p in "sp":
                R = abs(np.ravel(got["r_" + p])[i]) ** 2
                t = np.ravel(got["t_" + p])[i]
                kN = kz[-1] if p == "s" else ns[-1] * np.conj(kz[-1] / ns[-1])
                T = abs(t) ** 2 * kN.real / kz[0].real
                clear = all(lossless(x) for x in ns)
                lim = 1e-9 / den ** 2
                if R > 1 + lim or R + T > 1 + lim:
                    raise Violation(f"R_{p} = {R}, T_{p} = {T}: gains energy {where}")
                if clear and opq < 33 and abs(R + T - 1) > lim:
                    raise Violation(
                        f"R_{p} + T_{p} = {R + T} of a lossless stack {where}")
        labels.add("opaque" if opq > 33 else "metallic" if
                   any(x.imag > 0.3 for x in ns) else "clear"
                   if all(lossless(x) for x in ns) else "absorbing")
        if any(abs(q.real) < 1e-9 for q in kz):
            labels.add("evanescent")
    # light sent back through the same stack
    if case["back"] and lossless(n0) and lossless(ns[-1]):
        ok = [i for i in range(n) if svals[i] < ns[-1].real]
        if ok:
            labels.add("reciprocity")
            thb = np.array([math.asin(svals[i] / ns[-1].real) for i in ok])
            rev = run(np.array(ns)[::-1], np.array(ds)[::-1], thb,
                      np.array([lams[i] for i in ok]))
            for p in "sp":
                for b, i in enumerate(ok):
                    e, kz, opq, den = amplitudes(ns, ds, svals[i], lams[i])
                    if den < 1e-4 or min(kz[0].real, kz[-1].real) < 1e-2:
                        continue
                    f = np.ravel(got["t_" + p])[i] * kz[-1]
                    g = np.ravel(rev["t_" + p])[b] * kz[0]
                    lim = 1e-8 / den ** 2 * (abs(e["t_" + p] * kz[-1])
                                             if opq < 33 else 1.0)
                    if not abs(f - g) <= lim + 1e-300:
                        raise Violation(
                            f"t_{p} forwards {f} and backwards {g} (each scaled "
                            f"by the exit index) differ")
    labels |= {f"form={form}", f"layers={min(len(ns) - 2, 20)}"}
    if n0.imag:
        labels.add("absorbing ambient")
    inner = any(d > 0 for d in ds[1:-1])
    return dict(nontrivial=inner and any(s > 0 for s in svals), labels=sorted(labels))


def strat():
    row = st.builds(lambda d, m: [d, m["n"], m["k"]],
                    st.one_of(gen.thick, gen.uni(0, 3000, 1), st.just(0.0)),
                    st.one_of(gen.transparent, gen.const, gen.metal))
    clear = st.builds(lambda d, m: [d, m["n"], 0.0], gen.uni(0, 3000, 1),
                      gen.transparent)
    return st.builds(
        lambda front, rows, rep, q, form, lists, real, back: dict(
            front=front, rows=rows, rep=rep, q=[[10 * w, a] for w, a in q],
            form=form, lists=lists, real=real, back=back),
        st.one_of(
            st.builds(lambda n: [n, 0.0], st.one_of(st.just(1.0), gen.uni(1, 4, 4))),
            st.builds(lambda n: [n, 0.0], gen.uni(1, 4, 4)),
            st.builds(lambda n, k: [n, k], gen.uni(1, 3, 4), gen.uni(0.001, 0.5, 4)),
        ),
        st.one_of(st.lists(row, min_size=1, max_size=9),
                  st.lists(clear, min_size=1, max_size=6)),
        st.sampled_from([1, 1, 1, 1, 2, 5, 15]),
        st.lists(st.tuples(gen.wavelengths, gen.uni(0, 89.5, 3)), min_size=1,
                 max_size=6),
        st.sampled_from(["pairs", "pairs", "scalar", "onewav", "oneangle", "grid"]),
        st.booleans(), st.booleans(), st.booleans(),
    )


SUBS = [Sub("tmm", strat, check, quick=3000)]
