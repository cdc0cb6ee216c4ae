"""Independent reference models (no import of the code under test)."""

import csv
import io
import math
import os

import numpy as np

from . import core

HC = 1239.841984055  # eV nm
LD = np.longdouble
CLD = np.clongdouble


# --------------------------------------------------------------- materials
def read_table(path):
    """Own CSV reader of a dispersion file: (wav nm, n, k)."""
    with open(path, encoding="utf-8-sig") as f:
        rows = list(csv.reader(f))[1:]
    w, n, k = [], [], []
    for r in rows:
        if not r:
            continue
        w.append(float(r[0]) * 1000)
        n.append(float(r[1]))
        k.append(float(r[2]) if len(r) > 2 and r[2].strip() else 0.0)
    return w, n, k


_bundled = {}


def bundled_table(name):
    if name not in _bundled:
        _bundled[name] = read_table(
            os.path.join(core.VERIF, "data", "materials", name + ".csv")
        )
    return _bundled[name]


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    lo, hi = 0, len(xs) - 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if xs[m] <= x:
            lo = m
        else:
            hi = m
    t = (x - xs[lo]) / (xs[hi] - xs[lo])
    return ys[lo] + t * (ys[hi] - ys[lo])


def csqrt_up(z):
    """square root with Re >= 0 (Im >= 0 on the cut)."""
    r = np.sqrt(complex(z))
    if r.real < 0 or (r.real == 0 and r.imag < 0):
        r = -r
    return complex(r)


def lorentz_eps(m, E):
    s = complex(m["Einf"])
    for A, B, En in zip(m["Am"], m["Br"], m["En"]):
        s += A / complex(En * En - E * E, -B * E)
    return s


def tl_e2(A, C, En, Eg, E):
    if E <= Eg:
        return 0.0
    return A * En * C * (E - Eg) ** 2 / (
        E * ((E * E - En * En) ** 2 + C * C * E * E)
    )


_cc = np.polynomial.chebyshev
_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def kk_e1(e2, E, a, breaks, tail, n=400):
    """Principal value (2/pi) P int_a^inf x e2(x)/(x^2-E^2) dx.

    e2 is a vectorised function; the singularity at E is removed by
    subtraction on [a, M]; [M, inf) is mapped to a finite interval.
    """
    M = max(breaks + [tail, 2.5 * E])
    pts = sorted({p for p in breaks + [E, a, M, 2 * E] if a <= p <= M})
    x0, w0 = gl(n)
    e2E = float(e2(np.array([E]))[0])
    tot = 0.0
    for lo, hi in zip(pts[:-1], pts[1:]):
        if hi - lo < 1e-14:
            continue
        # map to cluster nodes at both ends (integrand kinks there)
        t = 0.5 * (x0 + 1)
        u = t * t * (3 - 2 * t)
        du = 6 * t * (1 - t)
        x = lo + (hi - lo) * u
        f = (x * e2(x) - E * e2E) / (x * x - E * E)
        good = np.abs(x - E) > 1e-9 * E
        tot += np.sum(np.where(good, f, 0) * w0 * 0.5 * du) * (hi - lo)
    # P int_a^M E e2(E) / (x^2 - E^2) dx, analytically
    tot += e2E * 0.5 * (
        math.log(abs((M - E) / (M + E)))
        - (math.log(abs((a - E) / (a + E))) if a != E else 0.0)
    )
    # tail x = M / t
    t = 0.5 * (x0 + 1)
    x = M / t
    f = x * e2(x) / (x * x - E * E) * M / t**2
    tot += np.sum(f * w0 * 0.5)
    return 2 / math.pi * tot


def tl_eps_closed(m, E):
    """Jellison & Modine closed form, in their notation (E0, C, Eg), written
    from the published equations with long double arithmetic."""
    Eg = LD(m["Eg"])
    E = LD(E)
    if E == Eg:
        E = E * (1 + LD(2) ** -60)
    e1 = LD(m["Einf"])
    e2 = LD(0)
    pi = LD(np.pi) + LD(1.2246467991473532e-16)
    for A, C, E0 in zip(m["Am"], m["C"], m["En"]):
        A, C, E0 = LD(A), LD(C), LD(E0)
        aln = (Eg**2 - E0**2) * E**2 + Eg**2 * C**2 - E0**2 * (
            E0**2 + 3 * Eg**2
        )
        aat = (E**2 - E0**2) * (E0**2 + Eg**2) + Eg**2 * C**2
        alpha = np.sqrt(4 * E0**2 - C**2)
        g2 = E0**2 - C**2 / 2
        z4 = (E**2 - g2) ** 2 + alpha**2 * C**2 / 4
        e1 += (
            A * C * aln / (2 * pi * z4 * alpha * E0)
            * np.log((E0**2 + Eg**2 + alpha * Eg) / (E0**2 + Eg**2 - alpha * Eg))
        )
        e1 -= (
            A * aat / (pi * z4 * E0)
            * (pi - np.arctan((2 * Eg + alpha) / C)
               + np.arctan((-2 * Eg + alpha) / C))
        )
        e1 += (
            2 * A * E0 * Eg / (pi * z4 * alpha) * (E**2 - g2)
            * (pi + 2 * np.arctan(2 * (g2 - Eg**2) / (alpha * C)))
        )
        e1 -= (
            A * E0 * C * (E**2 + Eg**2) / (pi * z4 * E)
            * np.log(np.abs(E - Eg) / (E + Eg))
        )
        e1 += (
            2 * A * E0 * C * Eg / (pi * z4)
            * np.log(np.abs(E - Eg) * (E + Eg)
                     / np.sqrt((E0**2 - Eg**2) ** 2 + Eg**2 * C**2))
        )
        if E > Eg:
            e2 += A * E0 * C * (E - Eg) ** 2 / (
                E * ((E**2 - E0**2) ** 2 + C**2 * E**2)
            )
    return complex(float(e1), float(e2))


def gauss_eps(m, E):
    """Gaussian e2 and its exact Kramers-Kronig partner (Dawson function)."""
    from scipy.special import dawsn

    e1, e2 = float(m["Einf"]), 0.0
    for A, B, En in zip(m["Am"], m["Br"], m["En"]):
        s = B / (2 * math.sqrt(math.log(2)))
        e2 += A * (math.exp(-(((E - En) / s) ** 2)) - math.exp(-(((E + En) / s) ** 2)))
        e1 += 2 * A / math.sqrt(math.pi) * float(
            dawsn((E + En) / s) - dawsn((E - En) / s)
        )
    return complex(e1, e2)


GAUSS_PERIOD = 40 * 2048 / 2047


def gauss_eps_periodic(m, E):
    """The same with the absorption repeated every GAUSS_PERIOD eV, which is
    what a discrete Hilbert transform on [-20, 20] eV sees."""
    from scipy.special import dawsn

    x = E + GAUSS_PERIOD * np.arange(-3000, 3001)
    e = gauss_eps(m, E)
    e1 = float(m["Einf"])
    for A, B, En in zip(m["Am"], m["Br"], m["En"]):
        s = B / (2 * math.sqrt(math.log(2)))
        e1 += 2 * A / math.sqrt(math.pi) * float(
            np.sum(dawsn((x + En) / s) - dawsn((x - En) / s))
        )
    return complex(e1, e.imag)


def n_of(m, wav):
    """Complex refractive index of a material spec at wav (nm)."""
    t = m["t"]
    if t == "const":
        return complex(m["n"], m["k"])
    if t == "cauchy":
        u = wav / 1000
        return complex(m["A"] + m["B"] / u**2 + m["C"] / u**4)
    if t == "sellmeier":
        u2 = (wav / 1000) ** 2
        e = m["Einf"] + m["Am"] * u2 / (u2 - m["En"] ** 2) - m["P"] * u2
        return complex(math.sqrt(e))
    if t == "lorentz":
        return csqrt_up(lorentz_eps(m, HC / wav))
    if t == "tl":
        return csqrt_up(tl_eps_closed(m, HC / wav))
    if t == "gauss":
        return csqrt_up(gauss_eps(m, HC / wav))
    if t == "user":
        E = HC / wav
        return csqrt_up(complex(m["a"] + m["b"] * E * E, m["c"] * E))
    if t == "table":
        w = [x for x in m["um"]]
        u = wav
        xs = [x * 1000 for x in w]
        return complex(interp(u, xs, m["n"]), interp(u, xs, m["k"]))
    if t == "bundled":
        w, n, k = bundled_table(m["name"])
        return complex(interp(wav, w, n), interp(wav, w, k))
    raise KeyError(t)


# --------------------------------------------------------------------- EMA
def ema_eps(e1, e2, f2, ema, L):
    """Effective dielectric function of host e1 with a fraction f2 of e2."""
    f1 = 1 - f2
    if ema == "linear":
        return f1 * e1 + f2 * e2
    if ema == "maxwell-garnett":
        # host fields with ellipsoidal inclusions: solve
        # (e - e1)/(e1 + L (e - e1)) = f2 (e2 - e1)/(e1 + L (e2 - e1))
        q = f2 * (e2 - e1) / (e1 + L * (e2 - e1))
        return e1 * (1 + q / (1 - L * q))
    if ema == "bruggeman":
        # f1 (e1-e)/(e+L(e1-e)) + f2 (e2-e)/(e+L(e2-e)) = 0
        a = L - 1
        b = e1 * (f1 - L) + e2 * (f2 - L)
        c = L * e1 * e2
        if a == 0:
            return -c / b
        d = np.sqrt(complex(b * b - 4 * a * c))
        r1, r2 = (-b + d) / (2 * a), (-b - d) / (2 * a)
        # the passive root
        if abs(r1.imag - r2.imag) > 1e-13 * (abs(r1) + abs(r2)):
            return r1 if r1.imag > r2.imag else r2
        return r1 if r1.real > r2.real else r2
    raise KeyError(ema)


def ema_n(n1, n2, f2, ema, L):
    return csqrt_up(ema_eps(complex(n1) ** 2, complex(n2) ** 2, f2, ema, L))


# --------------------------------------------------------------- structure
def layers_of(s, wav):
    """List of (thickness A, complex n, roughness, vfsolv) in the order that
    light meets them, for a structure spec `s` at wav."""
    out = []
    for la in s["layers"]:
        if la["t"] == "slab":
            out.append([la["d"], n_of(la["m"], wav), la["r"], la["vf"]])
        else:
            n = ema_n(n_of(la["a"], wav), n_of(la["b"], wav), la["vfb"],
                      s["ema"], s["dp"])
            out.append([la["d"], n, la["r"], 0.0])
    if s.get("rev"):
        # roughness belongs to an interface, not to a slab
        r = [la[2] for la in out][1:]
        out = out[::-1]
        for la, x in zip(out, [0.0] + r[::-1]):
            la[2] = x
    if any(la[3] > 0 for la in out):
        if s.get("solvent"):
            solv = n_of(s["solvent"], wav)
        else:
            solv = out[-1][1]
        for la in out[1:-1]:
            la[1] = ema_n(la[1], solv, la[3], s["ema"], s["dp"])
    return out


# ---------------------------------------------------------------- optics
def stack_r(ns, ds, aoi, lam):
    """(r_s, r_p) by downward (Airy/Parratt) recursion in long double.

    ns complex indices (front medium first), ds thicknesses in the units of
    lam (ends ignored), aoi degrees."""
    ns = [CLD(n) for n in ns]
    ns[0] = CLD(ns[0].real)
    s = ns[0].real * np.sin(LD(aoi) * LD(np.pi) / LD(180))
    kz = []
    for n in ns:
        q = np.sqrt(n * n - s * s)
        if q.imag < 0 or (q.imag == 0 and q.real < 0):
            q = -q
        kz.append(q)
    kz[0] = CLD(ns[0].real * np.cos(LD(aoi) * LD(np.pi) / LD(180)))
    rs = rp = None
    for j in range(len(ns) - 2, -1, -1):
        fs = (kz[j] - kz[j + 1]) / (kz[j] + kz[j + 1])
        a, b = ns[j + 1] ** 2 * kz[j], ns[j] ** 2 * kz[j + 1]
        fp = (a - b) / (a + b)
        if rs is None:
            rs, rp = fs, fp
        else:
            ph = np.exp(CLD(2j) * 2 * LD(np.pi) * kz[j + 1] * LD(ds[j + 1]) / LD(lam))
            rs = (fs + rs * ph) / (1 + fs * rs * ph)
            rp = (fp + rp * ph) / (1 + fp * rp * ph)
    return complex(rs), complex(rp)


def poincare(rs, rp):
    """Unit vector of the polarisation state rho = rp/rs, Delta = -arg(rho)."""
    t = abs(rs) ** 2 + abs(rp) ** 2
    x = rp * np.conj(rs)
    return np.array(
        [(abs(rs) ** 2 - abs(rp) ** 2) / t, 2 * x.real / t, -2 * x.imag / t]
    )


def pd_vector(psi, delta):
    p, d = np.radians(psi), np.radians(delta)
    return np.array(
        [np.cos(2 * p), np.sin(2 * p) * np.cos(d), np.sin(2 * p) * np.sin(d)]
    )


def psi_delta(rs, rp):
    psi = math.degrees(math.atan2(abs(rp), abs(rs)))
    d = -math.degrees(np.angle(rp * np.conj(rs)))
    return psi, d % 360.0


def circ(a, b, period=360.0):
    d = np.fmod(np.abs(np.asarray(a, float) - np.asarray(b, float)), period)
    return np.minimum(d, period - d)
