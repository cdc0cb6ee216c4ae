"""C05: a structure is exactly the sequence of layers it was built from."""

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..build import require
from ..core import Reject, Sub, Violation

from refellips import RI, MixedSlabSE, ReflectModelSE, SlabSE, StructureSE

RULE = (
    "a history of 2-14 building operations (append, |=, |, extend, insert, pop, "
    "delete, replace, repeat with *, using a layer twice, a structure combined with itself or with up to 60 layers, changing layers) applied to a "
    "structure and to a list model; non-trivial if the final structure has at "
    "least 3 layers and at least two kinds of operation were used"
)
ASSUMPTIONS = ["operations whose result is not documented (| discarding the "
               "settings of a structure) are only judged on the layers"]


def table(layers, s, w):
    return np.array(
        [[d, n.real, n.imag, r, v]
         for d, n, r, v in ref.layers_of(dict(s, layers=layers), w)]
    )


def verify(stt, layers, s, w, what):
    require(len(stt) == len(layers),
            f"{what}: {len(stt)} components, expected {len(layers)}")
    if not layers:
        require(stt.slabs() is None, f"{what}: slabs of an empty structure")
        return
    if layers[0]["t"] != "slab" or layers[-1]["t"] != "slab":
        try:
            x = stt.slabs(wavelength=w)
        except ValueError:
            return
        raise Violation(f"{what}: ends aren't slabs, but slabs() gave {x!r}")
    t = build.arr(stt.slabs(wavelength=w), (len(layers), 5), f"{what}: slabs")
    build.close(t, table(layers, s, w), 1e-9, 1e-10, f"{what}: slabs at {w} nm")


def as_slab(la, m, how):
    """A slab made from a scatterer."""
    if how == 0:
        return m(la["d"], la["r"], la["vf"])
    if how == 1:
        return m(thick=la["d"], rough=la["r"], vfsolv=la["vf"])
    return SlabSE(la["d"], m, la["r"], vfsolv=la["vf"])


def make(la, how):
    if la["t"] == "slab":
        return as_slab(la, build.material(la["m"]), how)
    return build.component(la)


def bad_object(i):
    from refnx.reflect import SLD

    return ["not a component", 3.0, None, SLD(1.0), SLD(1.0)(10, 3),
            [RI([1.5, 0])(10)], np.ones(5), RI, (1.5, 0.0), {}][i % 10]


def refused(stt, bad):
    yield "append", lambda: stt.append(bad)
    yield "|=", lambda: stt.__ior__(bad)
    yield "structure |", lambda: stt | bad
    yield "slab |", lambda: SlabSE(10, RI([1.5, 0]), 0) | bad
    yield "SlabSE", lambda: SlabSE(10, bad, 0)


def bare(la):
    return {"t": "slab", "m": la["m"], "d": 0.0, "r": 0.0, "vf": 0.0}


def check(case):
    s = case["s"]
    stt = StructureSE(
        [make(la, 2) for la in s["layers"]], ema=s["ema"],
        depolarisation_factor=s["dp"],
    )
    # the model: a list of dicts, the same dict where the same layer is used
    layers = [dict(la) for la in s["layers"]]
    used = set()
    w = case["w"]
    for o in case["ops"]:
        op, how, i = o["op"], o["how"], o["i"]
        la, lb = dict(o["la"]), dict(o["lb"])
        used.add(op)
        n = len(layers)
        if op == "append":
            stt.append(make(la, how))
            layers.append(la)
        elif op == "append_ri":
            if la["t"] != "slab":
                continue
            stt.append(build.material(la["m"]))
            layers.append(bare(la))
        elif op == "ior":
            r = stt
            stt |= make(la, how)
            require(stt is r, "|= made a new structure")
            layers.append(la)
        elif op == "ior_ri":
            if la["t"] != "slab":
                continue
            stt |= build.material(la["m"])
            layers.append(bare(la))
        elif op == "ior_struct":
            other = StructureSE([make(la, how), make(lb, 0)])
            stt |= other
            layers += [la, lb]
            require(len(other) == 2, "|= changed its right operand")
        elif op == "or":
            before = stt
            nb = len(before)
            new = stt | make(la, how)
            require(isinstance(new, StructureSE), f"| gave {type(new)}")
            require(len(before) == nb, "| changed its left operand")
            new.ema, new.depolarisation_factor = s["ema"], s["dp"]
            stt = new
            layers.append(la)
        elif op == "or_struct":
            other = make(la, how) | make(lb, 0)
            new = stt | other
            require(len(other) == 2, "| changed its right operand")
            new.ema, new.depolarisation_factor = s["ema"], s["dp"]
            stt = new
            layers = layers + [la, lb]
        elif op == "mul":
            k = i % 4
            comp = make(la, how)
            prod = comp * k
            if k == 0:
                require(isinstance(prod, StructureSE) and len(prod) == 0,
                        "component * 0")
            elif k == 1:
                require(prod is comp, "component * 1")
            stt |= prod
            layers += [la] * k
        elif op == "insert":
            stt.insert(i % (n + 1), make(la, how))
            layers.insert(i % (n + 1), la)
        elif op == "pop":
            if n:
                stt.pop(i % n)
                layers.pop(i % n)
        elif op == "del":
            if n:
                del stt[i % n]
                del layers[i % n]
        elif op == "set":
            if n:
                stt[i % n] = make(la, how)
                layers[i % n] = la
        elif op == "extend":
            stt.extend([make(la, how), make(lb, 0)])
            layers += [la, lb]
        elif op == "again":
            # a layer that is already part of the structure
            if n:
                stt.append(stt[i % n])
                layers.append(layers[i % n])
        elif op == "own_ri":
            # the material of a layer that is already part of the structure
            if n and layers[i % n]["t"] == "slab":
                ri = stt[i % n].ri
                if how == 0:
                    stt.append(ri)
                elif how == 1:
                    stt |= ri
                else:
                    stt = stt | ri
                    stt.ema, stt.depolarisation_factor = s["ema"], s["dp"]
                layers.append(bare(layers[i % n]))
        elif op == "many":
            # a multilayer: many repeats, joined as one structure
            if n < 120:
                k = 5 * i + o["how"] + 2
                other = (make(la, how) | make(lb, 0)) if i % 2 else None
                if other is None:
                    stt |= make(la, how) * k
                    layers = layers + [la] * k
                else:
                    for _ in range(k - 1):
                        other |= make(la, how)
                    new = [la, lb] + [la] * (k - 1)
                    require(len(other) == len(new), "layers of a multilayer")
                    if o["how"] == 2:
                        stt = stt | other
                        stt.ema, stt.depolarisation_factor = s["ema"], s["dp"]
                    else:
                        stt |= other
                    # each was a new object, to be changed independently
                    layers = layers + [la, lb] + [dict(la) for _ in range(k - 1)]
        elif op == "double":
            # a structure combined with itself
            if n and n < 12 * (1 + 10 * (i % 2)):
                stt |= stt
                layers = layers + layers
        elif op == "thick":
            if n:
                stt[i % n].thick.value = la["d"]
                layers[i % n]["d"] = la["d"]
        elif op == "rough":
            if n:
                stt[i % n].rough.value = la["r"]
                layers[i % n]["r"] = la["r"]
        elif op == "vf":
            if n:
                v = 0.25 + 0.05 * (i % 7)
                if layers[i % n]["t"] == "slab":
                    stt[i % n].vfsolv.value = v
                    layers[i % n]["vf"] = v
                else:
                    stt[i % n].vf_B.value = v
                    layers[i % n]["vfb"] = v
        elif op == "bad":
            before = list(stt)
            for what, f in refused(stt, bad_object(i)):
                try:
                    f()
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"{what} accepted {bad_object(i)!r}")
                require(len(stt) == len(before)
                        and all(a is b for a, b in zip(stt, before)),
                        f"{what} refused an object but changed the structure")
        verify(stt, layers, s, w, op)
    verify(stt, layers, s, case["w2"], "end of history")
    # no settings, no wavelength: the scatterers' own default wavelength
    return dict(nontrivial=len(layers) >= 3 and len(used) >= 2,
                labels=sorted(used))


OPS = ["append", "append_ri", "ior", "ior_ri", "ior_struct", "or", "or_struct",
       "mul", "insert", "pop", "del", "set", "extend", "again", "own_ri", "own_ri",
       "double", "many", "thick", "thick", "rough", "vf", "bad"]


@st.composite
def strat(draw):
    mat = st.one_of(gen.const, gen.transparent, gen.dispersive_material, gen.bundled)
    lay = st.one_of(gen.slab(mat), gen.slab(mat), gen.mixed(mat))
    n0 = draw(st.integers(0, 4))
    s = {"layers": [draw(lay) for _ in range(n0)],
         "ema": draw(st.sampled_from(gen.EMAS)),
         "dp": draw(st.one_of(st.just(1 / 3), gen.uni(0.02, 0.95, 3))),
         "rev": False, "solvent": None}
    ops = [
        {"op": draw(st.sampled_from(OPS)), "la": draw(lay), "lb": draw(lay),
         "how": draw(st.integers(0, 2)), "i": draw(st.integers(0, 11))}
        for _ in range(draw(st.integers(2, 14)))
    ]
    return {"s": s, "ops": ops, "w": draw(gen.wavelengths),
            "w2": draw(gen.wavelengths)}


SUBS = [Sub("history", strat, check, quick=1000)]
