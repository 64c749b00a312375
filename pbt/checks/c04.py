"""C04: speciation conserves mass, obeys mass action and sums to alkalinity."""
import numpy as np
from hypothesis import strategies as st

import PyCO2SYS as pyco2
from calkulate import interface, simulate

from .. import gen, ref, util
from ..engine import sub

SYSTEMS = {  # total: (constants, components by number of protons lost)
    "dic": (("k_carbonic_1", "k_carbonic_2"), ("CO2", "HCO3", "CO3")),
    "total_borate": (("k_borate",), (None, "BOH4")),
    "total_phosphate": (
        ("k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3"),
        ("H3PO4", None, "HPO4", "PO4"),
    ),
    "total_silicate": (("k_silicate",), (None, "H3SiO4")),
    "total_ammonia": (("k_ammonia",), (None, "NH3")),
    "total_sulfide": (("k_sulfide",), (None, "HS")),
    "total_sulfate": (("k_bisulfate",), ("HSO4", None)),
    "total_fluoride": (("k_fluoride",), ("HF", None)),
}
SIZES = dict(
    dic=4e-3, total_borate=1e-3, total_phosphate=1e-4, total_silicate=3e-4,
    total_ammonia=1e-4, total_sulfide=1e-4, total_sulfate=5e-2,
    total_fluoride=2e-4, total_alpha=3e-4, total_beta=3e-4,
)
PKS = dict(gen.PK, k_alpha=(2.5, 10.0), k_beta=(2.5, 10.0))
WEIGHTS = dict(
    H=-1, OH=1, HCO3=1, CO3=2, BOH4=1, HSO4=-1, HF=-1, H3PO4=-1, HPO4=1, PO4=2,
    H3SiO4=1, NH3=1, HS=1, alk_alpha=1, alk_beta=1,
)


@st.composite
def solutions(draw):
    n = draw(st.integers(1, 5))
    vec = draw(st.booleans())  # constants and totals along the titration, or scalar
    c = dict(
        pH=draw(st.lists(gen.num(-1, 14, 4), min_size=n, max_size=n)),
        scale=draw(st.sampled_from([3, 3, 1, 2])),
        scalar=n == 1 and draw(st.booleans()),
        vec=vec,
        totals={},
        pk={},
        water=not gen.some(draw, 0.1),
        default_scale=draw(st.booleans()),
    )
    for k, hi in SIZES.items():
        if gen.some(draw, 0.7):
            c["totals"][k] = [draw(gen.num(0, hi, 9)) for _ in range(n if vec else 1)]
    for k, (lo, hi) in PKS.items():
        c["pk"][k] = [draw(gen.num(lo, hi, 4)) for _ in range(n if vec else 1)]
        if k in ("k_alpha", "k_beta"):
            c["pk"][k] = [4.501 if abs(p - 4.5) < 1e-4 else p for p in c["pk"][k]]
    return c


def unpack(c):
    pH = np.array(c["pH"]) if not c["scalar"] else np.float64(c["pH"][0])

    def val(v):
        return np.array(v) if c["vec"] and not c["scalar"] else np.float64(v[0])

    totals = {k: val(v) for k, v in c["totals"].items()}
    ks = {k: 10.0 ** -val(v) for k, v in c["pk"].items()}
    if not c["water"]:
        ks.pop("k_water")
    kw = {} if c["scale"] == 3 and c["default_scale"] else {"opt_pH_scale": c["scale"]}
    return pH, totals, ks, kw


def reference_components(pH, totals, ks, scale):
    h = 10.0 ** -np.asarray(pH, dtype=float)
    out = {"H": h}
    if "k_water" in ks:
        out["OH"] = ks["k_water"] / h
    for tot, (names, comps) in SYSTEMS.items():
        if tot not in totals:
            continue
        if tot == "total_sulfate" and scale != 3:
            continue
        if tot == "total_fluoride" and scale == 2:
            continue
        for f, name in zip(ref.fractions(h, [ks[k] for k in names]), comps):
            if name:
                out[name] = totals[tot] * f
    for x in ("alpha", "beta"):
        if f"total_{x}" in totals:
            k = ks[f"k_{x}"]
            f = ref.fractions(h, [k])
            out[f"alk_{x}"] = totals[f"total_{x}"] * np.where(
                -np.log10(k) <= ref.ZLP, -f[0], f[1]
            )
    return out


@sub("C04", "components", solutions, 6000, 200000, "at least two acid-base systems present")
def components(c):
    pH, totals, ks, kw = unpack(c)
    before = {k: np.array(v, copy=True) for k, v in {**totals, **ks}.items()}
    got = simulate.alkalinity_components(pH, totals, ks, **kw)
    want = reference_components(pH, totals, ks, c["scale"])
    shape = np.shape(pH)
    for k, w in want.items():
        util.check(k in got, f"component {k} is missing")
        # differences of nearly equal numbers lose digits in alk_alpha / beta
        atol = 1e-18 if k.startswith("alk_") else 1e-30
        util.close(np.broadcast_to(got[k], shape), np.broadcast_to(w, shape), f"component {k}", rtol=1e-9, atol=atol)
    for k in got:
        util.check(k in want, f"unexpected component {k}")
    # mass action and conservation among the reported components themselves
    h = np.asarray(got["H"])
    if "dic" in totals:
        util.close(got["CO2"] + got["HCO3"] + got["CO3"], np.broadcast_to(totals["dic"], shape), "sum of DIC components", rtol=1e-9, atol=1e-30)
        util.close(got["HCO3"] * h, np.broadcast_to(ks["k_carbonic_1"] * got["CO2"], shape), "first carbonic equilibrium", rtol=1e-9, atol=1e-60)
        util.close(got["CO3"] * h, np.broadcast_to(ks["k_carbonic_2"] * got["HCO3"], shape), "second carbonic equilibrium", rtol=1e-9, atol=1e-60)
    for k, v in {**totals, **ks}.items():
        util.close(v, before[k], f"input {k} after the call", rtol=0)
    return dict(nontrivial=len(totals) >= 2, scale=str(c["scale"]), scalar=c["scalar"])


@sub("C04", "alkalinity", solutions, 6000, 200000, "at least two acid-base systems present")
def alkalinity(c):
    pH, totals, ks, kw = unpack(c)
    got = simulate.alkalinity(pH, totals, ks, **kw)
    comp = reference_components(pH, totals, ks, c["scale"])
    shape = np.shape(pH)
    parts = [np.broadcast_to(v * WEIGHTS[k], shape) for k, v in comp.items() if k != "CO2"]
    want = np.sum(parts, axis=0)
    size = np.sum(np.abs(parts), axis=0)
    util.check(np.shape(got) == shape, f"alkalinity: shape {np.shape(got)}, expected {shape}")
    util.close(got, want, "alkalinity", rtol=1e-9, atol=1e-12 * float(np.max(size)) + 1e-18)
    # rises with pH
    up = simulate.alkalinity(pH + 0.01, totals, ks, **kw)
    util.check(np.all(np.asarray(up) > np.asarray(got)), "alkalinity does not rise with pH")
    return dict(nontrivial=len(totals) >= 2, scale=str(c["scale"]))


@st.composite
def seawaters(draw):
    m = draw(gen.chemistry())
    for k in gen.PK:
        m.pop(k, None)
    m.pop("dilute_totals_for_ks", None)
    n = draw(st.integers(2, 12))
    return dict(
        meta=m,
        pH=draw(st.lists(gen.num(2.5, 9.5, 3), min_size=n, max_size=n)),
        temperature=draw(st.lists(gen.num(2, 39, 2), min_size=n, max_size=n)),
        scale=draw(st.sampled_from([3, 1, 2])),
    )


@sub(
    "C04", "pyco2sys", seawaters, 250, 8000,
    "non-zero DIC or borate; all points compared with PyCO2SYS's own speciation",
)
def vs_pyco2(c):
    m = c["meta"]
    if m.get("salinity", 35) == 0 and c["scale"] != 3:
        return {}
    keys_t = ("dic total_alpha total_beta total_ammonia total_phosphate total_silicate total_sulfide total_borate total_fluoride total_sulfate opt_k_carbonic opt_total_borate").split()
    totals, tp = interface.get_totals(m["salinity"], **{k: m[k] for k in keys_t if k in m})
    pH, t = np.array(c["pH"]), np.array(c["temperature"])
    kk = {k: m[k] for k in ("opt_k_bisulfate", "opt_k_carbonic", "opt_k_fluoride", "k_alpha", "k_beta") if k in m}
    ks = interface.get_k_constants(tp, t, opt_pH_scale=c["scale"], **kk)
    got = simulate.alkalinity(pH, totals, ks, opt_pH_scale=c["scale"])
    comp = simulate.alkalinity_components(pH, totals, ks, opt_pH_scale=c["scale"])
    kw = {k: v for k, v in m.items() if k.startswith(("total_", "opt_", "k_"))}
    for k, v in ref.OPT_DEFAULTS.items():
        kw.setdefault(k, v)
    with util.quiet():
        r = pyco2.sys(
            m.get("dic", 0.0), pH, 2, 3, salinity=m["salinity"], temperature=t,
            opt_pH_scale=c["scale"], opt_gas_constant=3, **kw,
        )
    # On the other scales PyCO2SYS takes [HSO4-] and [HF] as proportional to
    # [H+], which is only accurate at high pH
    ok = pH >= (-9 if c["scale"] == 3 else 6)
    util.close((got * 1e6)[ok], r["alkalinity"][ok], "alkalinity against PyCO2SYS", rtol=1e-9, atol=1e-5 if c["scale"] == 3 else 1e-3)
    for k in comp:
        if k in ("H", "HSO4", "HF") or k.startswith("alk_"):
            continue
        util.close(np.asarray(comp[k]) * 1e6, np.broadcast_to(r[k], pH.shape), f"{k} against PyCO2SYS", rtol=1e-8, atol=1e-9)
    if c["scale"] == 3:
        for k in ("HSO4", "HF"):
            util.close(np.asarray(comp[k]) * 1e6, np.broadcast_to(r[k], pH.shape), f"{k} against PyCO2SYS", rtol=1e-8, atol=1e-9)
    return dict(nontrivial=bool(m.get("dic", 0) or m["salinity"]), scale=str(c["scale"]))
