"""C06: how amounts and temperature are expressed does not change the result."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from calkulate import convert, density
from calkulate.read.titrations import DatData

from .. import gen, layers, ref, util
from ..engine import sub
from . import c03

# --- densities ---------------------------------------------------------------------


@st.composite
def waters(draw):
    n = draw(st.integers(1, 4))
    near = st.sampled_from([0.0, 40.0, 0.5, 43.0, 20.0, 35.0])
    return dict(
        t=draw(st.lists(st.one_of(gen.num(-2, 45, 3), near), min_size=n, max_size=n)),
        s=draw(st.lists(st.one_of(gen.num(0, 50, 3), near), min_size=n, max_size=n)),
        kind=draw(st.sampled_from(["scalar", "array", "array_t", "array_s", "default"])),
    )


@sub("C06", "seawater", waters, 4000, 100000, "every case; inside and outside the range of validity")
def seawater(c):
    t, s = np.array(c["t"]), np.array(c["s"])
    kw = dict(temperature=t, salinity=s)
    if c["kind"] == "scalar":
        kw = dict(temperature=float(t[0]), salinity=float(s[0]))
    elif c["kind"] == "array_t":
        kw["salinity"] = float(s[0])
    elif c["kind"] == "array_s":
        kw["temperature"] = float(t[0])
    elif c["kind"] == "default":
        kw = dict(temperature=float(t[0]))
    with util.caught() as w:
        got = density.seawater_1atm_MP81(**kw)
    tt, ss = np.broadcast_arrays(kw.get("temperature", 25), kw.get("salinity", 35))
    want = np.array([ref.rho_seawater(a, b) for a, b in zip(tt.ravel(), ss.ravel())]).reshape(tt.shape)
    util.close(got, want, "seawater density", rtol=1e-11)
    for what, x, lo, hi in (("temperature", tt, 0, 40), ("salinity", ss, 0.5, 43)):
        out = bool(np.any(x < lo) or np.any(x > hi))
        warned = any(what in str(i.message) for i in w)
        util.check(warned == out, f"warning about {what}: {warned}, for {x.tolist()}")
    return dict(nontrivial=True, kind=c["kind"], warned=bool(w))


@st.composite
def acids(draw):
    c = dict(
        hcl=draw(st.one_of(st.none(), gen.num(0.001, 1.5))),
        nacl=draw(st.one_of(st.none(), gen.num(0.0, 2))),
        h2so4=draw(st.one_of(gen.num(0, 4), st.sampled_from([0.05, 3.0, 0.0499, 3.0001]))),
    )
    return c


@sub("C06", "titrants", acids, 4000, 100000, "every case; defaults, HCl, HCl-NaCl and H2SO4")
def titrants(c):
    kw = {}
    if c["hcl"] is not None:
        kw["molinity_HCl"] = c["hcl"]
    if c["nacl"] is not None:
        kw["molinity_NaCl"] = c["nacl"]
    want = ref.rho_HCl_NaCl(kw.get("molinity_HCl", 0.1), kw.get("molinity_NaCl", 0.6))
    util.close(density.HCl_NaCl_25C_DSC07(**kw), want, "HCl-NaCl density", rtol=1e-11)
    with util.caught() as w:
        got = density.H2SO4_25C_EAIM(c["h2so4"])
    util.close(got, ref.rho_H2SO4(c["h2so4"]), "H2SO4 density", rtol=1e-11)
    out = c["h2so4"] < 0.05 or c["h2so4"] > 3
    util.check(bool(w) == out, f"warned about H2SO4 molinity {c['h2so4']}: {bool(w)}")
    return dict(nontrivial=True, outside=out)


# --- amount_units --------------------------------------------------------------------


@st.composite
def conversions(draw):
    n = draw(st.integers(1, 8))
    meta = dict(salinity=draw(gen.num(0.5, 43, 2)))
    meta.update(draw(gen.amounts()))
    for k in [k for k in meta if k.startswith(("titrant_total", "titrant_norm"))]:
        meta.pop(k)
    if gen.some(draw, 0.4):
        meta["temperature_override"] = draw(
            st.one_of(gen.num(1, 39, 2), st.sampled_from([0.0, 20.5]), st.integers(1, 30))
        )
    c = dict(
        meta=meta,
        amount=draw(st.lists(gen.num(0, 5, 3), min_size=n, max_size=n)),
        measurement=draw(st.lists(gen.num(-200, 700, 2), min_size=n, max_size=n)),
        temperature=draw(st.lists(gen.num(2, 38, 2), min_size=n, max_size=n)),
        int_temperature=draw(st.booleans()),
        null=draw(st.sampled_from(["absent", "none", "nan"])),
    )
    return c


@sub("C06", "amount_units", conversions, 5000, 150000, "every case; non-trivial unless all defaults")
def amount_units(c):
    meta = c["meta"]
    t = np.array(c["temperature"])
    if c["int_temperature"]:
        t = np.round(t).astype(int)
    dd = DatData(np.array(c["amount"]), np.array(c["measurement"]), t)
    keep = [np.array(x, copy=True) for x in dd]
    kw = {k: v for k, v in meta.items() if k != "salinity"}
    if "analyte_mass" not in kw and c["null"] != "absent":
        kw["analyte_mass"] = None if c["null"] == "none" else float("nan")
    with util.quiet():
        cv = convert.amount_units(dd, meta["salinity"], **kw)
    tt = t.astype(float)
    if "temperature_override" in meta:
        tt = np.full(len(t), float(meta["temperature_override"]))
    util.close(cv.temperature, tt, "temperature", rtol=0)
    util.close(cv.measurement, keep[1], "measurement", rtol=0)
    util.close(cv.salinity, meta["salinity"], "salinity", rtol=0)
    util.close(cv.titrant_mass, ref.titrant_mass_kg(c["amount"], meta), "titrant mass", rtol=1e-11)
    util.close(cv.analyte_mass, ref.analyte_mass_kg(meta, tt), "analyte mass", rtol=1e-11)
    for a, b in zip(dd, keep):
        util.close(a, b, "titration data after conversion", rtol=0)
    return dict(
        nontrivial=len(meta) > 2,
        unit=meta.get("titrant_amount_unit", "ml").lower(),
        by="mass" if "analyte_mass" in meta else "volume",
        both="analyte_mass" in meta and "analyte_volume" in meta,
    )


# --- results ---------------------------------------------------------------------------


@st.composite
def equivalents(draw):
    c = draw(gen.titrations(noise=draw(st.sampled_from([0.0, 0.1])), max_points=25))
    if not c.get("noise"):
        c.pop("noise", None)
    m = c["meta"]
    c["variant"] = draw(st.lists(st.sampled_from(["g", "kg", "ml", "density", "mass", "volume", "both", "override"]), min_size=1, max_size=3))
    c["rho"] = draw(gen.num(0.9, 1.2))
    c["wrong"] = draw(gen.num(0.5, 2.0, 2))
    c["layer"] = draw(st.sampled_from(["core", "file", "dataset"]))
    if "override" in c["variant"] and m.get("temperature_override") is None:
        c["drift"] = 0.0
    return c


def rewrite(c, r):
    """The same titration expressed differently: (metadata, amount, temperature)."""
    meta = copy.deepcopy(r.meta)
    amount, t = np.array(r.amount), np.array(r.temperature)
    for v in c["variant"]:
        mass = ref.titrant_mass_kg(amount, meta)
        tt = np.full(len(t), float(meta["temperature_override"])) if meta.get("temperature_override") is not None else t
        ma = ref.analyte_mass_kg(meta, tt)
        if v in ("g", "kg", "ml"):
            meta["titrant_amount_unit"] = v
            amount = mass / ref.titrant_mass_kg(1.0, meta)
        elif v == "density":
            meta["titrant_amount_unit"] = "ml"
            meta["titrant_density"] = c["rho"]
            amount = mass / c["rho"] * 1000
        elif v == "mass":
            meta.pop("analyte_volume", None)
            meta["analyte_mass"] = ma
        elif v == "volume":
            meta.pop("analyte_mass", None)
            meta["analyte_volume"] = ma / ref.rho_seawater(tt[0], meta["salinity"]) * 1000
        elif v == "both":
            meta["analyte_mass"] = ma
            meta["analyte_volume"] = 1000 * ma * c["wrong"]
        elif v == "override":
            if meta.get("temperature_override") is not None:
                t = tt.copy()
                meta.pop("temperature_override")
            elif np.ptp(t) == 0:
                meta["temperature_override"] = float(t[0])
                t = t + 3.7
    return meta, amount, t


def run(layer, meta, amount, measurement, temperature, molinity):
    """alkalinity, emf0, number of points, pH_init, analyte mass, titrant mass"""
    if layer == "core":
        sr = layers.core_solve(meta, amount, measurement, temperature, molinity)
    else:
        with util.scratch() as d:
            util.write_table(f"{d}/t.dat", (amount, measurement, temperature))
            if layer == "file":
                with util.quiet():
                    sr = layers.file_solve(d, "t.dat", meta, molinity)
            else:
                ds = layers.dataset_solve([dict(meta, file_name="t.dat", file_path=d, titrant_molinity=molinity)])
                row = ds.iloc[0]
                return [row["alkalinity"], row["emf0"], row["alkalinity_npts"], row["pH_init"], row["alkalinity_std"]], None
    out = [sr.alkalinity, getattr(sr, "emf0", np.nan), sr.used.sum(), np.asarray(sr.pH)[0], np.std(np.asarray(sr.alkalinity_all)[sr.used])]
    return out, (sr.titrant_mass, sr.analyte_mass)


@sub(
    "C06", "results", equivalents, 900, 30000,
    "the titration is expressed differently and its result is determinate",
)
def results(c):
    r = gen.realise(c)
    if c03.expected(r) is None:
        return {}
    meta, amount, t = rewrite(c, r)
    a, am = run(c["layer"], r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    b, bm = run(c["layer"], meta, amount, r.measurement, t, r.molinity)
    if am is not None:
        util.close(bm[0], am[0], "titrant mass", rtol=1e-9, atol=1e-15)
        util.close(bm[1], am[1], "analyte mass", rtol=1e-9)
    for what, x, y, tol in zip(
        ("alkalinity", "EMF0", "number of points", "initial pH", "standard deviation"),
        a, b, (2e-2, 2e-3, 0, 1e-4, 2e-2),
    ):
        util.close(y, x, f"{what} ({c['layer']}, {'+'.join(c['variant'])})", rtol=0, atol=tol, nan_ok=True)
    return dict(nontrivial=True, layer=c["layer"], **{v: True for v in set(c["variant"])})
