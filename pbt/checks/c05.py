"""C05: EMF, pH and dilution conversions."""
import math

import numpy as np
from hypothesis import strategies as st

from calkulate import convert, core

from .. import gen, ref, util
from ..engine import sub


@st.composite
def points(draw):
    n = draw(st.integers(1, 6))
    kind = draw(st.sampled_from(["array", "array", "scalar", "int", "ints", "mixed"]))

    def seq(lo, hi, digits=3):
        return draw(st.lists(gen.num(lo, hi, digits), min_size=n, max_size=n))

    return dict(
        kind=kind,
        emf0=draw(st.one_of(gen.num(-500, 1000, 3), st.just(0.0), gen.num(-5, 5))),
        emf=seq(-600, 1200),
        pH=seq(-1, 14),
        temperature=seq(-2, 60, 2),
        f=seq(0.2, 5.0),
    )


def shaped(c, key):
    v = c[key]
    if c["kind"] == "scalar":
        return float(v[0])
    if c["kind"] == "int":
        return int(round(v[0]))
    if c["kind"] == "ints":  # an array of whole numbers, as read from a file
        return np.array([int(round(x)) for x in v])
    if c["kind"] == "mixed" and key == "temperature":
        return float(v[0])
    return np.array(v)


@sub("C05", "nernst", points, 6000, 200000, "every case (finite EMF, pH and temperature)")
def nernst(c):
    emf0 = c["emf0"]
    emf, pH, t, f = (shaped(c, k) for k in ("emf", "pH", "temperature", "f"))
    if c["kind"] in ("int", "ints"):
        f = np.maximum(1, f) if c["kind"] == "ints" else max(1, f)
    keep = [np.array(x, copy=True) for x in (emf, pH, t)]
    nv = ref.nernst_mV(t)
    # EMF -> [H+], pH
    lnh = (np.asarray(emf, float) - emf0) / nv
    util.close(convert.emf_to_h(emf, emf0, t), np.exp(lnh), "emf_to_h", rtol=1e-11)
    util.close(convert.emf_to_pH(emf, emf0, t), -lnh / math.log(10), "emf_to_pH", rtol=1e-11, atol=1e-11)
    # pH, [H+] -> EMF
    want = emf0 - np.asarray(pH, float) * math.log(10) * nv
    util.close(convert.pH_to_emf(pH, emf0, t), want, "pH_to_emf", rtol=1e-11, atol=1e-9)
    h = 10.0 ** -np.asarray(pH, float)
    util.close(convert.h_to_emf(h, emf0, t), want, "h_to_emf", rtol=1e-11, atol=1e-9)
    # inverses
    util.close(convert.emf_to_pH(convert.pH_to_emf(pH, emf0, t), emf0, t), np.broadcast_to(pH, np.shape(want)), "pH to EMF and back", rtol=1e-10, atol=1e-10)
    util.close(convert.pH_to_emf(convert.emf_to_pH(emf, emf0, t), emf0, t), np.broadcast_to(emf, np.shape(lnh)), "EMF to pH and back", rtol=1e-10, atol=1e-8)
    util.close(convert.h_to_emf(convert.emf_to_h(emf, emf0, t), emf0, t), np.broadcast_to(emf, np.shape(lnh)), "EMF to [H+] and back", rtol=1e-10, atol=1e-8)
    util.close(convert.emf_to_h(convert.h_to_emf(h, emf0, t), emf0, t), np.broadcast_to(h, np.shape(want)), "[H+] to EMF and back", rtol=1e-9)
    # Dickson's f
    util.close(convert.f_to_demf0(f, t), np.log(np.asarray(f, float)) * nv, "f_to_demf0", rtol=1e-11, atol=1e-12)
    util.close(
        convert.h_to_emf(h * f, emf0, t) - convert.h_to_emf(h, emf0, t),
        np.broadcast_to(convert.f_to_demf0(f, t), np.shape(want)),
        "f_to_demf0 against the EMFs", rtol=1e-8, atol=1e-8,
    )
    for a, b, w in zip((emf, pH, t), keep, ("EMF", "pH", "temperature")):
        util.close(a, b, f"input {w} after the calls", rtol=0)
    return dict(nontrivial=True, kind=c["kind"])


PY = ("TB", "TF", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3", "TH2S", "TSO4")
TOTALS = (
    "dic total_sulfate total_fluoride total_borate total_phosphate total_silicate "
    "total_ammonia total_sulfide total_alpha total_beta"
).split()


@st.composite
def mixtures(draw):
    n = draw(st.integers(1, 6))
    c = dict(
        mt=draw(st.lists(gen.num(0, 0.05, 5), min_size=n, max_size=n)),
        ma=draw(gen.num(0.01, 0.5, 4)),
        scalar=n == 1 and draw(st.booleans()),
        totals={},
        molinity=draw(gen.num(0.01, 0.5, 4)),
        prev=draw(st.one_of(st.just(0.0), gen.num(0.01, 0.5, 4))),
        factors={},
        salinity=draw(gen.num(0.5, 43, 2)),
        temperature_like=draw(gen.num(0, 40, 2)),
    )
    for k in TOTALS:
        if gen.some(draw, 0.7):
            c["totals"][k] = draw(gen.num(0, 0.05, 6))
    for k in ("sulfate", "phosphate", "fluoride"):
        if gen.some(draw, 0.5):
            c["factors"][f"titrant_total_{k}"] = draw(gen.num(0.01, 2, 3))
    return c


@sub("C05", "dilution", mixtures, 5000, 150000, "some titrant and at least two contents")
def dilution(c):
    mt = np.array(c["mt"]) if not c["scalar"] else c["mt"][0]
    ma = c["ma"]
    mix = np.asarray(mt) + ma
    util.close(convert.get_dilution_factor(mt, ma), ma / mix, "dilution factor", rtol=1e-12)
    totals = dict(c["totals"])
    before = dict(totals)

    def amounts(got, what, extra=None):
        util.check(set(got) == set(before), f"{what}: contents {sorted(got)}, expected {sorted(before)}")
        for k, v in before.items():
            moles = np.asarray(got[k]) * mix
            want = np.broadcast_to(v * ma, np.shape(mix)).astype(float)
            if extra and k in extra:
                want = want + extra[k]
            util.close(moles, want, f"{what}: amount of {k}", rtol=1e-11, atol=1e-20)

    amounts(convert.dilute_totals(totals, mt, ma), "dilute_totals")
    util.check(totals == before, "dilute_totals altered its input")
    sulfate = {"total_sulfate": np.asarray(mt) * c["molinity"]}
    amounts(convert.dilute_totals_H2SO4(totals, c["molinity"], mt, ma), "dilute_totals_H2SO4", sulfate)
    util.check(totals == before, "dilute_totals_H2SO4 altered its input")
    # PyCO2SYS-style totals
    py = {k: 1e-3 * (i + 1) for i, k in enumerate(PY)}
    others = dict(Sal=c["salinity"], PengCorrection=0.25, other=c["temperature_like"])
    py.update(others)
    keep = dict(py)
    for name, got in (
        ("dilute_totals_pyco2", convert.dilute_totals_pyco2(py, mt, ma)),
        ("dilute_totals_pyco2_H2SO4", convert.dilute_totals_pyco2_H2SO4(py, c["molinity"], mt, ma)),
    ):
        util.check(py == keep, f"{name} altered its input")
        util.check(set(got) == set(keep), f"{name}: keys {sorted(got)}")
        for k in PY:
            want = keep[k] * ma
            if k == "TSO4" and name.endswith("H2SO4"):
                want = want + np.asarray(mt) * c["molinity"]
            util.close(np.asarray(got[k]) * mix, np.broadcast_to(want, np.shape(mix)), f"{name}: amount of {k}", rtol=1e-11)
        for k, v in others.items():
            util.close(got[k], v, f"{name}: {k}", rtol=0)
    # Calkulate-style to PyCO2SYS-style
    conv = convert.totals_to_pyco2(totals, c["salinity"])
    names = dict(total_ammonia="TNH3", total_phosphate="TPO4", total_silicate="TSi", total_sulfide="TH2S", total_borate="TB", total_fluoride="TF", total_sulfate="TSO4")
    util.check(totals == before, "totals_to_pyco2 altered its input")
    util.close(conv["Sal"], c["salinity"], "totals_to_pyco2: Sal", rtol=0)
    for k, p in names.items():
        util.close(conv[p], before.get(k, 0.0), f"totals_to_pyco2: {p}", rtol=0)
    return dict(nontrivial=bool(np.max(mt) > 0 and len(before) >= 2))


@sub(
    "C05", "titrant_totals", mixtures, 5000, 150000,
    "some titrant that carries at least one buffering content",
)
def titrant_totals(c):
    """Contents brought by the titrant are added, and removed again exactly."""
    mt = np.array(c["mt"])
    ma = c["ma"]
    mix = mt + ma
    base = {k: v * ma / mix for k, v in c["totals"].items()}
    totals = {k: v.copy() for k, v in base.items()}
    mt0 = mt.copy()
    got = core.add_titrant_totals(totals, mt, ma, c["molinity"], titrant_molinity_prev=c["prev"], **c["factors"])
    for k in set(base) | {f[8:] for f in c["factors"]}:
        f = c["factors"].get("titrant_" + k, 0.0)
        want = c["totals"].get(k, 0.0) * ma + mt * (c["molinity"] - c["prev"]) * f
        util.close(np.asarray(got[k]) * mix, want, f"amount of {k}", rtol=1e-11, atol=1e-18)
    util.check(set(got) == set(base) | {f[8:] for f in c["factors"]}, f"contents {sorted(got)}")
    back = core.add_titrant_totals(got, mt, ma, c["prev"], titrant_molinity_prev=c["molinity"], **c["factors"])
    for k in back:
        util.close(np.broadcast_to(back[k], mix.shape), base.get(k, np.zeros(mix.shape)), f"{k} after removing the titrant again", rtol=1e-9, atol=1e-15)
    # default previous molinity is zero
    again = core.add_titrant_totals({k: v.copy() for k, v in base.items()}, mt, ma, c["molinity"], **c["factors"])
    for k in again:
        f = c["factors"].get("titrant_" + k, 0.0)
        want = c["totals"].get(k, 0.0) * ma + mt * c["molinity"] * f
        util.close(np.asarray(again[k]) * mix, want, f"amount of {k} (default)", rtol=1e-11, atol=1e-18)
    util.close(mt, mt0, "titrant mass after the calls", rtol=0)
    return dict(nontrivial=bool(np.max(mt) > 0 and c["factors"]))
