"""Compare reported results with the reference model's."""
import numpy as np

from . import ref, util
from .engine import Violation

ATOL_ALK = 0.01
ATOL_EMF0 = 2e-3


def loose(ex):
    """Widest distances from the best fit, in umol/kg and mV."""
    std = 0.02 * float(ex.std)
    return 0.3 + std, 0.03 + 0.1 * std


def arr(x):
    return np.asarray(x, dtype=float)


def best_fit(alkalinity, emf0, ex, where):
    """The reported solution is the least-squares best fit, to within the
    documented solver's standard tolerance (gradient 1e-8 in mol/kg and V), and
    never far off relative to the scatter of the estimates."""
    alkalinity, emf0 = float(alkalinity), float(emf0)
    if abs(alkalinity - ex.alkalinity) <= ATOL_ALK and abs(emf0 - ex.emf0) <= ATOL_EMF0:
        return
    loose_alk, loose_emf0 = loose(ex)
    if (
        ex.gradient is not None
        and abs(alkalinity - ex.alkalinity) <= loose_alk
        and abs(emf0 - ex.emf0) <= loose_emf0
        and np.max(np.abs(ex.gradient(alkalinity * 1e-6, emf0)) * [1, 1e3]) <= 2e-8
    ):
        return
    util.close(alkalinity, ex.alkalinity, f"{where}: best-fit alkalinity", rtol=0, atol=ATOL_ALK)
    util.close(emf0, ex.emf0, f"{where}: best-fit EMF0", rtol=0, atol=ATOL_EMF0)


def core_result(sr, ex, where="core", gran=True):
    """Check a Solve*Result against an Expected."""
    mix = ex.mix
    util.equal_masks(sr.used, ex.used, f"{where}: points used")
    util.close(arr(sr.titrant_mass), mix.mt, f"{where}: titrant mass", rtol=1e-9)
    util.close(sr.analyte_mass, mix.ma, f"{where}: analyte mass", rtol=1e-9)
    util.close(arr(sr.temperature), mix.temperature, f"{where}: temperature", rtol=1e-12)
    util.close(sr.titrant_molinity, mix.molinity, f"{where}: titrant molinity", rtol=1e-12)
    model(sr, mix, where)
    if ex.mode == "ph_gran":
        util.close(sr.alkalinity, ex.alkalinity, f"{where}: Gran alkalinity", rtol=1e-8)
        util.close(arr(sr.gfunc), ex.gfunc, f"{where}: Gran function", rtol=1e-9)
        util.close(arr(sr.pH), ex.pH, f"{where}: pH", rtol=1e-12)
        return
    used = ex.used
    if ex.mode == "ph":
        util.close(sr.alkalinity, ex.alkalinity, f"{where}: mean alkalinity", rtol=1e-8, atol=1e-6)
        util.close(arr(sr.alkalinity_all), ex.all, f"{where}: alkalinity of every point", rtol=1e-8, atol=1e-5)
        util.close(sr.alkalinity_std, ex.std, f"{where}: standard deviation", rtol=1e-6, atol=1e-5)
        util.close(arr(sr.pH), ex.pH, f"{where}: pH", rtol=1e-12)
        return
    util.close(arr(sr.emf), ex.emf, f"{where}: EMF", rtol=1e-11, atol=1e-9)
    best_fit(sr.alkalinity, sr.emf0, ex, where)
    # Everything else must follow from the reported solution
    pH = ref.pH_from_emf(ex.emf, float(sr.emf0), mix.temperature)
    util.close(arr(sr.pH), pH, f"{where}: pH from the solved EMF0", rtol=1e-9, atol=1e-9)
    every = mix.alkalinity_points(pH)
    util.close(arr(sr.alkalinity_all), every, f"{where}: alkalinity of every point", rtol=1e-7, atol=1e-5)
    dev = np.std(every[used])
    dev_mix = np.std((every - sr.alkalinity)[used] * mix.dil[used])
    got = float(sr.alkalinity_std)
    if not any(abs(got - w) <= 1e-6 * w + 1e-5 for w in (dev, dev_mix)):
        raise Violation(
            f"{where}: standard deviation: got {got!r}, expected {dev!r} "
            f"(or {dev_mix!r} in the mixture)"
        )
    if gran:
        gran_result(sr.ggr, ex.gran, where)


def model(sr, mix, where):
    """The contents and constants that come with a result."""
    for k, v in mix.tot.items():
        got = np.broadcast_to(arr(sr.totals.get(k, 0.0)), mix.mt.shape)
        util.close(got, np.broadcast_to(v, mix.mt.shape), f"{where}: {k}", rtol=1e-9, atol=1e-18)
    for k, v in mix.ks.items():
        util.check(k in sr.k_constants, f"{where}: no constant {k}")
        util.close(np.broadcast_to(arr(sr.k_constants[k]), mix.mt.shape), v, f"{where}: {k}", rtol=1e-8)


def gran_result(ggr, g, where="core"):
    util.close(arr(ggr.gfunc), g.gfunc, f"{where}: Gran function", rtol=1e-9)
    util.equal_masks(ggr.used, g.used, f"{where}: points used for the Gran fit")
    util.close(ggr.alkalinity, g.alkalinity, f"{where}: Gran alkalinity", rtol=1e-7, atol=1e-12)
    util.close(ggr.intercept_x, g.intercept_x, f"{where}: Gran intercept", rtol=1e-7, atol=1e-12)
    util.close(ggr.emf0, g.emf0, f"{where}: Gran EMF0", rtol=1e-9, atol=1e-6, nan_ok=True)
    util.close(arr(ggr.emf0s)[g.used], g.emf0s[g.used], f"{where}: Gran EMF0 of each point", rtol=1e-9, atol=1e-5, nan_ok=True)
    if np.isfinite(g.emf0):
        util.close(arr(ggr.pH), g.pH, f"{where}: Gran pH", rtol=1e-9, atol=1e-7)


def dataset_row(row, ex, where="dataset"):
    """Check the results in a dataset row against an Expected."""
    util.close(row["alkalinity_npts"], ex.npts, f"{where}: number of points")
    util.close(row["temperature_init"], ex.mix.temperature[0], f"{where}: initial temperature", rtol=1e-12)
    if ex.mode == "ph_gran":
        util.close(row["alkalinity"], ex.alkalinity, f"{where}: alkalinity", rtol=1e-8)
        util.close(row["pH_init"], ex.pH[0], f"{where}: initial pH", rtol=1e-12)
    elif ex.mode == "ph":
        util.close(row["alkalinity"], ex.alkalinity, f"{where}: alkalinity", rtol=1e-8, atol=1e-6)
        util.close(row["alkalinity_std"], ex.std, f"{where}: standard deviation", rtol=1e-6, atol=1e-5)
        util.close(row["pH_init"], ex.pH[0], f"{where}: initial pH", rtol=1e-12)
    else:
        best_fit(row["alkalinity"], row["emf0"], ex, where)
        pH = ref.pH_from_emf(ex.emf, float(row["emf0"]), ex.mix.temperature)
        util.close(row["pH_init"], pH[0], f"{where}: initial pH", rtol=1e-9, atol=1e-9)
        every = ex.mix.alkalinity_points(pH)
        util.close(row["alkalinity_std"], np.std(every[ex.used]), f"{where}: standard deviation", rtol=1e-6, atol=1e-5)
        util.close(row["gran_alkalinity"], ex.gran.alkalinity * 1e6, f"{where}: Gran alkalinity", rtol=1e-7, atol=1e-6)
        util.close(row["gran_emf0"], ex.gran.emf0, f"{where}: Gran EMF0", rtol=1e-9, atol=1e-6)
        return
    for k in ("emf0", "gran_alkalinity", "gran_emf0"):
        if not np.isnan(float(row[k])):
            raise Violation(f"{where}: {k} is {row[k]!r} in {ex.mode} mode")
