"""Run Calkulate's three layers on a generated titration."""
import os
import zlib

import numpy as np
import pandas as pd

import calkulate as calk
from calkulate import convert, core, files
from calkulate.read.titrations import DatData

from . import util

AMOUNT = {
    "analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl",
    "molinity_NaCl", "temperature_override", "titrant_amount_unit",
    "titrant_density", "titrant",
}
TITRANT_TOTALS = {"titrant_total_sulfate", "titrant_total_phosphate", "titrant_total_fluoride"}
SOLVE_PH = {"pH_min", "pH_max", "titrant_normality"}
SOLVE_EMF = SOLVE_PH | {"alkalinity_init", "double", "emf0_init", "gran_logic"}
NOT_TK = AMOUNT | TITRANT_TOTALS | SOLVE_EMF | {"salinity", "solve_mode", "titrant_molinity_init"}


def pick(meta, keys):
    return {k: v for k, v in meta.items() if k in keys}


def core_inputs(meta, amount, measurement, temperature):
    dd = DatData(np.array(amount), np.array(measurement), np.array(temperature))
    cv = convert.amount_units(dd, meta["salinity"], **pick(meta, AMOUNT))
    tk = {k: v for k, v in meta.items() if k not in NOT_TK}
    totals, ks = core.totals_ks(cv, **tk)
    return cv, totals, ks


def core_solve(meta, amount, measurement, temperature, molinity):
    cv, totals, ks = core_inputs(meta, amount, measurement, temperature)
    totals = core.add_titrant_totals(
        totals, cv.titrant_mass, cv.analyte_mass, molinity,
        **pick(meta, TITRANT_TOTALS),
    )
    mode = meta.get("solve_mode", "emf").lower()
    args = [cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks]
    if mode == "emf":
        return core.solve_emf(molinity, *args, **pick(meta, SOLVE_EMF))
    if mode == "ph_adjust":
        args[1] = convert.pH_to_emf(cv.measurement, 0, cv.temperature)
        kw = dict(pick(meta, SOLVE_EMF), emf0_init=0)
        return core.solve_emf(molinity, *args, **kw)
    if mode == "ph":
        return core.solve_pH(molinity, *args, **pick(meta, SOLVE_PH))
    return core.solve_pH_gran(molinity, *args, **pick(meta, SOLVE_PH))


def core_calibrate(meta, amount, measurement, temperature, certified):
    cv, totals, ks = core_inputs(meta, amount, measurement, temperature)
    mode = meta.get("solve_mode", "emf").lower()
    args = [cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks]
    kw = pick(meta, TITRANT_TOTALS | {"titrant_molinity_init"})
    if mode == "emf":
        r = core.calibrate_emf(certified, *args, **kw, **pick(meta, SOLVE_EMF))
    elif mode == "ph_adjust":
        args[1] = convert.pH_to_emf(cv.measurement, 0, cv.temperature)
        r = core.calibrate_emf(
            certified, *args, **kw, **dict(pick(meta, SOLVE_EMF), emf0_init=0)
        )
    elif mode == "ph":
        r = core.calibrate_pH(certified, *args, **kw, **pick(meta, SOLVE_PH))
    else:
        r = core.calibrate_pH_gran(certified, *args, **kw, **pick(meta, SOLVE_PH))
    return float(r["x"][0])


def write(d, name, r):
    path = os.path.join(d, name)
    util.write_table(path, (r.amount, r.measurement, r.temperature))
    return path


def file_solve(d, name, meta, molinity):
    kw = {k: v for k, v in meta.items() if k not in ("salinity", "titrant_molinity_init")}
    return files.solve(os.path.join(d, name), molinity, meta["salinity"], **kw)


def file_calibrate(d, name, meta, certified):
    kw = {k: v for k, v in meta.items() if k != "salinity"}
    return float(
        files.calibrate(os.path.join(d, name), certified, meta["salinity"], **kw)["x"][0]
    )


def frame(rows, index=None):
    """A DataFrame from a list of dicts; keys absent from a row become NaN."""
    cols = []
    for row in rows:
        for k in row:
            if k not in cols:
                cols.append(k)
    data = {k: [row.get(k, np.nan) for row in rows] for k in cols}
    for k in data:  # keep booleans usable
        if any(isinstance(v, (bool, str)) for v in data[k]):
            data[k] = pd.Series(data[k], dtype=object)
            if index is not None:
                data[k].index = index
    df = pd.DataFrame(data, index=index)
    return df


def run_dataset(name, df, kwargs):
    """By function or by method, whichever the data happen to select."""
    with util.quiet():
        if zlib.crc32(repr(df.drop(columns="file_path", errors="ignore").to_dict("list")).encode()) & 1:
            df = calk.Dataset(df)
            return getattr(df, name)(**kwargs)
        return getattr(calk, name)(df, **kwargs)


def dataset_solve(rows, index=None, **kwargs):
    return run_dataset("solve", frame(rows, index=index), kwargs)


def dataset_calibrate(rows, index=None, **kwargs):
    return run_dataset("calibrate", frame(rows, index=index), kwargs)
