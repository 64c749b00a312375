"""C01: ideal titrations return the alkalinity and EMF0 they were made with."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, layers, ref, util
from ..engine import sub

ATOL_ALK = 0.01  # umol/kg; the solver's own convergence leaves < 1e-3
ATOL_EMF0 = 2e-3  # mV

RULE = "at least 5 points in the pH window, all of the solver's choices determinate"


def determinate(r):
    """The reference result, or None where a yes/no choice is within rounding."""
    if r is None or ((r.pH >= r.lo) & (r.pH <= r.hi)).sum() < 5:
        return None
    try:
        return ref.process(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    except ref.Indeterminate:
        return None


def truth(r, alkalinity, emf0, where):
    util.close(alkalinity, r.alk, f"{where}: alkalinity", rtol=0, atol=ATOL_ALK)
    if r.mode == "pH_adjust":
        util.close(emf0, r.emf0, f"{where}: EMF0 adjustment", rtol=0, atol=ATOL_EMF0)
    elif r.mode == "emf":
        util.close(emf0, r.emf0, f"{where}: EMF0", rtol=0, atol=ATOL_EMF0)


def labels(r, **extra):
    t = r.meta.get("titrant", "HCl").upper()
    for k in r.meta:
        if k.startswith("titrant_total_") and t == "HCL":
            t = "acid with " + k[14:]
    return dict(mode=r.mode, titrant=t, nontrivial=True, **extra)


@sub("C01", "arrays", gen.titrations, 1600, 60000, RULE)
def arrays(case):
    r = gen.realise(case)
    if determinate(r) is None:
        return {}
    sr = layers.core_solve(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    truth(r, sr.alkalinity, getattr(sr, "emf0", None), "core")
    util.check(sr.alkalinity_std < 0.01, f"core: standard deviation {sr.alkalinity_std} of an ideal titration")
    ok = np.asarray(r.pH) < 6
    util.close(np.asarray(sr.pH)[ok], r.pH[ok], "core: pH", rtol=0, atol=1e-4)
    util.close(np.asarray(sr.alkalinity_all)[ok], np.full(ok.sum(), r.alk), "core: alkalinity of every point", rtol=0, atol=0.5)
    return labels(r)


@sub("C01", "file", gen.titrations, 600, 20000, RULE)
def one_file(case):
    r = gen.realise(case)
    if determinate(r) is None:
        return {}
    with util.scratch() as d:
        layers.write(d, "t.dat", r)
        with util.quiet():
            sr = layers.file_solve(d, "t.dat", r.meta, r.molinity)
    truth(r, sr.alkalinity, getattr(sr, "emf0", None), "file")
    return labels(r)


@sub(
    "C01", "dataset",
    lambda: st.lists(gen.titrations(max_points=20), min_size=1, max_size=4),
    500, 15000, RULE + " for at least one titration",
)
def dataset(cases):
    rs = [gen.realise(c) for c in cases]
    rs = [r for r in rs if r is not None]
    good = [determinate(r) is not None for r in rs]
    if not any(good):
        return {}
    with util.scratch() as d:
        rows = []
        for i, r in enumerate(rs):
            layers.write(d, f"t{i}.dat", r)
            rows.append(dict(r.meta, file_name=f"t{i}.dat", file_path=d, titrant_molinity=r.molinity))
        ds = layers.dataset_solve(rows)
    for i, (r, ok) in enumerate(zip(rs, good)):
        if ok:
            truth(r, ds["alkalinity"].iloc[i], ds["emf0"].iloc[i] if r.mode != "pH" else None, f"dataset row {i}")
    return dict(nontrivial=True, rows=str(len(rs)))
