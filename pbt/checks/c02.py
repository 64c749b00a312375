"""C02: calibration is the inverse of solving."""
import copy

import numpy as np
from hypothesis import strategies as st

import calkulate as calk
from calkulate import core

from .. import gen, layers, ref, util
from ..engine import sub
from .c01 import RULE, determinate, labels, truth

MODES = ("emf", "pH", "pH_adjust", "pH_gran")
RTOL_MOLINITY = 1e-5
ATOL_ALK = 0.01


@st.composite
def cases(draw, noise=0.0, max_points=40, modes=MODES):
    c = draw(gen.titrations(modes=modes, noise=noise, max_points=max_points))
    # From a far first guess the points used may keep changing (known finding)
    if gen.some(draw, 0.4):
        c["molinity"] = draw(st.one_of(gen.num(0.03, 0.4, 5), gen.num(0.03, 0.4, 5), gen.num(0.015, 1.5, 5)))
        c["meta"]["titrant_molinity_init"] = round(c["molinity"] * draw(gen.num(0.75, 1.4)), 6)
    else:
        c["molinity"] = draw(st.one_of(gen.num(0.08, 0.12, 5), gen.num(0.07, 0.15, 5)))
    return c


def recovered(r, m, where):
    if r.mode != "pH_gran":
        util.close(m, r.molinity, f"{where}: calibrated molinity", rtol=RTOL_MOLINITY)


@sub("C02", "arrays", cases, 1000, 40000, RULE)
def arrays(case):
    r = gen.realise(case)
    if determinate(r) is None:
        return {}
    if not regular(r):
        return IRREGULAR
    m = layers.core_calibrate(r.meta, r.amount, r.measurement, r.temperature, r.alk)
    recovered(r, m, "core")
    sr = layers.core_solve(r.meta, r.amount, r.measurement, r.temperature, m)
    util.close(sr.alkalinity, r.alk, "core: alkalinity with the calibrated molinity", rtol=0, atol=ATOL_ALK)
    return labels(r)


def mask_is_stable(r, m):
    """Whether the points used stay the same near this molinity."""
    if r.mode in ("pH", "pH_gran"):
        return True
    masks = []
    for f in (0.98, 0.995, 0.999, 1.0, 1.001, 1.005, 1.02):
        try:
            ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, m * f)
        except ref.Indeterminate:
            return False
        masks.append(ex.used)
    return all(np.array_equal(masks[0], x) for x in masks)


def regular(r, spread=0.002):
    """Whether the reference model's alkalinity is a smooth, increasing function
    of the molinity between the first guess and the true one.

    It is not where points that enter or leave the window change the result a
    lot (known finding): a calibration may then depend on where it started.
    """
    if r.mode in ("pH", "pH_gran"):
        return True
    init = r.meta.get("titrant_molinity_init", 0.1)
    lo, hi = 0.98 * min(init, r.molinity), 1.03 * max(init, r.molinity)
    ms, alks = [], []
    for m in np.append(np.linspace(lo, hi, 9), [1.0002 * init, 1.01 * init, 1.0002 * r.molinity]):
        for f in (1.0, 1.0007, 0.9993):
            try:
                ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, m * f)
            except ref.Indeterminate:
                continue
            if ex.npts >= 4:
                ms.append(m * f / r.molinity)
                alks.append(ex.alkalinity / r.alk)
                break
        else:
            return False
    ms, alks = np.array(ms), np.array(alks)
    fit = np.polyfit(ms, alks, 2)
    slope = np.polyval(np.polyder(fit), [ms.min(), ms.max()])
    return bool(np.all(np.abs(np.polyval(fit, ms) - alks) < spread * alks.mean()) and np.all(slope > 0.3))


IRREGULAR = {"irregular": True}


@sub(
    "C02", "noisy", lambda: cases(noise=0.15), 700, 30000,
    RULE + " and no point enters or leaves the window near the calibrated molinity "
    "(where the alkalinity is discontinuous in molinity)",
)
def noisy(case):
    r = gen.realise(case)
    if determinate(r) is None:
        return {}
    if not mask_is_stable(r, r.molinity):
        return {"discontinuous": True}
    if not regular(r):
        return IRREGULAR
    m = layers.core_calibrate(r.meta, r.amount, r.measurement, r.temperature, r.alk)
    util.check(np.isfinite(m) and m > 0, f"core: calibrated molinity {m}")
    sr = layers.core_solve(r.meta, r.amount, r.measurement, r.temperature, m)
    if abs(sr.alkalinity - r.alk) > ATOL_ALK and not mask_is_stable(r, m):
        return {"discontinuous": True}
    util.close(sr.alkalinity, r.alk, "core: alkalinity with the calibrated molinity", rtol=0, atol=ATOL_ALK)
    try:
        ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, m)
        util.close(
            ex.alkalinity, r.alk,
            "alkalinity at the calibrated molinity by the reference model",
            rtol=0, atol=ATOL_ALK,
        )
    except ref.Indeterminate:
        pass
    return labels(r)


@sub("C02", "file", lambda: cases(noise=0.05), 350, 12000, RULE)
def one_file(case):
    case = copy.deepcopy(case)
    if case["molinity"] > 0.12:  # half of the cases are exact
        case.pop("noise", None)
        case.pop("spike", None)
    r = gen.realise(case)
    if determinate(r) is None or not mask_is_stable(r, r.molinity):
        return {}
    if not regular(r):
        return IRREGULAR
    with util.scratch() as d:
        layers.write(d, "t.dat", r)
        with util.quiet():
            m = layers.file_calibrate(d, "t.dat", r.meta, r.alk)
            sr = layers.file_solve(d, "t.dat", r.meta, m)
    if "noise" not in case:
        recovered(r, m, "file")
    if abs(sr.alkalinity - r.alk) > ATOL_ALK and not mask_is_stable(r, m):
        return {"discontinuous": True}
    util.close(sr.alkalinity, r.alk, "file: alkalinity with the calibrated molinity", rtol=0, atol=ATOL_ALK)
    return labels(r)


@st.composite
def batches(draw):
    ref_case = draw(cases(max_points=20, modes=("emf", "pH", "pH_adjust")))
    others = draw(st.lists(gen.titrations(max_points=20), max_size=2))
    for c in others:
        c["molinity"] = ref_case["molinity"]
    return dict(
        cases=[ref_case] + others,
        batch=draw(st.sampled_from([None, 0, "a", 7])),
        one_call=draw(st.booleans()),
    )


@sub("C02", "dataset", batches, 250, 8000, RULE + " for the reference titration")
def dataset(case):
    rs = [gen.realise(c) for c in case["cases"]]
    good = [determinate(r) is not None for r in rs]
    if not good[0]:
        return {}
    if not regular(rs[0]):
        return IRREGULAR
    with util.scratch() as d:
        rows = []
        for i, r in enumerate(rs):
            if r is None:
                continue
            layers.write(d, f"t{i}.dat", r)
            row = dict(r.meta, file_name=f"t{i}.dat", file_path=d)
            if case["batch"] is not None:
                row["analysis_batch"] = case["batch"]
            if i == 0:
                row["alkalinity_certified"] = r.alk
            rows.append(row)
        df = layers.frame(rows)
        with util.quiet():
            if case["one_call"]:
                df = calk.calkulate(df)
            else:
                df = calk.calibrate(df)
                df = calk.solve(df)
    k = 0
    for i, (r, ok) in enumerate(zip(rs, good)):
        if r is None:
            continue
        util.close(df["titrant_molinity"].iloc[k], rs[0].molinity, f"dataset row {k}: titrant molinity", rtol=RTOL_MOLINITY)
        if ok:
            emf0 = df["emf0"].iloc[k] if r.mode != "pH" else None
            util.close(df["alkalinity"].iloc[k], r.alk, f"dataset row {k}: alkalinity", rtol=2e-5, atol=0.01)
            if r.mode != "pH":
                util.close(emf0, r.emf0, f"dataset row {k}: EMF0", rtol=0, atol=5e-3)
        k += 1
    util.close(df["titrant_molinity_here"].iloc[0], rs[0].molinity, "dataset: titrant_molinity_here", rtol=RTOL_MOLINITY)
    return dict(nontrivial=True, samples=str(k - 1))


def snapshot(x):
    return {k: np.array(v, copy=True) for k, v in x.items()}


@sub(
    "C02", "inputs", lambda: cases(noise=0.05, max_points=20), 300, 6000,
    "at least 5 points in the window; checks the arrays and dicts handed in",
)
def inputs(case):
    """Neither operation alters the titration data, totals or constants."""
    r = gen.realise(case)
    if determinate(r) is None or not mask_is_stable(r, r.molinity):
        return {}
    if not regular(r):
        return IRREGULAR
    cv, totals, ks = layers.core_inputs(r.meta, r.amount, r.measurement, r.temperature)
    meas = cv.measurement
    meta = dict(r.meta)
    mode = r.mode
    if mode == "pH_adjust":
        meas = ref.emf_from_pH(meas, 0.0, cv.temperature)
        meta["emf0_init"] = 0.0
    arrays = [cv.titrant_mass, meas, cv.temperature]
    before = [a.copy() for a in arrays]
    tot0, ks0 = snapshot(totals), snapshot(ks)
    fname = {"emf": "emf", "pH_adjust": "emf", "pH": "pH", "pH_gran": "pH_gran"}[mode]
    keys = layers.SOLVE_EMF if fname == "emf" else layers.SOLVE_PH
    tt = layers.pick(meta, layers.TITRANT_TOTALS)
    init = layers.pick(meta, {"titrant_molinity_init"})
    cal = getattr(core, f"calibrate_{fname}")(
        r.alk, *arrays, cv.analyte_mass, totals, ks, **layers.pick(meta, keys), **tt, **init
    )
    m = float(cal["x"][0])

    def unchanged(when):
        for a, b, w in zip(arrays, before, ("titrant mass", "measurement", "temperature")):
            util.close(a, b, f"{w} after {when}", rtol=0)
        for got, want, w in ((totals, tot0, "totals"), (ks, ks0, "constants")):
            for k in want:
                util.close(got[k], want[k], f"{w} {k} after {when}", rtol=1e-10, atol=1e-15)
            for k in got:
                if k not in want:
                    util.close(got[k], np.zeros(np.shape(got[k])), f"{w} {k} after {when}", atol=1e-15)

    unchanged("calibrating")
    totals = core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, m, **tt)
    tot0 = snapshot(totals)
    sr = getattr(core, f"solve_{fname}")(
        m, *arrays, cv.analyte_mass, totals, ks, **layers.pick(meta, keys)
    )
    unchanged("solving")
    if abs(sr.alkalinity - r.alk) > ATOL_ALK and mask_is_stable(r, m):
        util.close(sr.alkalinity, r.alk, "alkalinity with the calibrated molinity", rtol=0, atol=ATOL_ALK)
    return labels(r)


# --- known finding ------------------------------------------------------------
def far_first_guess():
    """A dilute titrant (0.03 mol/kg), calibrated from the default guess of 0.1."""
    case = dict(
        alk=400.0, molinity=0.03, emf0=0.0, temperature=25.0, drift=0.0, n_out=4, n_in=12,
        start=0.0, end_pH=2.894, noise=[0.0629, -0.0692, 0.02, 0.0148], mode="emf",
        meta=dict(
            analyte_mass=0.025, salinity=35.0, titrant_amount_unit="g", dic=2702.82,
            total_sulfide=51.711, k_borate=3.981071705534969e-09, opt_k_bisulfate=2,
            opt_total_borate=2, pH_min=2.781, pH_max=4.55,
        ),
    )
    r = gen.realise(case)
    data = (r.amount, r.measurement, r.temperature)
    m = layers.core_calibrate(r.meta, *data, r.alk)
    return abs(layers.core_solve(r.meta, *data, m).alkalinity - r.alk) > 1


known_findings = {"far-first-guess": far_first_guess}
