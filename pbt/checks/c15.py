"""C15: physically equivalent titrations give equivalent results."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import expect, gen, layers, ref, util
from ..engine import sub
from .c02 import mask_is_stable, regular

MODES = ("emf", "emf", "pH", "pH_adjust", "pH_gran")
RULE = (
    "the change is not the identity, at least 3 points are in the window, none "
    "of them within 2e-4 pH of its edges, and the fit is well conditioned"
)


@st.composite
def cases(draw, max_points=24):
    c = draw(
        gen.titrations(
            modes=MODES, noise=draw(st.sampled_from([0.01, 0.3, 2.0])), max_points=max_points
        )
    )
    kinds = ["scale", "normality", "trim"]
    if c["mode"] == "emf":
        kinds = ["offset", "offset"] + kinds
    k = draw(st.sampled_from(kinds))
    c["kind"] = k
    if k == "offset":
        c["by"] = draw(st.one_of(gen.num(-900, 900, 3), gen.num(-5, 5, 3)))
    elif k == "trim":
        c["by"] = draw(st.integers(1, 12))
        # the analyte's mass may not come from the first point's temperature
        v = c["meta"].pop("analyte_volume", None)
        if v is not None and "analyte_mass" not in c["meta"]:
            c["meta"]["analyte_mass"] = round(v * 1e-3, 6)
    else:
        c["by"] = draw(
            st.one_of(
                st.sampled_from([2.0, 0.5, 3.0]), gen.num(0.3, 4, 3), gen.num(0.3, 4, 3),
                st.sampled_from([0.001, 0.01, 0.1, 10.0, 100.0, 1000.0]) if k == "scale" else st.sampled_from([0.1, 10.0]),
            )
        )
    c["layer"] = draw(st.sampled_from(["core", "file", "dataset"]))
    return c


def expected(r):
    if r is None:
        return None
    try:
        ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    except ref.Indeterminate:
        return None
    return ex if ex.npts >= 3 else None


def transform(c, r, ex):
    """The related titration, and how many early points it lacks."""
    q = copy.copy(r)
    q.meta = dict(r.meta)
    k, by = c["kind"], c["by"]
    cut = 0
    if k == "offset":
        q.measurement = r.measurement + by
        if "emf0_init" in q.meta:
            q.meta["emf0_init"] += by
    elif k == "scale":
        q.amount = np.asarray(r.amount) * by
        for x in ("analyte_mass", "analyte_volume"):
            if x in q.meta:
                q.meta[x] *= by
    elif k == "normality":
        q.molinity = r.molinity / by
        q.meta["titrant_normality"] = float(r.meta.get("titrant_normality", 1)) * by
        for x in layers.TITRANT_TOTALS:
            if x in q.meta:
                q.meta[x] *= by
        q.meta["titrant_molinity_init"] = float(r.meta.get("titrant_molinity_init", 0.1)) / by
    else:
        keep = ex.used.copy()
        if ex.gran is not None:
            keep |= ex.gran.used
            # the points of the first pass as well
            lo, hi = r.meta.get("pH_min", 3), r.meta.get("pH_max", 4)
            g = ex.gran.pH
            if r.mode == "pH_adjust":
                g = np.asarray(r.measurement)
            elif "emf0_init" in r.meta:
                g = ref.pH_from_emf(ex.emf, r.meta["emf0_init"], ex.mix.temperature)
            keep |= (g >= lo) & (g <= hi)
        cut = min(int(by), int(np.argmax(keep)))
        for x in ("amount", "measurement", "temperature"):
            setattr(q, x, np.asarray(getattr(r, x))[cut:])
    return q, cut


def solve(c, rs):
    """Both titrations, by the chosen layer: a list of dicts of results."""
    out = []
    if c["layer"] == "core":
        for r in rs:
            out.append(layers.core_solve(
                {k: v for k, v in r.meta.items() if k != "titrant_molinity_init"},
                r.amount, r.measurement, r.temperature, r.molinity,
            ))
        return [sr_dict(x) for x in out]
    with util.scratch() as d, util.quiet():
        for i, r in enumerate(rs):
            layers.write(d, f"t{i}.dat", r)
        if c["layer"] == "file":
            return [sr_dict(layers.file_solve(d, f"t{i}.dat", r.meta, r.molinity)) for i, r in enumerate(rs)]
        rows = [
            dict(r.meta, file_name=f"t{i}.dat", file_path=d, titrant_molinity=r.molinity)
            for i, r in enumerate(rs)
        ]
        ds = layers.dataset_solve(rows)
        for i in range(len(rs)):
            row = ds.iloc[i]
            out.append(dict(
                alkalinity=float(row.alkalinity), npts=int(row.alkalinity_npts), pH_init=float(row.pH_init),
                emf0=float(row.emf0), std=float(row.alkalinity_std), gran_alkalinity=float(row.gran_alkalinity) * 1e-6,
                gran_emf0=float(row.gran_emf0),
            ))
        return out


def sr_dict(sr):
    o = dict(
        alkalinity=float(sr.alkalinity), npts=int(np.sum(sr.used)), used=np.asarray(sr.used, bool),
        pH=np.asarray(sr.pH, float), analyte_mass=float(sr.analyte_mass),
        titrant_mass=np.asarray(sr.titrant_mass, float),
        emf0=float(getattr(sr, "emf0", np.nan)),
        std=float(getattr(sr, "alkalinity_std", np.nan)),
    )
    if hasattr(sr, "alkalinity_all"):
        o["all"] = np.asarray(sr.alkalinity_all, float)
    ggr = getattr(sr, "ggr", None)
    o["gran_alkalinity"] = float(ggr.alkalinity) if ggr else np.nan
    o["gran_emf0"] = float(ggr.emf0) if ggr else np.nan
    return o


@sub("C15", "solve", cases, 1500, 50000, RULE)
def solve_pair(c):
    r = gen.realise(c)
    ex = expected(r)
    if ex is None:
        return {}
    q, cut = transform(c, r, ex)
    if c["kind"] == "trim" and not cut:
        return {}
    # The Gran function is not linear in exp(EMF0) unless the temperature is
    # constant, so Gran estimates may change slightly with a drift
    gran = c["kind"] != "offset" or np.ptp(ex.mix.temperature) == 0
    if not gran:
        ex_q = expected(q)
        if ex_q is None or not np.array_equal(ex.used, ex_q.used):
            return {}
    a, b = solve(c, [r, q])
    shift = c["by"] if c["kind"] == "offset" else 0.0
    by = c["by"] if c["kind"] == "scale" else 1.0
    w = f"{c['kind']}, {c['layer']}"
    util.close(b["npts"], a["npts"], f"{w}: number of points used")
    if "used" in a:
        util.equal_masks(b["used"], a["used"][cut:], f"{w}: points used")
        util.close(b["analyte_mass"], a["analyte_mass"] * by, f"{w}: analyte mass", rtol=1e-9)
        util.close(b["titrant_mass"], a["titrant_mass"][cut:] * by, f"{w}: titrant mass", rtol=1e-9)
    fit = r.mode in ("emf", "pH_adjust")
    if fit:
        expect.best_fit(b["alkalinity"], b["emf0"] - shift, ex, w)
        if gran:
            util.close(b["gran_alkalinity"], a["gran_alkalinity"], f"{w}: Gran alkalinity", rtol=1e-6, atol=1e-10)
            util.close(b["gran_emf0"] - shift, a["gran_emf0"], f"{w}: Gran EMF0", rtol=0, atol=1e-5)
        loose_alk, loose_emf0 = expect.loose(ex)
        tol = dict(rtol=0, atol=2 * loose_alk)
        tol_pH = dict(rtol=0, atol=2e-3)
        util.close(b["emf0"] - shift, a["emf0"], f"{w}: EMF0", rtol=0, atol=2 * loose_emf0)
    else:
        util.check(np.isnan(b["emf0"]) and np.isnan(b["gran_emf0"]), f"{w}: EMF0 in {r.mode} mode")
        tol = dict(rtol=1e-8, atol=1e-5)
        tol_pH = dict(rtol=1e-12, atol=0)
    util.close(b["alkalinity"], a["alkalinity"], f"{w}: alkalinity", **tol)
    if r.mode != "pH_gran":
        # the result objects and dataset columns need not define it alike
        util.close(b["std"], a["std"], f"{w}: standard deviation", rtol=1e-3, atol=1e-2 if fit else 1e-5)
        if "all" in a:
            ok = np.abs(a["pH"][cut:]) < 9
            util.close(b["all"][ok], a["all"][cut:][ok], f"{w}: alkalinity of every point", **(dict(rtol=5e-3, atol=1.0) if fit else tol))
    if "pH" in a:
        util.close(b["pH"], a["pH"][cut:], f"{w}: pH", **tol_pH)
    elif not cut:
        util.close(b["pH_init"], a["pH_init"], f"{w}: initial pH", **tol_pH)
    return dict(nontrivial=(by != 1 or shift != 0 or cut > 0 or (c["kind"] == "normality" and c["by"] != 1)), kind=c["kind"], layer=c["layer"], mode=r.mode)


@sub("C15", "calibrate", lambda: cases(16), 500, 16000, RULE + "; and stay so near the calibrated molinity")
def calibrate_pair(c):
    r = gen.realise(c)
    if r is not None and not regular(r):
        # far from the first guess (see the known finding of C02)
        r = gen.realise(dict(c, molinity=0.1))
        if r is not None and not regular(r):
            return {"irregular": True}
    ex = expected(r)
    if ex is None or not mask_is_stable(r, r.molinity):
        return {}
    q, cut = transform(c, r, ex)
    if c["kind"] == "trim" and not cut:
        return {}
    factor = c["by"] if c["kind"] == "normality" else 1.0
    out = []
    if c["layer"] == "core":
        for x in (r, q):
            out.append(layers.core_calibrate(x.meta, x.amount, x.measurement, x.temperature, r.alk))
    else:
        with util.scratch() as d, util.quiet():
            for i, x in enumerate((r, q)):
                layers.write(d, f"t{i}.dat", x)
            if c["layer"] == "file":
                out = [layers.file_calibrate(d, f"t{i}.dat", x.meta, r.alk) for i, x in enumerate((r, q))]
            else:
                rows = [
                    dict(x.meta, file_name=f"t{i}.dat", file_path=d, alkalinity_certified=r.alk, analysis_batch=i)
                    for i, x in enumerate((r, q))
                ]
                ds = layers.dataset_calibrate(rows)
                out = [float(ds.titrant_molinity.iloc[i]) for i in (0, 1)]
    w = f"{c['kind']}, {c['layer']}: calibrated molinity"
    if c["kind"] == "offset" and not mask_is_stable(q, r.molinity):
        return {}
    util.check(np.isfinite(out[0]) and out[0] > 0, f"{w} is {out[0]}")
    if not mask_is_stable(r, out[0]):
        return {"discontinuous": True}
    util.close(out[1] * factor, out[0], w, rtol=3e-5 if r.mode in ("emf", "pH_adjust") else 1e-6)
    return dict(nontrivial=True, kind=c["kind"], layer=c["layer"], mode=r.mode)
