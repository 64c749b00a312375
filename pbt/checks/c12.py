"""C12: a Titration object agrees with its dataset row and with itself."""
import copy
import os
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk

from .. import expect, gen, layers, ref, util
from ..engine import sub

RESULTS = (
    "alkalinity", "alkalinity_npts", "alkalinity_std", "emf0", "gran_alkalinity",
    "gran_emf0", "pH_init", "temperature_init",
)
SWITCH = {"pH": ["pH_adjust", "pH_gran"], "pH_adjust": ["pH", "pH_gran"], "pH_gran": ["pH", "pH_adjust"], "emf": []}


@st.composite
def overrides(draw, mode):
    o = {}
    pool = {
        "dic": gen.num(0, 3000, 1), "total_silicate": gen.num(0, 100, 2), "total_borate": gen.num(0, 600, 2),
        "pH_min": gen.num(2.8, 3.3, 3), "pH_max": gen.num(3.6, 4.4, 3), "double": st.booleans(),
        "gran_logic": st.sampled_from(["legacy", "v23.7+"]), "titrant_normality": st.just(1.1),
        "titrant_molinity": gen.num(0.05, 0.3, 4), "analyte_mass": gen.num(0.05, 0.3, 4),
        "temperature_override": st.one_of(gen.num(5, 35, 2), st.just(0.0)), "opt_k_carbonic": st.sampled_from([1, 4, 10, 14]),
        "salinity": gen.num(2, 42, 2), "k_bisulfate": st.sampled_from([0.08, 0.12]), "titrant_amount_unit": st.sampled_from(["ml", "g"]),
    }
    for k in draw(st.lists(st.sampled_from(sorted(pool)), max_size=3, unique=True)):
        o[k] = draw(pool[k])
    if SWITCH[mode] and gen.some(draw, 0.25):
        o["solve_mode"] = draw(st.sampled_from(SWITCH[mode]))
    if "pH_min" not in o and "pH_max" not in o and gen.some(draw, 0.15):
        o["pH_range"] = [3.05, 3.95]
    return o


@st.composite
def cases(draw):
    c = draw(gen.titrations(modes=("emf", "emf", "pH", "pH_adjust", "pH_gran"), noise=0.1, max_points=16))
    return dict(
        case=c,
        overrides=draw(overrides(c["mode"])) if gen.some(draw, 0.6) else {},
        solved=draw(st.booleans()),
        neighbour=draw(st.booleans()),
        route=draw(st.sampled_from(["function", "method", "class"])),
        index=draw(st.sampled_from(["range", "text", "gappy"])),
        certified=gen.some(draw, 0.3),
        path=draw(st.sampled_from(["column", "name"])),
    )


def species(tot, ks, pH):
    """Concentrations that the table lists, from the reference model."""
    h = 10.0**-pH
    f = lambda *names: ref.fractions(h, [ks[n] for n in names])  # noqa: E731
    c = f("k_carbonic_1", "k_carbonic_2")
    p = f("k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3")
    out = dict(
        HCO3=tot["dic"] * c[1], CO3=tot["dic"] * c[2],
        BOH4=tot["total_borate"] * f("k_borate")[1],
        H3PO4=tot["total_phosphate"] * p[0], HPO4=tot["total_phosphate"] * p[2], PO4=tot["total_phosphate"] * p[3],
        HSO4=tot["total_sulfate"] * f("k_bisulfate")[0], HF=tot["total_fluoride"] * f("k_fluoride")[0],
        H3SiO4=tot["total_silicate"] * f("k_silicate")[1], NH3=tot["total_ammonia"] * f("k_ammonia")[1],
        HS=tot["total_sulfide"] * f("k_sulfide")[1], OH=ks["k_water"] / h, H=h,
    )
    for x in ("alpha", "beta"):
        if np.any(tot[f"total_{x}"] > 0):
            g = f(f"k_{x}")
            out[f"alk_{x}"] = tot[f"total_{x}"] * np.where(-np.log10(ks[f"k_{x}"]) <= ref.ZLP, -g[0], g[1])
        else:
            out[f"alk_{x}"] = np.zeros(len(pH))
    return out


def table_is(tt, mix, meas, mode, ex):
    """The titration table against the reference model, given the reported
    alkalinity and EMF0."""
    t = tt.titration
    util.check(tt.t is tt.titration or tt.t.equals(tt.titration), "t is not a shortcut for titration")
    n = len(meas)
    util.check(len(t) == n, f"{len(t)} lines in the table for {n} measurements")
    col = lambda k: t[k].to_numpy(float)  # noqa: E731
    util.close(col("titrant_mass"), mix.mt, "table: titrant_mass", rtol=1e-9)
    util.close(col("temperature"), mix.temperature, "table: temperature", rtol=1e-12)
    util.close(tt.analyte_mass, mix.ma, "analyte_mass", rtol=1e-9)
    if mode in ("emf", "ph_adjust"):
        emf = meas if mode == "emf" else ref.emf_from_pH(meas, 0.0, mix.temperature)
        util.close(col("emf"), emf, "table: emf", rtol=1e-9, atol=1e-9)
        pH = ref.pH_from_emf(emf, float(tt.sr.emf0), mix.temperature)
        if ex is not None:
            util.equal_masks(t["gran_used"], ex.gran.used, "table: gran_used")
            util.close(col("gran_func"), ex.gran.gfunc, "table: gran_func", rtol=1e-9)
            u = ex.gran.used
            util.close(col("gran_emf0")[u], ex.gran.emf0s[u], "table: gran_emf0", rtol=1e-9, atol=1e-5, nan_ok=True)
            util.close(col("gran_pH"), ex.gran.pH, "table: gran_pH", rtol=1e-9, atol=1e-7)
    else:
        pH = meas
        util.check("emf" not in t, f"emf in the table in {mode} mode")
        if mode == "ph_gran":
            util.close(col("gran_func"), (mix.mt + mix.ma) * 10.0**-meas, "table: gran_func", rtol=1e-9)
            util.equal_masks(t["gran_used"], t["used"].to_numpy(bool), "table: gran_used")
    util.close(col("pH"), pH, "table: pH", rtol=1e-9, atol=1e-9)
    if ex is not None:
        util.equal_masks(t["used"], ex.used, "table: used")
    util.close(col("dilution_factor"), mix.dil, "table: dilution_factor", rtol=1e-9)
    for k, v in mix.tot.items():
        got = col(k) if k in t else np.zeros(n)
        util.close(got, v, f"table: {k}", rtol=1e-8, atol=1e-18)
    for k, v in mix.ks.items():
        util.close(col(k), v, f"table: {k}", rtol=1e-8)
    tk = (np.asarray(mix.temperature, float) + 273.15) / 100
    sal = float(mix.meta["salinity"])  # Weiss (1974), mol/kg/atm
    k0 = np.exp(-60.2409 + 93.4517 / tk + 23.3585 * np.log(tk) + sal * (0.023517 - 0.023656 * tk + 0.0047036 * tk**2))
    util.close(col("k_CO2"), k0, "table: k_CO2", rtol=1e-6)
    ok = (pH > -1) & (pH < 13)  # where concentrations are meaningful
    for k, v in species(mix.tot, mix.ks, pH).items():
        util.close(col(k)[ok], v[ok], f"table: {k}", rtol=1e-6, atol=1e-15)
    alk = float(tt.alkalinity)
    want = alk * 1e-6 * mix.dil - mix.acid()
    util.close(col("alkalinity_from_acid"), want, "table: alkalinity_from_acid", rtol=1e-7, atol=1e-10, nan_ok=True)
    a = ref.alkalinity(pH, mix.tot, mix.ks)
    util.close(col("alkalinity_from_pH")[ok], a[ok], "table: alkalinity_from_pH", rtol=1e-6, atol=1e-10)
    est = col("alkalinity_estimate")
    points = mix.alkalinity_points(pH)
    util.close(est[ok] * 1e6, points[ok], "table: alkalinity_estimate", rtol=1e-6, atol=1e-3)
    if mode != "ph_gran":
        util.close(est[ok] * 1e6, np.asarray(tt.sr.alkalinity_all)[ok], "alkalinity estimates in the table and result", rtol=1e-6, atol=1e-3)
    if mode == "ph" and t["used"].any():
        util.close(est[t["used"]].mean() * 1e6, alk, "mean of the used estimates", rtol=1e-6)


@sub(
    "C12", "titration", cases, 450, 12000,
    "the titration is solved and a setting is overridden or the dataset had already been solved",
)
def titration(c):
    r = gen.realise(c["case"])
    if r is None:
        return {}
    with util.scratch() as d:
        path = layers.write(d, "t.dat", r)
        row = dict(r.meta, titrant_molinity=r.molinity)
        if c["path"] == "column":
            row.update(file_name="t.dat", file_path=d)
        else:
            row.update(file_name=path)
        if c["certified"]:
            row["alkalinity_certified"] = r.alk
        rows = [row]
        if c["neighbour"]:  # columns that are missing here, mixed types
            rows.append(dict(salinity=30.0, analyte_volume=50.0, file_name="missing.dat", opt_k_carbonic=10, k_water=1e-13, solve_mode="pH", comment="x", titrant="HCl", dic=5.0))
        index = {"range": [0, 1], "text": ["x", "y"], "gappy": [7, -3]}[c["index"]][: len(rows)]
        df = layers.frame(rows, index=index)
        with util.quiet():
            df = calk.solve(df) if c["solved"] else df
            o = c["overrides"]
            keep = df.loc[index[0]].copy()
            before = copy.deepcopy(o)
            try:
                if c["route"] == "function":
                    tt = calk.to_Titration(df, index[0], **o)
                elif c["route"] == "method":
                    tt = calk.Dataset(df).to_Titration(index[0], **o)
                else:
                    tt = calk.Titration(df.loc[index[0]], **o)
            except Exception as e:
                tt = e
            util.check(o == before, "the overriding settings were altered")
            now = df.loc[index[0]]
            util.check(now.equals(keep), "the dataset row was altered")
            # the dataset with those settings
            over = dict(o)
            if "pH_range" in over:
                over["pH_min"], over["pH_max"] = over.pop("pH_range")
            # start from the same row: what is filled in there stays there
            base = {
                k: (None if v is None or (not isinstance(v, str) and pd.isnull(v)) else v)
                for k, v in df.loc[index[0]].items()
                if k not in RESULTS and k != "alkalinity_offset"
            }
            base = {k: v for k, v in base.items() if v is not None}
            want = calk.solve(layers.frame([{**base, **over}])).iloc[0]
        if isinstance(tt, Exception):
            util.check(
                pd.isnull(want["alkalinity"]),
                f"making the Titration failed ({type(tt).__name__}: {tt}) but the dataset solves",
            )
            return {"failed": True}
        # with another titrant the data make no sense, and the solver may stop
        # elsewhere because of rounding (salts filled in by the dataset or not)
        odd = set(over) & {"titrant_amount_unit", "titrant_normality", "titrant_molinity", "analyte_mass"}
        tol = dict(rtol=1e-6, atol=5e-3) if odd else dict(rtol=1e-7, atol=1e-6)
        for k in RESULTS:
            util.close(tt[k], want[k], f"Titration and dataset: {k}", nan_ok=True, **tol)
            util.close(getattr(tt, k), tt[k], f"attribute {k}", rtol=0, nan_ok=True)
            util.close(tt.row[k], tt[k], f"row {k}", rtol=0, nan_ok=True)
        if c["certified"]:
            util.close(tt.alkalinity_offset, want["alkalinity_offset"], "alkalinity_offset", rtol=1e-6, atol=2 * tol["atol"], nan_ok=True)
        for k, v in over.items():
            if k not in ("analyte_mass",):
                util.check(tt[k] == v, f"{k} is {tt[k]!r}, overridden with {v!r}")
        util.check("t.dat" in str(tt) and "t.dat" in repr(tt), "the file is not named in str or repr")
        # against the reference model
        eff = {k: v for k, v in {**base, **over}.items() if k not in ("file_name", "file_path", "alkalinity_certified", "titrant_molinity", "comment", "file_good")}
        if eff.get("analyte_mass") is None:
            eff.pop("analyte_mass", None)
        molinity = over.get("titrant_molinity", r.molinity)
        mix = ref.Mixture(eff, r.amount, r.temperature, molinity=molinity)
        mode = eff.get("solve_mode", "emf").lower()
        try:
            ex = ref.process(eff, r.amount, r.measurement, r.temperature, molinity, mix=mix)
            if ex.npts < 3:
                raise ref.Indeterminate("too few points")
            if odd and mode in ("emf", "ph_adjust") and not 0.5 < ex.alkalinity / r.alk < 2:
                ex = None  # no longer a titration: the fit is not well defined
        except ref.Indeterminate:
            ex = None
        if mode == "emf" or np.isfinite(want["alkalinity"]):
            if np.isfinite(want["alkalinity"]):
                table_is(tt, mix, np.asarray(r.measurement, float), mode, ex)
        if ex is not None:
            expect.dataset_row(tt.row, ex, "Titration")
        if c["index"] == "text":
            for tt2 in (copy.copy(tt), copy.deepcopy(tt), pickle.loads(pickle.dumps(tt))):
                util.close(tt2.alkalinity, tt.alkalinity, "alkalinity of a copy", rtol=0, nan_ok=True)
                util.check(tt2.titration.equals(tt.titration), "table of a copy")
    return dict(
        nontrivial=bool(np.isfinite(want["alkalinity"])) and bool(o or c["solved"]),
        mode=mode, overridden=bool(o), determinate=ex is not None,
    )
