"""C17: simulated titrations and the DIC-loss model."""
import numpy as np
from hypothesis import strategies as st

from calkulate import core, loss, simulate

from .. import gen, ref, util
from ..engine import HarnessError, sub

CARBONIC = (1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14, 15, 16)


def weiss_k0(t, s):
    """Solubility of CO2, Weiss (1974), mol/kg/atm."""
    tk = np.asarray(t, float) + 273.15
    return np.exp(
        -60.2409 + 93.4517 * (100 / tk) + 23.3585 * np.log(tk / 100)
        + s * (0.023517 - 0.023656 * tk / 100 + 0.0047036 * (tk / 100) ** 2)
    )


@st.composite
def setups(draw, max_points, lossy):
    c = dict(
        alk=draw(st.one_of(gen.num(1800, 2600, 2), gen.num(600, 4500, 2))),
        analyte_mass=draw(st.one_of(st.none(), gen.num(0.03, 0.3, 4))),
        dic=draw(st.one_of(gen.num(0, 2400, 2), st.just(2000.0))) if gen.some(draw, 0.9) else None,
        emf0=draw(gen.num(-300, 900, 2)) if gen.some(draw, 0.7) else None,
        salinity=draw(gen.num(1, 42, 3)) if gen.some(draw, 0.7) else None,
        molinity=draw(gen.num(0.05, 0.3, 4)) if gen.some(draw, 0.6) else None,
        temperature=draw(st.one_of(st.none(), gen.num(3, 38, 2))),
        drift=draw(gen.num(-3, 3, 2)) if gen.some(draw, 0.4) else None,
        start=draw(gen.num(0.05, 0.6, 3)) if gen.some(draw, 0.4) else 0.0,
        n=draw(st.integers(2, 4) if lossy else st.integers(1, max_points)),
        past=draw(gen.num(1.1, 1.5, 3)),
        chem={},
    )
    for k, hi in dict(total_ammonia=50, total_phosphate=30, total_silicate=250, total_sulfide=60).items():
        if gen.some(draw, 0.3):
            c["chem"][k] = draw(gen.num(0.1, hi, 2))
    for x in ("alpha", "beta"):
        if gen.some(draw, 0.2):
            c["chem"][f"total_{x}"] = draw(gen.num(1, 100, 2))
            c["chem"][f"k_{x}"] = 10 ** -draw(st.one_of(gen.num(3.2, 4.4), gen.num(4.6, 9)))
    for k, hi in dict(total_borate=700, total_fluoride=120, total_sulfate=35000).items():
        if gen.some(draw, 0.15):
            c["chem"][k] = draw(gen.num(0, hi, 2))
    if gen.some(draw, 0.5):
        c["chem"]["opt_k_carbonic"] = draw(st.sampled_from(CARBONIC))
    for k in ("opt_k_bisulfate", "opt_k_fluoride", "opt_total_borate"):
        if gen.some(draw, 0.3):
            c["chem"][k] = draw(st.sampled_from([1, 2]))
    if lossy:
        c["k"] = 0.0 if gen.some(draw, 0.15) else 10 ** draw(gen.num(-1.5, 0.3, 3))
        if c["k"]:
            c["dic"] = draw(st.one_of(gen.num(500, 2400, 2), st.just(2000.0)))
        if gen.some(draw, 0.15):
            c["n"] = draw(st.integers(5, 12))
        c["air"] = draw(gen.num(200, 900, 1)) if gen.some(draw, 0.6) else None
    return c


def plan(c):
    """Keyword arguments for the simulation, and what they mean."""
    ma = 0.1 if c["analyte_mass"] is None else c["analyte_mass"]
    mol = 0.1 if c["molinity"] is None else c["molinity"]
    equivalence = c["alk"] * 1e-6 * ma / mol
    start = c["start"] * equivalence
    step = (c["past"] * equivalence - start) / c["n"]
    if step <= 0:
        raise HarnessError("bad step")
    kw = dict(titrant_mass_start=start, titrant_mass_step=step, titrant_mass_stop=start + (c["n"] - 0.5) * step)
    mt = start + step * np.arange(c["n"])
    if c["start"] == 0.0:
        del kw["titrant_mass_start"]
    for k, name in dict(analyte_mass="analyte_mass", dic="dic", emf0="emf0", salinity="salinity", molinity="titrant_molinity").items():
        if c[k] is not None:
            kw[name] = c[k]
    t = np.full(c["n"], 25.0 if c["temperature"] is None else c["temperature"])
    if c["drift"] is not None:
        t = t + c["drift"] * np.linspace(0, 1, c["n"])
        kw["temperature"] = t.copy()
    elif c["temperature"] is not None:
        kw["temperature"] = c["temperature"]
    kw.update(c["chem"])
    meta = dict(c["chem"], salinity=35.0 if c["salinity"] is None else c["salinity"], dic=c["dic"] or 0.0)
    return kw, meta, ma, mol, mt, t


def expected(c, got, meta, ma, mol, mt, t):
    """Checks of everything but DIC; returns pH, diluted totals and constants."""
    titrant_mass, emf, temperature, analyte_mass, totals, ks = got
    util.close(titrant_mass, mt, "titrant mass", rtol=1e-9, atol=1e-15)
    util.close(temperature, t, "temperature", rtol=1e-12)
    util.close(analyte_mass, ma, "analyte mass", rtol=1e-12)
    util.same_shape(emf, mt, "EMF")
    dil = ma / (ma + mt)
    tot0 = ref.base_totals(meta)
    want = {k: v * dil for k, v in tot0.items()}
    for k, v in want.items():
        if k != "dic":
            util.close(totals.get(k, 0.0 * mt), v, k, rtol=1e-8, atol=1e-18)
    if "total_calcium" in totals:  # Riley and Tongudai (1967), as in PyCO2SYS
        calcium = 0.02128 / 40.087 * meta["salinity"] / 1.80655
        util.close(totals["total_calcium"], calcium * dil, "total_calcium", rtol=1e-6)
    wk = ref.constants(meta, t, tot0, dil)
    for k, v in wk.items():
        util.close(ks[k], v, k, rtol=1e-8)
    return want, wk, dil


def equilibrium(c, emf, t, tot, ks, dil, ma, mol, mt):
    emf0 = 600.0 if c["emf0"] is None else c["emf0"]
    pH = ref.pH_from_emf(emf, emf0, t)
    a = ref.alkalinity(pH, tot, ks)
    w = (ma * c["alk"] * 1e-6 - mt * mol) / (ma + mt)
    util.close(a * 1e6, w * 1e6, "alkalinity of the mixture at the simulated pH", rtol=1e-6, atol=1e-3)
    return pH


@sub(
    "C17", "simulate", lambda: setups(26, False), 320, 12000,
    "at least 4 points, past the equivalence point",
)
def simulated(c):
    kw, meta, ma, mol, mt, t = plan(c)
    with util.quiet():
        got = simulate._titration(c["alk"], **kw)
    tot, ks, dil = expected(c, got, meta, ma, mol, mt, t)
    util.close(got[4]["dic"], tot["dic"], "DIC", rtol=1e-9, atol=1e-18)
    pH = equilibrium(c, got[1], t, tot, ks, dil, ma, mol, mt)
    emf0 = 600.0 if c["emf0"] is None else c["emf0"]
    solved = False
    inside = (pH > 3.01) & (pH < 3.99)
    gran = ref.Gran(mt, np.asarray(got[1], float), t, ma, mol)
    if inside.sum() >= 3 and gran.ok and np.isfinite(gran.emf0):
        with util.quiet():
            sr = core.solve_emf(mol, *got)
        if np.isfinite(sr.emf0) and sr.used.sum() >= 3:
            util.close(sr.alkalinity, c["alk"], "solved alkalinity", rtol=0, atol=0.02)
            util.close(sr.emf0, emf0, "solved EMF0", rtol=0, atol=5e-3)
            solved = True
        with util.quiet():
            sp = core.solve_pH(mol, mt, pH, *got[2:])
        util.close(sp.alkalinity, c["alk"], "alkalinity solved from pH", rtol=1e-6, atol=1e-3)
    return dict(nontrivial=c["n"] >= 4, solved=solved, start=bool(c["start"]), drift=c["drift"] is not None)


@sub(
    "C17", "simulate_loss", lambda: setups(4, True), 130, 3000,
    "DIC is present and lost (non-zero loss constant)",
)
def simulated_loss(c):
    kw, meta, ma, mol, mt, t = plan(c)
    air = 450.0 if c["air"] is None else c["air"]
    if c["air"] is not None:
        kw["fCO2_air"] = c["air"]
    with util.quiet():
        got = simulate._titration(c["alk"], k_dic_loss=c["k"], **kw)
    tot, ks, dil = expected(c, got, meta, ma, mol, mt, t)
    dic = np.asarray(got[4]["dic"], float)
    util.same_shape(dic, mt, "DIC")
    if c["k"] == 0.0:
        util.close(dic, tot["dic"], "DIC without loss", rtol=1e-9, atol=1e-18)
    tot = dict(tot, dic=dic)
    if np.any(dic < 0):  # more lost than there was: not physical
        return {"negative": True}
    pH = equilibrium(c, got[1], t, tot, ks, dil, ma, mol, mt)
    util.close(dic[0], meta["dic"] * 1e-6 * dil[0], "DIC at the start", rtol=1e-9, atol=1e-18)
    h = 10.0**-pH
    co2 = dic * ref.fractions(h, [ks["k_carbonic_1"], ks["k_carbonic_2"]])[0]
    excess = co2 / weiss_k0(t, meta["salinity"]) * 1e6 - air
    step = kw["titrant_mass_step"]
    for i in range(len(mt) - 1):
        w = dic[i] * (ma + mt[i]) / (ma + mt[i] + step) - c["k"] * excess[i] * step * 1e-6
        util.close(dic[i + 1] * 1e6, w * 1e6, f"DIC after step {i}", rtol=1e-5, atol=1e-3)
    return dict(nontrivial=c["k"] > 0 and meta["dic"] > 0, zero=c["k"] == 0.0)


# --- loss model -------------------------------------------------------------------
@st.composite
def profiles(draw):
    n = draw(st.integers(10, 30))
    return dict(
        n=n,
        step=draw(gen.num(0.05, 0.3, 4)),
        pH0=draw(gen.num(7, 8.4, 2)),
        drops=draw(st.lists(gen.num(0.05, 1, 3), min_size=n - 1, max_size=n - 1)),
        end=draw(gen.num(3, 5, 2)),
        rises=draw(st.lists(gen.num(0.02, 1, 3), min_size=n, max_size=n)),
        top=draw(gen.num(2000, 60000, 0)),
        k=0.0 if gen.some(draw, 0.12) else 10 ** draw(gen.num(-2, 0.7, 3)),
        dic=draw(gen.num(500, 3000, 1)),
        ma=draw(gen.num(0.03, 0.3, 3)),
        air=draw(gen.num(200, 900, 0)) if gen.some(draw, 0.5) else None,
        split=draw(gen.num(5.2, 6.5, 2)) if gen.some(draw, 0.5) else None,
        pk1=draw(gen.num(5.7, 6.3)), pk2=draw(gen.num(8.7, 9.4)), pk0=draw(gen.num(1.3, 1.7)),
        kdrift=draw(gen.num(-0.1, 0.1)),
        gaps=draw(st.lists(st.integers(1, n - 1), max_size=2)) if gen.some(draw, 0.3) else [],
        uneven=draw(st.lists(gen.num(-0.3, 0.3, 2), min_size=n - 1, max_size=n - 1)) if gen.some(draw, 0.4) else [],
        view=draw(st.booleans()),
    )


def make(c):
    n = c["n"]
    d = np.cumsum([0.0] + c["drops"])
    pH = c["pH0"] - d / d[-1] * (c["pH0"] - c["end"])
    f = np.cumsum(c["rises"])
    fco2 = 300 + f / f[-1] * c["top"]
    mt = np.arange(n) * c["step"] * 1e-3
    drift = 1 + c["kdrift"] * np.linspace(0, 1, n)
    return mt, pH, fco2, 10 ** -c["pk0"] * drift, 10 ** -c["pk1"] * drift, 10 ** -c["pk2"] * drift


def recursion(k, mt, excess, dic0, ma, step):
    """DIC (umol/kg): dilution by each step and loss by the excess before it."""
    out = [dic0]
    for i in range(len(mt) - 1):
        out.append(out[-1] * (ma + mt[i]) / (ma + mt[i] + step) - k * excess[i] * step)
    return np.array(out)


@sub("C17", "loss_functions", profiles, 1200, 40000, "non-zero loss constant")
def loss_functions(c):
    mt, pH, fco2, k0, k1, k2 = make(c)
    air = 450.0 if c["air"] is None else c["air"]
    step = c["step"] * 1e-3
    keep = [v.copy() for v in (mt, pH, fco2, k0, k1, k2)]
    ex = fco2 - air
    got = loss.dic_loss_model_fitted(c["k"], mt, ex, c["dic"] * 1e-6, c["ma"], step)
    util.close(got, recursion(c["k"], mt, ex, c["dic"], c["ma"], step), "fitted model", rtol=1e-9, atol=1e-9)
    if c["k"] == 0.0:
        util.close(got, c["dic"] * c["ma"] / (c["ma"] + mt), "fitted model without loss", rtol=1e-9)
    f = loss.get_fCO2_from_dic_pH(c["dic"], pH, k0, k1, k2)
    w = c["dic"] * ref.fractions(10.0**-pH, [k1, k2])[0] / k0
    util.close(f, w, "fCO2 from DIC and pH", rtol=1e-9)
    # projection from the middle on
    j = c["n"] // 2
    kw = {} if c["air"] is None else {"fCO2_air": c["air"]}
    dic, delta = loss.dic_loss_model_future(
        c["k"], mt[j:], pH[j:], k0[j:], k1[j:], k2[j:], ex[j - 1], c["dic"], pH[j - 1], k0[j - 1], k1[j - 1], k2[j - 1],
        c["ma"], step, **kw,
    )
    a = c["dic"] * (c["ma"] + mt[j] - step) / (c["ma"] + mt[j]) - c["k"] * ex[j - 1] * step
    util.close(dic[0], a, "projected model: first step", rtol=1e-9, atol=1e-9)
    co2 = lambda v, i: v * ref.fractions(10.0 ** -pH[i], [k1[i], k2[i]])[0] / k0[i] - air  # noqa: E731
    e0 = [co2(dic[0], j - 1), co2(dic[0], j)]  # just before or at the split
    util.check(min(abs(delta[0] - e) for e in e0) <= 1e-6 * max(map(abs, e0)) + 1e-6, f"projected model: first fCO2 excess {delta[0]}, expected {e0[0]}")
    for i in range(1, len(dic)):
        p = mt[j + i - 1]
        w = dic[i - 1] * (c["ma"] + p) / (c["ma"] + p + step) - c["k"] * delta[i - 1] * step
        util.close(dic[i], w, f"projected model: step {i}", rtol=1e-9, atol=1e-9)
        util.close(delta[i], co2(dic[i], j + i), f"projected model: fCO2 excess {i}", rtol=1e-9, atol=1e-6)
    for v, b in zip((mt, pH, fco2, k0, k1, k2), keep):
        util.check(np.array_equal(v, b), "the loss model altered its inputs")
    return dict(nontrivial=c["k"] > 0)


@sub(
    "C17", "loss_fit", profiles, 500, 16000,
    "at least 4 points above the pH at which fitting stops, non-zero loss constant",
)
def loss_fit(c):
    from scipy.interpolate import pchip_interpolate

    mt, pH, fco2, k0, k1, k2 = make(c)
    if c.get("uneven"):
        mt = np.cumsum([0.0] + [1 + u for u in c["uneven"]]) * c["step"] * 1e-3
    air = 450.0 if c["air"] is None else c["air"]
    split = 5.5 if c["split"] is None else c["split"]
    n_fit = int((pH >= split).sum())
    if n_fit < 4 or (pH < split).sum() < 2 or np.min(np.abs(pH - split)) < 1e-6:
        return {}
    # data that follow the model: ten steps between measurements
    step = np.median(np.diff(mt)) / 10
    hi = np.arange(0, mt.max() + step / 2, step)
    ex_hi = pchip_interpolate(mt, fco2 - air, hi)
    dic_hi = recursion(c["k"], hi, ex_hi, c["dic"], c["ma"], step)
    dic = np.interp(mt, hi, dic_hi)
    if dic.min() < 0.2 * c["dic"]:
        return {}
    dic_in, fco2_in = dic.copy(), fco2.copy()
    gaps = [g for g in c["gaps"] if g > n_fit + 1 and g < c["n"] - 1]
    dic_in[gaps] = np.nan  # missing where it is not used for fitting
    if gaps:
        fco2_in[gaps] = np.nan
    args = [mt, pH, dic_in, fco2_in, k0, k1, k2]
    keep = [v.copy() for v in args]
    kw = {}
    if c["air"] is not None:
        kw["fCO2_air"] = c["air"]
    if c["split"] is not None:
        kw["split_pH"] = c["split"]
    with util.quiet():
        k, hires = loss.get_dic_loss_hires(*args, c["ma"], c["dic"] * 1e-6, **kw)
        out = loss.get_dic_loss(*args, c["ma"], c["dic"] * 1e-6, **kw)
    for v, b in zip(args, keep):
        util.check(np.array_equal(v, b, equal_nan=True), "the loss model altered its inputs")
    lengths = {len(v) for v in hires.values()}
    util.check(len(lengths) == 1, f"high-resolution arrays of lengths {lengths}")
    m, p, d, e = (np.asarray(hires[v], float) for v in ("titrant_mass", "pH", "dic", "delta_fCO2"))
    step = m[1] - m[0]
    util.check(0 < step < np.diff(mt).min(), f"high-resolution steps of {step}")
    util.close(np.diff(m), np.full(len(m) - 1, step), "high-resolution steps", rtol=1e-6)
    util.close(p, pchip_interpolate(mt, pH, m), "high-resolution pH", rtol=1e-9)
    fit = p >= split
    util.close(d[0], c["dic"], "DIC at the start", rtol=1e-9)
    # the constant behind the data
    reach = np.sum(np.abs(ex_hi[: fit.sum()])) * step
    if reach > 1e-6:
        util.close(k, c["k"], "fitted loss constant", rtol=0.02, atol=2.0 / max(reach, 1e-9) * 1e-1)
    # the same recursion through both parts
    for i in range(len(m) - 1):
        w = d[i] * (c["ma"] + m[i]) / (c["ma"] + m[i] + step) - k * e[i] * step
        util.close(d[i + 1], w, f"high-resolution DIC after step {i}", rtol=1e-7, atol=1e-6)
    f_hi = lambda q, v: pchip_interpolate(mt, v, q)  # noqa: E731
    after = np.flatnonzero(~fit)[1:]
    want = d * ref.fractions(10.0**-p, [f_hi(m, k1), f_hi(m, k2)])[0] / f_hi(m, k0) - air
    util.close(e[after], want[after], "projected fCO2 excess", rtol=1e-6, atol=1e-3)
    first = fco2_in.copy()
    first[np.isnan(first)] = np.nanmax(first)
    util.close(e[fit], pchip_interpolate(mt, first - air, m[fit]), "fCO2 excess that is fitted", rtol=1e-7, atol=1e-6)
    # values at the measurements
    k_, dic_, fco2_, fitted_ = out
    util.close(k_, k, "loss constant", rtol=1e-9, atol=1e-12)
    util.equal_masks(fitted_, pH >= split, "points fitted")
    inside = mt <= m.max()
    if c.get("uneven"):  # between the high-resolution values on either side
        j = np.clip(np.searchsorted(m, mt[inside], side="right") - 1, 0, len(m) - 2)
        for got, v, what in ((dic_[inside] * 1e6, d, "DIC"), (fco2_[inside], e + air, "fCO2")):
            lo, hi_ = np.minimum(v[j], v[j + 1]), np.maximum(v[j], v[j + 1])
            slack = 1e-6 * np.abs(v[j]) + 1e-6
            util.check(np.all((got >= lo - slack) & (got <= hi_ + slack)), f"{what} at the measurements is not between the high-resolution values")
    else:
        util.close(dic_[inside] * 1e6, np.interp(mt, m, d)[inside], "DIC at the measurements", rtol=1e-4, atol=1e-2)
        jumps = np.abs(np.diff(e)).max()
        util.close(fco2_[inside], np.interp(mt, m, e)[inside] + air, "fCO2 at the measurements", rtol=1e-4, atol=1e-6 * jumps + 1e-3)
    return dict(nontrivial=c["k"] > 0, gaps=bool(gaps))
