"""Generators of titrations (Hypothesis strategies) and their realisation."""
import numpy as np
from hypothesis import strategies as st

from . import ref
from .engine import HarnessError


def num(lo, hi, digits=4):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(round(x, digits), lo), hi) + 0.0
    )


def some(draw, p=0.3):
    """True with probability about p; shrinks to False."""
    return draw(st.integers(0, 99)) >= 100 * (1 - p)


PK = dict(
    k_carbonic_1=(5.7, 6.3), k_carbonic_2=(8.7, 9.4), k_borate=(8.4, 9.0),
    k_bisulfate=(0.8, 1.2), k_fluoride=(2.4, 2.8), k_water=(13.0, 13.7),
    k_phosphoric_1=(1.4, 1.9), k_phosphoric_2=(5.7, 6.2),
    k_phosphoric_3=(8.5, 9.1), k_silicate=(9.2, 9.7), k_sulfide=(6.3, 6.9),
    k_ammonia=(9.0, 9.6),
)


@st.composite
def chemistry(draw, rich=True, salinity=None, carbonic=(1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18)):
    """Metadata describing the analyte's chemistry (umol/kg where contents)."""
    m = {}
    m["salinity"] = draw(
        salinity
        or st.one_of(
            st.sampled_from([35.0, 0.0, 0.5, 43.0]), num(0.5, 43, 3), num(28, 38, 3)
        )
    )
    if not rich:
        m["dic"] = draw(num(0, 2300, 2))
        return m
    if some(draw, 0.75):
        m["dic"] = draw(st.one_of(num(0, 4000, 2), st.sampled_from([0.0, 2000.0])))
    for k, hi in dict(
        total_ammonia=50, total_phosphate=30, total_silicate=250, total_sulfide=60
    ).items():
        if some(draw, 0.35):
            m[k] = draw(num(0, hi, 3))
    for x in ("alpha", "beta"):
        if some(draw, 0.25):
            m[f"total_{x}"] = draw(num(0.5, 150, 3))
            m[f"k_{x}"] = 10 ** -draw(
                st.one_of(num(3.0, 4.45), num(4.55, 9.5), num(4.4, 4.49))
            )
    for k, hi in dict(
        total_borate=800, total_fluoride=150, total_sulfate=40000
    ).items():
        if some(draw, 0.2):
            m[k] = draw(st.one_of(num(0, hi, 2), st.just(0.0)))
    if some(draw, 0.5):
        m["opt_k_carbonic"] = draw(st.sampled_from(list(carbonic)))
    for k in ("opt_k_bisulfate", "opt_k_fluoride", "opt_total_borate"):
        if some(draw, 0.3):
            m[k] = draw(st.sampled_from([2, 1]))
    for k, (lo, hi) in PK.items():
        if some(draw, 0.08):
            m[k] = 10 ** -draw(num(lo, hi))
    if some(draw, 0.3):
        m["dilute_totals_for_ks"] = draw(st.booleans())
    return m


@st.composite
def amounts(draw, rich=True, exotic=True):
    """Metadata about the analyte amount, the titrant and its unit."""
    m = {}
    if some(draw, 0.4):
        m["analyte_volume"] = draw(st.one_of(num(25, 400, 3), num(25, 400, 3), num(4, 1500, 3)))
        if some(draw, 0.25):
            m["analyte_mass"] = draw(num(0.025, 0.4, 5))
    else:
        m["analyte_mass"] = draw(st.one_of(num(0.025, 0.4, 5), num(0.025, 0.4, 5), num(0.004, 1.5, 5)))
    if not rich:
        return m
    if some(draw, 0.6):
        m["titrant_amount_unit"] = draw(
            st.sampled_from(["g", "kg", "ml", "mL", "KG", "G"])
        )
    titrant = draw(
        st.sampled_from(["HCl", "HCl", "H2SO4"] + (["phosphate", "fluoride", "sulfate"] if exotic else []))
    )
    if titrant == "H2SO4":
        m["titrant"] = draw(st.sampled_from(["H2SO4", "h2so4"]))
        m["titrant_total_sulfate"] = 1.0
        m["titrant_normality"] = 2.0
        if some(draw, 0.5):
            m["molinity_H2SO4"] = draw(num(0.05, 0.5))
    elif titrant != "HCl":
        m[f"titrant_total_{titrant}"] = draw(st.one_of(*[num(0.02, 0.3)] * 4, st.just(0.0)))
        if some(draw, 0.5):
            m["titrant_normality"] = draw(st.sampled_from([1.0, 2.0, 1.5]))
        if some(draw, 0.25):  # two at once
            other = draw(st.sampled_from([x for x in ("phosphate", "fluoride", "sulfate") if x != titrant]))
            m[f"titrant_total_{other}"] = draw(num(0.02, 0.2))
    if "titrant" not in m:
        if some(draw, 0.25):
            m["titrant"] = draw(st.sampled_from(["HCl", "hcl"]))
        if some(draw, 0.3):
            m["molinity_HCl"] = draw(num(0.02, 0.4))
        if some(draw, 0.3):
            m["molinity_NaCl"] = draw(num(0.0, 1.0)) if "molinity_HCl" in m else draw(num(0.05, 1.0))
    if some(draw, 0.2):
        m["titrant_density"] = draw(num(0.98, 1.1))
    return m


@st.composite
def titrations(
    draw,
    modes=("emf", "pH", "pH_adjust"),
    rich=True,
    noise=0.0,
    settings=True,
    max_points=40,
    exotic=True,
    salinity=None,
):
    """One titration: metadata, truth, schedule, optional noise."""
    meta = draw(chemistry(rich=rich, salinity=salinity))
    meta.update(draw(amounts(rich=rich, exotic=exotic)))
    mode = draw(st.sampled_from(list(modes)))
    if mode != "emf" or (rich and some(draw, 0.2)):
        meta["solve_mode"] = draw(
            st.sampled_from([mode, mode.lower(), mode.upper()])
        )
    case = dict(
        alk=draw(st.one_of(num(1800, 2600, 2), num(400, 5000, 2), num(400, 5000, 2), num(150, 9000, 2))),
        molinity=draw(st.one_of(num(0.08, 0.12, 5), num(0.03, 0.4, 5))),
        emf0=draw(num(-5, 5, 3) if mode == "pH_adjust" else st.one_of(*[num(-300, 900, 2)] * 5, num(-3, 3, 2))),
        temperature=draw(st.one_of(st.just(25.0), num(3, 39, 3), num(3, 39, 3), st.just(0.0))),
        drift=draw(num(-2.0, 2.0, 3)) if some(draw, 0.4) else 0.0,
        n_out=draw(st.integers(0, max(2, max_points // 3))),
        n_in=draw(st.integers(9, max_points)),
        start=draw(num(0, 0.9, 3)) if some(draw, 0.5) else 0.0,
        end_pH=draw(num(2.6, 3.05, 3)),
    )
    if some(draw, 0.3):
        # uneven additions
        case["jitter"] = draw(st.lists(num(-0.45, 0.45, 3), min_size=3, max_size=8))
    if some(draw, 0.1):
        # several measurements without titrant in between
        case["repeat"] = draw(st.lists(st.integers(1, 60), min_size=1, max_size=3))
    if max_points >= 40 and some(draw, 0.04):
        case["n_in"] = draw(st.integers(41, 250))
    if rich and some(draw, 0.2):
        meta["temperature_override"] = draw(st.one_of(num(3, 39, 2), num(3, 39, 2), st.sampled_from([0.0, 0, 20])))
    if settings:
        meta.update(draw(solver_settings(mode, case["alk"], case["emf0"])))
    if noise:
        case["noise"] = draw(
            st.lists(num(-noise, noise, 4), min_size=3, max_size=24)
        )
        if some(draw, 0.2):
            case["spike"] = [draw(st.integers(0, 60)), draw(num(-10, 10, 2))]
    case["mode"] = mode
    case["meta"] = meta
    return case


@st.composite
def solver_settings(draw, mode, alk=None, emf0=None, windows=True):
    m = {}
    if windows and some(draw, 0.35):
        m["pH_min"] = draw(st.one_of(num(2.7, 3.3, 3), num(2.7, 3.3, 3), st.sampled_from([0.0, 0, 2, 3])))
    if windows and some(draw, 0.35):
        m["pH_max"] = draw(st.one_of(num(3.6, 4.6, 3), num(3.6, 4.6, 3), st.sampled_from([4, 5.0, 5.5, 6])))
    if mode in ("emf", "pH_adjust"):
        if some(draw, 0.3):
            m["double"] = draw(st.booleans())
        if some(draw, 0.25):
            m["gran_logic"] = draw(st.sampled_from(["legacy", "v23.7+"]))
        if alk is not None and some(draw, 0.15):
            m["alkalinity_init"] = round(alk * draw(num(0.8, 1.2, 3)), 3)
        if emf0 is not None and mode == "emf" and some(draw, 0.15):
            m["emf0_init"] = round(emf0 + draw(num(-4, 4, 2)), 3)
            if abs(emf0) < 4 and some(draw, 0.5):
                m["emf0_init"] = 0.0
    return m


class Realised:
    """Numbers that the file of a generated titration would contain."""


def realise(case):
    meta = case["meta"]
    n = case["n_in"] + case["n_out"]
    t = case["temperature"] + case["drift"] * np.linspace(0, 1, n)
    # Temperature actually assumed by the chemistry
    t_used = (
        np.full(n, float(meta["temperature_override"]))
        if meta.get("temperature_override") is not None
        else t
    )
    r = Realised()
    ma = ref.analyte_mass_kg(meta, t_used)
    tot0 = ref.base_totals(meta)
    ks = ref.constants(meta, t_used[:1], tot0, 1.0)
    acid = case["molinity"] * float(meta.get("titrant_normality", 1))

    def mass_at(pH):
        # self-consistent with dilution of the totals by the titrant
        m = 0.0
        for _ in range(4):
            d = ma / (ma + m)
            tot = {k: v * d for k, v in tot0.items()}
            for x in ("sulfate", "phosphate", "fluoride"):
                f = meta.get(f"titrant_total_{x}")
                if f is not None:
                    tot[f"total_{x}"] += (1 - d) * case["molinity"] * f
            a = float(ref.alkalinity(pH, tot, ks)[0])
            m = max(0.0, ma * (case["alk"] * 1e-6 - a) / max(acid + a, 0.3 * acid))
        return m

    m_top = mass_at(4.15)
    m_end = max(mass_at(case["end_pH"]), 1.05 * m_top)
    grid = np.concatenate(
        [
            np.linspace(case["start"] * m_top, m_top, case["n_out"], endpoint=False),
            np.linspace(m_top, m_end, case["n_in"]),
        ]
    )
    if case.get("jitter"):
        step = np.gradient(grid)
        j = np.resize(case["jitter"], n)
        j[0] = 0.0
        grid = grid + j * step
        grid = np.sort(np.maximum(grid, 0.0))
    for i in case.get("repeat", ()):
        grid[i % n] = grid[max(i % n - 1, 0)]
    amount = ref.titrant_amount(grid, meta)
    mix = ref.Mixture(meta, amount, t, molinity=case["molinity"])
    pH = mix.true_pH(case["alk"])
    if not (np.all(np.isfinite(pH)) and np.all(pH > 0) and np.all(pH < 13.5)):
        return None
    emf = ref.emf_from_pH(pH, case["emf0"], mix.temperature)
    if case.get("noise"):
        emf = emf + np.resize(case["noise"], n)
        if case.get("spike"):
            i, d = case["spike"]
            emf[i % n] += d
    mode = case["mode"]
    if mode == "emf":
        meas = emf
    elif mode == "pH_adjust":
        meas = ref.pH_from_emf(emf, 0.0, mix.temperature)
    else:
        meas = ref.pH_from_emf(emf, case["emf0"], mix.temperature)
    r.amount, r.measurement, r.temperature = amount, np.asarray(meas), t
    r.mix, r.pH, r.emf, r.n = mix, pH, emf, n
    r.meta, r.mode = meta, mode
    r.alk, r.emf0, r.molinity = case["alk"], case["emf0"], case["molinity"]
    lo = meta.get("pH_min", 3)
    hi = meta.get("pH_max", 4)
    if not lo < hi:
        raise HarnessError("bad window")
    r.lo, r.hi = lo, hi
    return r
