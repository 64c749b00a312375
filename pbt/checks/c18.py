"""C18: Gran estimates follow the Gran equations over the documented points."""
import numpy as np
from hypothesis import strategies as st

from calkulate import convert, core

from .. import expect, gen, layers, ref, util
from ..engine import sub
from . import c03

LOGIC = ("v23.7+", "legacy")


@st.composite
def raw(draw):
    """Free-form data: EMFs that rise, dip and wander."""
    n = draw(st.integers(3, 30))
    c = dict(
        start=draw(gen.num(0, 3, 4)),
        steps=draw(st.lists(gen.num(0.01, 0.4, 3), min_size=n - 1, max_size=n - 1)),
        emf=draw(gen.num(-200, 700, 2)),
        demf=draw(st.lists(st.one_of(gen.num(0, 25, 2), gen.num(-30, 60, 2)), min_size=n - 1, max_size=n - 1)),
        temperature=draw(gen.num(2, 40, 2)),
        drift=draw(gen.num(-3, 3, 2)),
        ma=draw(gen.num(0.02, 0.4, 4)),
        molinity=draw(gen.num(0.02, 0.5, 4)),
        normality=draw(st.sampled_from([1, 2, 1.5, 0.5])),
        logic=draw(st.sampled_from(LOGIC)),
        explicit=draw(st.booleans()),
    )
    return c


def raw_arrays(c):
    n = len(c["steps"]) + 1
    mt = (c["start"] + np.concatenate([[0], np.cumsum(c["steps"])])) * 1e-3
    emf = c["emf"] + np.concatenate([[0], np.cumsum(c["demf"])])
    t = c["temperature"] + c["drift"] * np.linspace(0, 1, n)
    return mt, emf, t


@sub(
    "C18", "equations", raw, 4000, 200000,
    "at least 2 points selected, none within 1e-9 of the 10% or 90% thresholds",
)
def equations(c):
    mt, emf, t = raw_arrays(c)
    g = ref.Gran(mt, emf, t, c["ma"], c["molinity"], c["normality"], c["logic"])
    util.close(core.gran_function(mt, emf, t, c["ma"]), g.gfunc, "Gran function", rtol=1e-10)
    if not g.ok or g.margin < 1e-9 or np.ptp(g.gfunc[g.used]) == 0:
        return {}
    scale = np.max(np.abs(g.gfunc[g.used]))
    if abs(g.slope) * np.ptp(mt[g.used]) < 1e-6 * scale:
        return {}  # slope is all rounding error
    kw = {}
    if c["explicit"] or c["normality"] != 1:
        kw["titrant_normality"] = c["normality"]
    if c["explicit"] or c["logic"] != LOGIC[0]:
        kw["gran_logic"] = c["logic"]
    with util.caught() as w:
        ga = core.gran_alkalinity(mt, emf, t, c["ma"], c["molinity"], **kw)
    util.equal_masks(ga.used, g.used, "points selected")
    util.close(ga.alkalinity, g.alkalinity, "Gran alkalinity", rtol=1e-6, atol=1e-12)
    util.close(ga.intercept_x, g.intercept_x, "Gran intercept", rtol=1e-6, atol=1e-12)
    few = g.used.sum() < 3
    warned = any("Fewer than 3" in str(x.message) for x in w)
    util.check(warned == few, f"warned about few points: {warned}, with {g.used.sum()} points")
    kw0 = {"titrant_normality": c["normality"]} if "titrant_normality" in kw else {}
    e0 = core.gran_emf0s(mt, emf, t, c["ma"], c["molinity"], ga.alkalinity, **kw0)
    x = (mt * c["molinity"] * c["normality"] - c["ma"] * ga.alkalinity) / (mt + c["ma"])
    ok = x > 1e-9
    want = emf[ok] - ref.nernst_mV(t[ok]) * np.log(x[ok])
    util.close(np.asarray(e0)[ok], want, "Gran EMF0 of each point", rtol=1e-9, atol=1e-6)
    util.check(np.all(~np.isfinite(np.asarray(e0)[x < -1e-12])), "Gran EMF0 before the equivalence point is not missing")
    with util.quiet():
        gg = core.gran_guesses(mt, emf, t, c["ma"], c["molinity"], **kw)
    util.equal_masks(gg.used, g.used, "points selected for the guesses")
    util.close(gg.alkalinity, ga.alkalinity, "first-guess alkalinity", rtol=1e-12)
    good = bool(np.all(x[g.used] > 1e-9))
    if good:
        util.close(gg.emf0, np.mean(np.asarray(e0)[g.used]), "first-guess EMF0", rtol=1e-12, atol=1e-9)
        util.close(gg.pH, ref.pH_from_emf(emf, gg.emf0, t), "first-guess pH", rtol=1e-9, atol=1e-9)
    return dict(nontrivial=True, logic=c["logic"], emf0_defined=good, dips=bool(np.any(np.diff(g.gfunc) < 0)))


@st.composite
def strong(draw):
    return dict(
        alk=draw(gen.num(300, 5000, 2)),
        molinity=draw(gen.num(0.03, 0.4, 4)),
        normality=draw(st.sampled_from([1, 2, 1.5])),
        emf0=draw(gen.num(-300, 900, 2)),
        ma=draw(gen.num(0.02, 0.4, 4)),
        temperature=draw(gen.num(2, 40, 2)),
        drift=draw(gen.num(-2, 2, 2)),
        n=draw(st.integers(6, 40)),
        end=draw(gen.num(1.2, 2.2, 3)),
        start=draw(gen.num(0, 1.05, 3)),
        logic=draw(st.sampled_from(LOGIC)),
    )


@sub("C18", "strong_base", strong, 2000, 60000, "at least 3 points selected for the fit")
def strong_base(c):
    """Acid into strong base: Gran results are exact."""
    eq = c["ma"] * c["alk"] * 1e-6 / (c["molinity"] * c["normality"])
    mt = np.linspace(c["start"] * eq, c["end"] * eq, c["n"])
    t = c["temperature"] + c["drift"] * np.linspace(0, 1, c["n"])
    acid = (mt * c["molinity"] * c["normality"] - c["ma"] * c["alk"] * 1e-6) / (mt + c["ma"])
    h = np.where(acid > 1e-9, acid, 1e-10)
    emf = c["emf0"] + ref.nernst_mV(t) * np.log(h)
    g = ref.Gran(mt, emf, t, c["ma"], c["molinity"], c["normality"], c["logic"])
    if not g.ok or g.used.sum() < 3 or g.margin < 1e-9 or np.any(acid[g.used] <= 1e-9):
        return {}
    if abs(c["drift"]) > 0:  # the Gran function is linear at constant temperature only
        t = np.full(c["n"], c["temperature"])
        emf = c["emf0"] + ref.nernst_mV(t) * np.log(h)
        g = ref.Gran(mt, emf, t, c["ma"], c["molinity"], c["normality"], c["logic"])
        if not g.ok or g.used.sum() < 3 or g.margin < 1e-9 or np.any(acid[g.used] <= 1e-9):
            return {}
    with util.quiet():
        gg = core.gran_guesses(mt, emf, t, c["ma"], c["molinity"], titrant_normality=c["normality"], gran_logic=c["logic"])
    util.close(gg.alkalinity * 1e6, c["alk"], "Gran alkalinity of a strong base", rtol=1e-7)
    util.close(gg.emf0, c["emf0"], "Gran EMF0 of a strong base", rtol=0, atol=1e-4)
    util.close(np.asarray(gg.pH)[g.used], -np.log10(h[g.used]), "Gran pH", rtol=0, atol=1e-5)
    pH = -np.log10(h)
    lo, hi = np.min(pH) - 0.01, -np.log10(2e-9)
    if ((pH >= lo) & (pH <= hi)).sum() >= 3:
        sr = core.solve_pH_gran(c["molinity"], mt, pH, t, c["ma"], {}, {}, pH_min=lo, pH_max=hi, titrant_normality=c["normality"])
        util.close(sr.alkalinity, c["alk"], "pH Gran alkalinity of a strong base", rtol=1e-7)
    return dict(nontrivial=True, logic=c["logic"])


@st.composite
def windows(draw):
    n = draw(st.integers(3, 25))
    c = dict(
        pH=draw(st.lists(gen.num(2.0, 7.0, 2), min_size=n, max_size=n)),
        steps=draw(st.lists(gen.num(0.01, 0.4, 3), min_size=n, max_size=n)),
        ma=draw(gen.num(0.02, 0.4, 4)),
        molinity=draw(gen.num(0.02, 0.5, 4)),
        normality=draw(st.sampled_from([1, 2, 1.5])),
    )
    if gen.some(draw, 0.7):
        c["pH_min"] = draw(gen.num(2.0, 3.5, 2))
    if gen.some(draw, 0.7):
        c["pH_max"] = draw(gen.num(3.6, 7.0, 2))
    if gen.some(draw, 0.7):
        c["sorted"] = True
    return c


@sub("C18", "pH_gran", windows, 2500, 80000, "at least 2 points in the pH window and a determinate slope")
def pH_gran(c):
    pH = np.array(sorted(c["pH"], reverse=True) if c.get("sorted") else c["pH"])
    mt = np.cumsum(c["steps"]) * 1e-3
    kw = {k: c[k] for k in ("pH_min", "pH_max") if k in c}
    if c["normality"] != 1:
        kw["titrant_normality"] = c["normality"]
    lo, hi = c.get("pH_min", 3), c.get("pH_max", 4)
    used = (pH >= lo) & (pH <= hi)
    if used.sum() < 2:
        return {}
    g = (mt + c["ma"]) * 10.0**-pH
    slope, intercept = ref.linfit(mt[used], g[used])
    if abs(slope) * np.ptp(mt[used]) < 1e-6 * np.max(g[used]):
        return {}
    sr = core.solve_pH_gran(c["molinity"], mt, pH, np.full(len(pH), 25.0), c["ma"], {}, {}, **kw)
    util.equal_masks(sr.used, used, "points used")
    util.close(sr.gfunc, g, "Gran function", rtol=1e-10)
    want = -intercept / slope * c["molinity"] * c["normality"] / c["ma"] * 1e6
    util.close(sr.alkalinity, want, "pH Gran alkalinity", rtol=1e-6, atol=1e-6)
    edge = bool(np.any(used & ((pH == lo) | (pH == hi))))
    return dict(nontrivial=True, on_edge=edge)


@st.composite
def reported(draw):
    noise = draw(st.sampled_from([0.02, 0.5, 2.0]))
    c = draw(gen.titrations(modes=("emf", "emf", "pH_adjust", "pH_gran"), noise=noise, max_points=20))
    c["as_kwarg"] = draw(st.booleans())
    return c


@sub(
    "C18", "reported", lambda: st.lists(reported(), min_size=1, max_size=3), 500, 12000,
    "at least one titration with a determinate reference result",
)
def in_results(cases):
    """The Gran results reported by files.solve and by a dataset."""
    rs = [r for r in (gen.realise(c) for c in cases) if r is not None]
    exs = [c03.expected(r) for r in rs]
    if not any(e is not None for e in exs):
        return {}
    with util.scratch() as d:
        rows = []
        for i, (r, ex) in enumerate(zip(rs, exs)):
            layers.write(d, f"t{i}.dat", r)
            rows.append(dict(r.meta, file_name=f"t{i}.dat", file_path=d, titrant_molinity=r.molinity))
            if ex is not None:
                with util.quiet():
                    sr = layers.file_solve(d, f"t{i}.dat", r.meta, r.molinity)
                expect.core_result(sr, ex, "file")
        ds = layers.dataset_solve(rows)
    for i, ex in enumerate(exs):
        if ex is not None:
            expect.dataset_row(ds.iloc[i], ex, f"dataset row {i}")
    return dict(nontrivial=True, legacy=any(r.meta.get("gran_logic") == "legacy" for r in rs), pH_gran=any(r.mode == "pH_gran" for r in rs))
