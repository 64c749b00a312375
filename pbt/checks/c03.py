"""C03: solved values are the best fit over exactly the points in the pH range."""
import numpy as np
from hypothesis import strategies as st

from calkulate import core

from .. import expect, gen, layers, ref, util
from ..engine import sub

RULE = (
    "at least 3 points in the window, no point within 2e-4 pH of its edges, "
    "well-conditioned fit"
)


def expected(r):
    if r is None:
        return None
    try:
        ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    except ref.Indeterminate:
        return None
    if ex.npts < 3:
        return None
    return ex


@st.composite
def noisy(draw, **kw):
    noise = draw(st.sampled_from([0.02, 0.5, 2.0]))
    return draw(gen.titrations(modes=("emf", "emf", "emf", "pH", "pH", "pH_adjust", "pH_gran"), noise=noise, **kw))


@sub("C03", "arrays", noisy, 1600, 60000, RULE)
def arrays(case):
    r = gen.realise(case)
    ex = expected(r)
    if ex is None:
        return {}
    sr = layers.core_solve(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
    expect.core_result(sr, ex)
    return dict(nontrivial=True, mode=r.mode, double=str(r.meta.get("double", True)))


@sub("C03", "file", noisy, 500, 15000, RULE)
def one_file(case):
    r = gen.realise(case)
    ex = expected(r)
    if ex is None:
        return {}
    with util.scratch() as d:
        layers.write(d, "t.dat", r)
        with util.quiet():
            sr = layers.file_solve(d, "t.dat", r.meta, r.molinity)
    expect.core_result(sr, ex, "file")
    return dict(nontrivial=True, mode=r.mode)


@sub(
    "C03", "dataset", lambda: st.lists(noisy(max_points=20), min_size=1, max_size=3),
    400, 12000, RULE + " for at least one titration",
)
def dataset(cases):
    rs = [r for r in (gen.realise(c) for c in cases) if r is not None]
    exs = [expected(r) for r in rs]
    if not any(e is not None for e in exs):
        return {}
    with util.scratch() as d:
        rows = []
        for i, r in enumerate(rs):
            layers.write(d, f"t{i}.dat", r)
            rows.append(dict(r.meta, file_name=f"t{i}.dat", file_path=d, titrant_molinity=r.molinity))
        ds = layers.dataset_solve(rows)
    for i, ex in enumerate(exs):
        if ex is not None:
            expect.dataset_row(ds.iloc[i], ex, f"dataset row {i}")
    return dict(nontrivial=True, rows=str(len(rs)))


# --- window edges are inclusive -------------------------------------------------
@st.composite
def edges(draw):
    c = draw(gen.titrations(modes=("pH",), noise=0.5, max_points=20, rich=False))
    c["edge"] = [draw(st.integers(0, 40)), draw(st.integers(0, 40))]
    c["which"] = draw(st.sampled_from(["min", "max", "both"]))
    return c


@sub("C03", "edges_pH", edges, 600, 12000, "some measured pH equals pH_min or pH_max exactly")
def edges_pH(case):
    """In pH mode the window can be put exactly on measured values."""
    r = gen.realise(case)
    if r is None:
        return {}
    i, j = (k % r.n for k in case["edge"])
    lo, hi = sorted([float(r.measurement[i]), float(r.measurement[j])])
    meta = dict(r.meta)
    if case["which"] in ("min", "both"):
        meta["pH_min"] = lo
        meta["pH_max"] = hi if case["which"] == "both" else 20.0
    else:
        meta["pH_min"], meta["pH_max"] = 0.0, hi
    if not meta["pH_min"] < meta["pH_max"]:
        return {}
    ex = ref.process(meta, r.amount, r.measurement, r.temperature, r.molinity)
    if ex.npts < 1:
        return {}
    sr = layers.core_solve(meta, r.amount, r.measurement, r.temperature, r.molinity)
    expect.core_result(sr, ex)
    return dict(nontrivial=True)


@st.composite
def emf_edges(draw):
    return dict(
        emf0=draw(gen.num(-300, 900, 2)),
        steps=draw(st.lists(gen.num(-60, 60, 2), min_size=6, max_size=20)),
        at=draw(st.lists(st.integers(0, 19), min_size=1, max_size=2)),
        side=draw(st.sampled_from(["min", "max"])),
        temperature=draw(gen.num(5, 35, 2)),
    )


@sub(
    "C03", "edges_emf", emf_edges, 600, 12000,
    "a point lies exactly on a window edge and at least 4 points are used",
)
def edges_emf(case):
    """An EMF equal to EMF0 is pH 0 exactly, so it can lie on a window edge."""
    n = len(case["steps"])
    emf = case["emf0"] + np.array(case["steps"])
    for i in case["at"]:
        emf[i % n] = case["emf0"]
    pH = ref.pH_from_emf(emf, case["emf0"], case["temperature"])
    if np.any((np.abs(pH) > 0) & (np.abs(pH) < 1e-6)):
        return {}
    kw = dict(pH_min=0.0, pH_max=3.0) if case["side"] == "min" else dict(pH_min=-3.0, pH_max=0.0)
    want = (pH >= kw["pH_min"]) & (pH <= kw["pH_max"])
    if want.sum() < 4:
        return {}
    mt = np.linspace(0.001, 0.004, n)
    t = np.full(n, case["temperature"])
    with util.quiet():
        sr = core.solve_emf(
            0.1, mt, emf, t, 0.1, {"dic": np.full(n, 2e-3)},
            {"k_water": np.full(n, 1e-13), "k_carbonic_1": np.full(n, 1e-6), "k_carbonic_2": np.full(n, 1e-9)},
            alkalinity_init=2300.0, emf0_init=case["emf0"], double=False, **kw,
        )
    util.equal_masks(sr.used, want, "points used")
    return dict(nontrivial=True, side=case["side"])
