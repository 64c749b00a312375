"""C07: totals and constants match PyCO2SYS and honour user-given values."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import PyCO2SYS as pyco2
from calkulate import convert, core, dataset, interface
from calkulate.read.titrations import DatData

from .. import expect, gen, layers, ref, util
from ..engine import sub
from .c03 import expected

ALL_CARBONIC = (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18)


@st.composite
def setups(draw):
    m = draw(gen.chemistry(carbonic=ALL_CARBONIC))
    if m.get("opt_k_carbonic") in (6, 8):
        # PyCO2SYS sets the contents that these options leave out to zero itself
        for k in ref.NUTRIENTS + ref.SALTS:
            m.pop(k, None)
    if gen.some(draw, 0.4):  # user-given constants far from those of seawater
        for k in draw(st.lists(st.sampled_from(sorted(gen.PK)), min_size=1, max_size=4, unique=True)):
            m[k] = 10 ** -draw(gen.num(0.5, 14, 3))
    if gen.some(draw, 0.2):  # contents far from those of seawater
        for k in draw(st.lists(st.sampled_from(ref.NUTRIENTS + ref.SALTS), min_size=1, max_size=3, unique=True)):
            if m.get("opt_k_carbonic") not in (6, 8):
                m[k] = draw(gen.num(0, 1e5, 2))
    n = draw(st.integers(1, 8))
    return dict(
        meta=m,
        mt=draw(st.lists(gen.num(0, 0.01, 5), min_size=n, max_size=n)),
        ma=draw(gen.num(0.02, 0.4, 4)),
        temperature=draw(st.lists(gen.num(2, 39, 2), min_size=n, max_size=n)),
        nulls=draw(st.booleans()),
    )


@sub(
    "C07", "through_titration", setups, 2500, 80000,
    "at least one option or content given; totals and constants at every point compared",
)
def through_titration(c):
    m = dict(c["meta"])
    mt, t, ma = np.array(c["mt"]), np.array(c["temperature"]), c["ma"]
    cv = convert.Converted(mt, np.zeros(len(mt)), t, ma, m["salinity"])
    kw = {k: v for k, v in m.items() if k != "salinity"}
    if c["nulls"]:  # not given, spelled out
        for k in ("total_borate", "total_fluoride", "total_sulfate", "k_borate", "k_water"):
            kw.setdefault(k, None)
    keep = dict(kw)
    with util.quiet():
        totals, ks = core.totals_ks(cv, **kw)
    util.check(kw == keep, "keyword arguments were altered")
    dil = ma / (ma + mt)
    base = ref.base_totals(m)
    for k, v in base.items():
        got = totals.get(k, 0.0)
        util.close(np.broadcast_to(got, mt.shape), v * dil, f"{k} through the titration", rtol=1e-10, atol=1e-20)
    for k in totals:
        util.check(k in base, f"unexpected content {k}")
    want = ref.constants(m, t, base, dil if m.get("dilute_totals_for_ks") else 1.0)
    for k, v in want.items():
        util.check(k in ks, f"constant {k} is missing")
        util.close(np.broadcast_to(ks[k], mt.shape), v, f"{k} through the titration", rtol=1e-9)
    # user values exactly as provided
    for k in m:
        if k.startswith("k_"):
            util.close(np.broadcast_to(ks[k], mt.shape), np.full(mt.shape, m[k]), f"user-given {k}", rtol=1e-12)
    return dict(nontrivial=len(m) > 2, diluted_ks=bool(m.get("dilute_totals_for_ks")), opt=str(m.get("opt_k_carbonic", "default")))


@sub(
    "C07", "interface", setups, 1500, 50000,
    "undiluted totals and constants on the Free, Total and Seawater scales",
)
def undiluted(c):
    m = dict(c["meta"])
    m.pop("dilute_totals_for_ks", None)
    kt = {k: v for k, v in m.items() if k == "dic" or k.startswith("total_") or k in ("opt_k_carbonic", "opt_total_borate")}
    with util.quiet():
        totals, tp = interface.get_totals(m["salinity"], **kt)
    base = ref.base_totals(m)
    for k, v in base.items():
        util.close(totals.get(k, 0.0), v, k, rtol=1e-11, atol=1e-20)
    t = np.array(c["temperature"])
    kk = {k: v for k, v in m.items() if k.startswith(("k_", "opt_")) }
    scale = 1 + len(t) % 3
    with util.quiet():
        ks = interface.get_k_constants(tp, t, opt_pH_scale=scale, **kk)
        opts = dict(ref.OPT_DEFAULTS)
        opts.update({k: m[k] for k in opts if k in m})
        user = {k: m[k] for k in ref.K_NAMES if k in m}
        r = pyco2.sys(
            salinity=m["salinity"], temperature=t, pressure=0, opt_pH_scale=scale,
            opt_gas_constant=3, **{k: base[k] * 1e6 for k in ref.SALTS}, **opts, **user,
        )
    for k in ref.K_NAMES:
        want = np.broadcast_to(np.asarray(r[k], float), t.shape)
        if k in user:
            want = np.full(t.shape, user[k])
        if k == "k_fluoride" and scale == 1:
            # documented: on the Total scale, unlike in PyCO2SYS
            want = want * (1 + base["total_sulfate"] / np.asarray(ks["k_bisulfate"]))
        util.close(np.broadcast_to(ks[k], t.shape), want, f"{k} on scale {scale}", rtol=1e-9)
    return dict(nontrivial=True, scale=str(scale))


@st.composite
def tables(draw):
    n = draw(st.integers(1, 5))
    rows = []
    for _ in range(n):
        row = dict(salinity=draw(gen.num(1, 43, 2)))
        for k, hi in dict(total_borate=800, total_fluoride=150, total_sulfate=40000).items():
            if gen.some(draw, 0.35):
                row[k] = draw(st.one_of(gen.num(0, hi, 2), st.just(0.0)))
        if gen.some(draw, 0.4):
            row["opt_k_carbonic"] = draw(st.sampled_from([1, 4, 10, 14]))
        if gen.some(draw, 0.4):
            row["opt_total_borate"] = draw(st.sampled_from([2, 1]))
        rows.append(row)
    kw = {}
    if gen.some(draw, 0.3):
        kw["opt_k_carbonic"] = draw(st.sampled_from([1, 5, 10, 16]))
    if gen.some(draw, 0.3):
        kw["opt_total_borate"] = draw(st.sampled_from([2, 1]))
    if gen.some(draw, 0.2):
        kw["total_borate"] = draw(gen.num(0, 800, 2))
    if gen.some(draw, 0.2):
        kw["total_fluoride"] = draw(gen.num(0, 150, 2))
    return dict(rows=rows, kwargs=kw, index=draw(st.sampled_from([0, 5, -3])))


@sub("C07", "dataset", tables, 1200, 30000, "at least one content estimated from salinity")
def dataset_salts(c):
    """Salt contents filled in for a dataset."""
    n = len(c["rows"])
    df = layers.frame(c["rows"], index=[c["index"] + 2 * i for i in range(n)])
    with util.quiet():
        got = dataset.get_total_salts(df, **c["kwargs"])
    estimated = False
    for i, row in enumerate(c["rows"]):
        opts = {k: row.get(k, c["kwargs"].get(k, d)) for k, d in (("opt_k_carbonic", 10), ("opt_total_borate", 1))}
        est = ref.salts_from_salinity(row["salinity"], opts)
        for k in ref.SALTS:
            want = row.get(k, c["kwargs"].get(k))
            if want is None:
                want = est[k]
                estimated = True
            util.close(got[k].iloc[i], want, f"row {i}: {k}", rtol=1e-10)
        util.close(got["salinity"].iloc[i], row["salinity"], f"row {i}: salinity", rtol=0)
    return dict(nontrivial=estimated)


# --- the whole way, from files and datasets -----------------------------------------
RULE = "at least 3 points in the window, none within 2e-4 pH of its edges"


@sub("C07", "file", lambda: gen.titrations(modes=("emf", "pH", "pH_adjust", "pH_gran"), max_points=12), 500, 15000, RULE)
def one_file(case):
    """Contents and constants that a file's solution was calculated with."""
    r = gen.realise(case)
    ex = expected(r)
    if ex is None:
        return {}
    with util.scratch() as d, util.quiet():
        layers.write(d, "t.dat", r)
        sr = layers.file_solve(d, "t.dat", r.meta, r.molinity)
    expect.core_result(sr, ex, "file", gran=False)
    return dict(nontrivial=True, mode=r.mode)


@st.composite
def rows(draw):
    cases = [draw(gen.titrations(max_points=12)) for _ in range(draw(st.integers(1, 3)))]
    # contents and constants of the whole dataset
    pool = draw(gen.chemistry())
    shared = {k: v for k, v in pool.items() if k.startswith(("k_", "opt_", "total_", "dic", "dilute")) and gen.some(draw, 0.4)}
    for x in ("alpha", "beta"):
        if (f"total_{x}" in shared) != (f"k_{x}" in shared):
            shared.pop(f"total_{x}", None)
            shared.pop(f"k_{x}", None)
    return dict(cases=cases, shared=shared)


@sub("C07", "results", rows, 300, 9000, RULE + " for at least one titration")
def results(c):
    """Results of datasets whose contents and constants come from everywhere."""
    rs = [gen.realise(dict(x, meta={**c["shared"], **x["meta"]})) for x in c["cases"]]
    exs = [expected(r) for r in rs]
    if not any(e is not None for e in exs) or any(r is None for r in rs):
        return {}
    with util.scratch() as d:
        table = []
        for i, (r, x) in enumerate(zip(rs, c["cases"])):
            layers.write(d, f"t{i}.dat", r)
            table.append(dict(x["meta"], file_name=f"t{i}.dat", file_path=d, titrant_molinity=r.molinity))
        ds = layers.dataset_solve(table, **c["shared"])
    for i, (r, ex) in enumerate(zip(rs, exs)):
        if ex is not None:
            expect.dataset_row(ds.iloc[i], ex, f"dataset row {i}")
        for k in ref.SALTS:
            util.close(ds[k].iloc[i], ref.base_totals(r.meta)[k] * 1e6, f"dataset row {i}: {k}", rtol=1e-9)
    return dict(nontrivial=True, shared=bool(c["shared"]), rows=str(len(rs)))
