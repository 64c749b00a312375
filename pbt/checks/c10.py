"""C10: batch titrant molinity is the mean over the batch's good references."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk
from calkulate import dataset as cds

from .. import gen, layers, util
from ..engine import sub
from .c09 import INDEXES, make_index
from .c01 import determinate
from .c02 import regular

BATCHES = {
    "int": [0, 1, 5],
    "negative": [-1, 0, 3],
    "text": ["a", "B", "batch 3"],
    "float": [0.5, 1.0, 2.25],
    "date": [pd.Timestamp("2020-01-01"), pd.Timestamp("2020-01-02"), pd.Timestamp("2021-05-05")],
    "bool": [True, False, True],
    "categorical": ["p", "q", "r"],
}


@st.composite
def batches(draw):
    n_files = draw(st.integers(1, 3))
    files = draw(
        st.lists(
            gen.titrations(modes=("emf", "pH", "pH", "pH_adjust"), noise=0.05, max_points=14, rich=False),
            min_size=n_files, max_size=n_files,
        )
    )
    n = draw(st.integers(1, 10))
    kind = draw(st.sampled_from([None] + list(BATCHES)))
    rows = []
    for _ in range(n):
        row = dict(file=draw(st.integers(0, n_files - 1)), batch=draw(st.integers(0, 2)))
        if gen.some(draw, 0.7):
            row["certified"] = draw(gen.num(-150, 150, 2))
        row["reference_good"] = draw(st.sampled_from([True, True, True, False, None]))
        row["file_good"] = draw(st.sampled_from([True] * 6 + [False]))
        row["fault"] = draw(st.sampled_from([None] * 14 + ["missing", "no_points", "garbage"]))
        row["no_batch"] = gen.some(draw, 0.08)
        rows.append(row)
    if gen.some(draw, 0.1):  # many references that agree, and one that does not
        for i in range(draw(st.integers(9, 14))):
            rows.append(dict(
                file=0, batch=0, certified=draw(gen.num(-2, 2, 2)) if i else draw(gen.num(-600, 600, 1)),
                reference_good=True, file_good=True, fault=None, no_batch=False,
            ))
    return dict(
        files=files, rows=rows, kind=kind,
        reference_good=draw(st.sampled_from(["column", "column", "numbers", "absent"])),
        file_good=draw(st.sampled_from(["column", "absent"])),
        stale=draw(st.sampled_from([False, False, True])),
        index=draw(st.sampled_from(INDEXES)),
        both=draw(st.booleans()),
        dataset_class=draw(st.booleans()),
    )


@sub(
    "C10", "batches", batches, 450, 12000,
    "two batches or a bad, faulty or uncertified titration next to a good reference",
)
def batch_means(c):
    rs = [gen.realise(x) for x in c["files"]]
    rs = [r for r in rs if determinate(r) is not None]
    if not rs:
        return {}
    c = dict(c, rows=[dict(x, file=x["file"] % len(rs)) for x in c["rows"]])
    values = BATCHES.get(c["kind"])
    here, rows, keys = [], [], []
    with util.scratch() as d:
        for i, r in enumerate(rs):
            layers.write(d, f"f{i}.dat", r)
        with open(os.path.join(d, "garbage.dat"), "w") as f:
            f.write("x\ty\tz\n" * 12)
        cache = {}
        for x in c["rows"]:
            r = rs[x["file"]]
            name = {"missing": "missing.dat", "garbage": "garbage.dat"}.get(x["fault"], f"f{x['file']}.dat")
            row = dict(r.meta, file_name=name, file_path=d)
            if x["fault"] == "no_points":
                row.update(pH_min=15.0, pH_max=16.0)
            row["alkalinity_certified"] = (
                np.nan if "certified" not in x else round(r.alk + x["certified"], 2)
            )
            key = 0
            if values is not None:
                key = values[x["batch"]]
                row["analysis_batch"] = key
                if x["no_batch"] and c["kind"] not in ("bool",):
                    row["analysis_batch"] = key = np.nan
            good = True
            if c["file_good"] == "column":
                row["file_good"] = x["file_good"]
                good = x["file_good"]
            ref_good = True
            if c["reference_good"] == "column":
                row["reference_good"] = np.nan if x["reference_good"] is None else x["reference_good"]
                ref_good = x["reference_good"] is not False
            elif c["reference_good"] == "numbers":
                row["reference_good"] = 0 if x["reference_good"] is False else 1
                ref_good = x["reference_good"] is not False
            if c["stale"]:
                row["titrant_molinity"] = 0.5
                row["titrant_molinity_here"] = 0.4
            h = np.nan
            if "certified" in x and good and not x["fault"]:
                k = (x["file"], row["alkalinity_certified"])
                if k not in cache:
                    try:
                        with util.quiet():
                            cache[k] = layers.file_calibrate(d, name, r.meta, k[1])
                    except ValueError:  # no points in range with any molinity tried
                        if k[1] == r.alk and regular(r):
                            raise
                        cache[k] = np.nan
                h = cache[k]
            here.append(h)
            keys.append((key, ref_good, good and not x["fault"]))
            rows.append(row)
        if values is not None and all(pd.isnull(k[0]) for k in keys):
            return {}  # nothing to group by
        df = layers.frame(rows, index=make_index(c["index"], len(rows)))
        if c["kind"] == "categorical":
            df["analysis_batch"] = df["analysis_batch"].astype("category")
        if c["dataset_class"]:
            df = calk.Dataset(df)
        with util.quiet():
            if c["both"]:
                got = calk.calkulate(df)
            else:
                got = calk.calibrate(df)
            table = cds.get_batches(got)
        here = np.array(here)
        util.close(got["titrant_molinity_here"], here, "individually calibrated molinity", rtol=1e-7, nan_ok=True)
        here = np.asarray(got["titrant_molinity_here"], float)
        groups = {}
        for (key, ref_good, _), h in zip(keys, here):
            if not pd.isnull(key):
                groups.setdefault(key, [])
                if ref_good and not np.isnan(h):
                    groups[key].append(h)
        for i, (key, _, usable) in enumerate(keys):
            g = groups.get(key, []) if not pd.isnull(key) else []
            want = np.mean(g) if g else np.nan
            util.close(got["titrant_molinity"].iloc[i], want, f"row {i}: batch molinity", rtol=1e-11, nan_ok=True)
            alk = got["alkalinity"].iloc[i]
            if not g or not usable:
                util.check(np.isnan(alk), f"row {i}: alkalinity is {alk!r} with molinity {want!r}")
                continue
            x = c["rows"][i]
            try:
                with util.quiet():
                    sr = layers.file_solve(d, f"f{x['file']}.dat", rs[x["file"]].meta, want)
            except Exception:  # cannot be solved with this molinity
                sr = None
            found = sr is not None and bool(np.any(sr.used))
            util.check(np.isnan(alk) != found, f"row {i}: alkalinity is {alk!r} with molinity {want!r}")
            if found:
                if sr.used.sum() == got["alkalinity_npts"].iloc[i]:
                    util.close(alk, sr.alkalinity, f"row {i}: alkalinity", rtol=1e-5)
                off = alk - rows[i]["alkalinity_certified"]
                util.close(got["alkalinity_offset"].iloc[i], off, f"row {i}: offset", rtol=1e-9, atol=1e-9, nan_ok=True)
    util.check(len(table) == len(groups), f"{len(table)} batches reported, expected {len(groups)}")
    for key, g in groups.items():
        line = table.loc[key]
        util.close(line["titrant_molinity__count"], len(g), f"batch {key}: count")
        util.close(line["titrant_molinity"], np.mean(g) if g else np.nan, f"batch {key}: mean", rtol=1e-11, nan_ok=True)
        util.close(
            line["titrant_molinity__std"], np.std(g, ddof=1) if len(g) > 1 else np.nan,
            f"batch {key}: standard deviation", rtol=1e-5, atol=1e-12, nan_ok=True,
        )
    some_ref = any(len(g) for g in groups.values())
    return dict(
        nontrivial=some_ref and len(rows) > 1,
        batches=str(len(groups)), kind=str(c["kind"]), reference_good=c["reference_good"],
        without=any(not g for g in groups.values()),
    )


# --- the grouping by itself, over many more patterns ------------------------------
@st.composite
def tables(draw):
    n = draw(st.integers(1, 25))
    rows = []
    for _ in range(n):
        rows.append(
            [
                draw(st.integers(0, 4)),
                draw(st.one_of(st.none(), gen.num(0.05, 0.3, 6), gen.num(0.05, 0.3, 6), gen.num(0.001, 12, 6))),
                draw(st.booleans()),
            ]
        )
    if gen.some(draw, 0.2):  # many references that agree, and a few that do not
        mid = draw(gen.num(0.05, 0.3, 4))
        for _ in range(draw(st.integers(10, 40))):
            rows.append([0, mid * (1 + draw(gen.num(-0.002, 0.002, 5))), True])
        for _ in range(draw(st.integers(1, 2))):
            rows.insert(draw(st.integers(0, len(rows))), [0, mid * draw(gen.num(0.5, 2, 3)), True])
    return dict(rows=rows, kind=draw(st.sampled_from(["int", "text", "float"])), index=draw(st.sampled_from(INDEXES)))


@sub("C10", "statistics", tables, 3000, 80000, "at least two rows with a calibrated molinity")
def statistics(c):
    name = {"int": lambda b: b - 2, "text": lambda b: f"b{b}", "float": lambda b: b / 4}[c["kind"]]
    df = pd.DataFrame(
        dict(
            analysis_batch=[name(r[0]) for r in c["rows"]],
            titrant_molinity_here=[np.nan if r[1] is None else r[1] for r in c["rows"]],
            reference_good=[r[2] for r in c["rows"]],
        ),
        index=make_index(c["index"], len(c["rows"])),
    )
    keep = df.copy(deep=True)
    with util.quiet():
        table = cds.get_batches(df)
    util.check(df.equals(keep), "get_batches altered the dataset")
    groups = {}
    for b, h, good in c["rows"]:
        groups.setdefault(name(b), [])
        if good and h is not None:
            groups[name(b)].append(h)
    util.check(set(table.index) == set(groups), f"batches {list(table.index)}, expected {list(groups)}")
    for key, g in groups.items():
        line = table.loc[key]
        util.close(line["titrant_molinity__count"], len(g), f"batch {key}: count")
        util.close(line["titrant_molinity"], np.mean(g) if g else np.nan, f"batch {key}: mean", rtol=1e-12, nan_ok=True)
        util.close(
            line["titrant_molinity__std"], np.std(g, ddof=1) if len(g) > 1 else np.nan,
            f"batch {key}: standard deviation", rtol=1e-9, atol=1e-15, nan_ok=True,
        )
    return dict(nontrivial=sum(r[1] is not None for r in c["rows"]) > 1)
