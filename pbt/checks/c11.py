"""C11: each setting comes from the row, else the kwargs, else the default."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

import calkulate as calk
import calkulate.files
from calkulate import dataset as cds

from .. import expect, gen, layers, ref, util
from ..engine import sub
from .c02 import regular
from .c01 import determinate

NOT_AS_KWARG = {"salinity"}
MODES = ("emf", "emf", "pH", "pH_adjust", "pH_gran")
TEXT_LAYOUTS = (
    {}, {"delimiter": ","}, {"skip_header": 4}, {"skip_header": 0, "delimiter": ";"},
    {"col_titrant_amount": 2, "col_measurement": 0, "col_temperature": 1},
    {"col_measurement": 3}, {"col_temperature": 4}, {"encoding": "utf-16"}, {"encoding": "latin-1"},
)
TYPE_LAYOUTS = ({}, {"file_type": "pclims"}, {"file_type": "vindta"}, {"file_type": "genfromtxt"})
PAIRS = (("total_alpha", "k_alpha"), ("total_beta", "k_beta"))
UNKNOWN = ("pH_mim", "nonsense", "titrant_molinty", "Double", "file_types")
EXTRA = {
    "comment": "x", "station": 5, "k_unknown": 1e-7, "total_nothing": 99.0, "PH_MIN": 3.5,
    "emf": 1.0, "pH": 8.1, "temperature": 3.0, "titrant_mass": 0.1,
}


@st.composite
def shared_settings(draw):
    """Settings given as keyword arguments."""
    if gen.some(draw, 0.1):
        return {}
    pool = draw(gen.chemistry())
    pool.update(draw(gen.amounts()))
    mode = draw(st.sampled_from(MODES))
    pool.update(draw(gen.solver_settings(mode, 2300.0, 600.0)))
    if gen.some(draw, 0.3):
        pool["solve_mode"] = mode
    if gen.some(draw, 0.2):
        pool["temperature_override"] = draw(st.one_of(gen.num(5, 35, 2), st.just(0.0)))
    # keep a random part, so that single settings are often alone
    keep = draw(st.sampled_from([0.3, 0.7, 1.0]))
    out = {k: v for k, v in pool.items() if k not in NOT_AS_KWARG and gen.some(draw, keep)}
    for a, b in PAIRS:
        if (a in out) != (b in out):
            out.pop(a, None)
            out.pop(b, None)
    return out


@st.composite
def row_case(draw, shared):
    c = draw(gen.titrations(modes=MODES, max_points=16, noise=0.1))
    meta = c["meta"]
    drop = draw(st.sampled_from([0.0, 0.3, 0.8]))
    for k in list(meta):
        if k not in ("salinity", "analyte_mass", "analyte_volume") and gen.some(draw, drop):
            meta.pop(k)
    for a, b in PAIRS:
        if (a in meta) != (b in meta):
            meta.pop(a, None)
            meta.pop(b, None)
    eff = {**shared, **meta}
    mode = eff.get("solve_mode", "emf").lower()
    c["mode"] = {"ph": "pH", "ph_adjust": "pH_adjust", "ph_gran": "pH_gran", "emf": "emf"}[mode]
    if mode == "ph_adjust":
        c["emf0"] = round(c["emf0"] % 5, 3)
    if mode == "emf" and "emf0_init" in eff:
        c["emf0"] = round(eff["emf0_init"] + draw(gen.num(-3, 3, 2)), 3)
    if "alkalinity_init" in eff:
        c["alk"] = round(eff["alkalinity_init"] * draw(gen.num(0.9, 1.1, 3)), 2)
    return c


@st.composite
def sets(draw, calibrating=False):
    shared = draw(shared_settings())
    rows = [draw(row_case(shared)) for _ in range(draw(st.integers(1, 3)))]
    typed = draw(st.booleans())
    pool = TYPE_LAYOUTS if typed else TEXT_LAYOUTS
    c = dict(
        shared=shared, rows=rows,
        shared_layout=draw(st.sampled_from(pool)) if gen.some(draw, 0.4) else {},
        layouts=[draw(st.sampled_from(pool)) if gen.some(draw, 0.3) else {} for _ in rows],
        old_range=draw(st.booleans()),
        old_read=draw(st.booleans()),
        old_method=draw(st.sampled_from(["no", "kwarg", "column", "both"])),
        path=draw(st.sampled_from(["column", "kwarg", "mixed", "name"])),
        unknown=draw(st.lists(st.sampled_from(UNKNOWN), max_size=2, unique=True)) if gen.some(draw, 0.3) else [],
        extra=draw(st.lists(st.sampled_from(sorted(EXTRA)), max_size=3, unique=True)) if gen.some(draw, 0.4) else [],
        dataset_class=draw(st.booleans()),
        calibrating=calibrating,
    )
    return c


def write_layout(path, r, lay):
    """Write the file as described by the effective layout settings."""
    cols = [np.asarray(x, float) for x in (r.amount, r.measurement, r.temperature)]
    pclims = lay.get("file_type") == "pclims"
    where = [
        lay.get("col_titrant_amount", 1 if pclims else 0),
        lay.get("col_measurement", 2 if pclims else 1),
        lay.get("col_temperature", 5 if pclims else 2),
    ]
    if len(set(where)) < 3:
        return False
    table = np.full((len(cols[0]), 6), 0.5)
    for j, x in zip(where, cols):
        table[:, j] = x
    if pclims:
        with open(path, "w") as f:
            f.write("$S start\n")
            for row in table:
                f.write("\t".join(f"{v:.10f}" for v in row) + "\n")
            f.write("$E\n")
        r.amount, r.measurement, r.temperature = (np.round(x, 10) for x in cols)
        return True
    text = "".join(f"hé {i}\n" for i in range(lay.get("skip_header", 2)))
    delimiter = lay.get("delimiter", "\t")
    text += "".join(delimiter.join(repr(float(v)) for v in row) + "\n" for row in table)
    with open(path, "w", encoding=lay.get("encoding", "utf-8")) as f:
        f.write(text)
    return True


def prepare(c, d):
    """Files, metadata rows, kwargs and the effective settings of each row."""
    shared = dict(c["shared"])
    kwargs = dict(shared)
    if c["old_range"] and "pH_min" in kwargs and "pH_max" in kwargs:
        kwargs["pH_range"] = [kwargs.pop("pH_min"), kwargs.pop("pH_max")]
    lay = dict(c["shared_layout"])
    if c["old_method"] in ("kwarg", "both") and "file_type" in lay:
        kwargs["read_dat_method"] = lay["file_type"]
        lay = {}
    if lay:
        if c["old_read"]:
            kwargs["read_dat_kwargs"] = lay
        else:
            kwargs.update(lay)
    os.mkdir(os.path.join(d, "a"))
    os.mkdir(os.path.join(d, "b"))
    if c["path"] in ("kwarg", "mixed"):
        kwargs["file_path"] = os.path.join(d, "b")
    rows, rs = [], []
    for i, (case, own) in enumerate(zip(c["rows"], c["layouts"])):
        eff = {**shared, **case["meta"]}
        r = gen.realise(dict(case, meta=eff))
        if r is None:
            return None
        r.eff_layout = {**c["shared_layout"], **own}
        row = dict(case["meta"])
        for k, v in own.items():
            if k == "file_type" and c["old_method"] in ("column", "both"):
                row["read_dat_method"] = v
            else:
                row[k] = v
        name = f"t{i}.dat"
        folder = "a"
        if c["path"] == "column":
            row["file_path"] = os.path.join(d, "a")
        elif c["path"] == "kwarg":
            folder = "b"
        elif c["path"] == "mixed":
            folder = "ab"[i % 2]
            if folder == "a":
                row["file_path"] = os.path.join(d, "a")
        row["file_name"] = name if c["path"] != "name" else os.path.join(d, "a", name)
        r.path = os.path.join(d, folder, name)
        if not write_layout(r.path, r, r.eff_layout):
            return None
        if not c["calibrating"]:
            row["titrant_molinity"] = r.molinity
        for k in c["extra"]:
            row[k] = EXTRA[k]
        rows.append(row)
        rs.append(r)
    for k in c["unknown"]:
        kwargs[k] = 3.3
    return rows, rs, kwargs


def run(fn, rows, kwargs, dataset_class):
    df = layers.frame(rows)
    if dataset_class:
        df = calk.Dataset(df)
    with util.caught() as w:
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            out = fn(df, **kwargs)
    return out, [str(x.message) for x in w]


def warned(messages, unknown, given):
    """Unknown settings are reported, and only those."""
    for k in unknown:
        util.check(any(k in m for m in messages), f"no warning about the unknown setting {k}")
    for m in messages:
        if "not recognised" in m:
            for k in given:
                util.check(
                    k in UNKNOWN or k == "read_dat_method" or f" {k} " not in f" {m.split(':')[-1]} ",
                    f"warning about the setting {k}: {m}",
                )


def one_by_one(fn, r, value, eff, unknown):
    """The same through the functions for single files."""
    kw = {k: v for k, v in eff.items() if k != "salinity"}
    kw.update({k: 3.3 for k in unknown})
    with util.caught() as w:
        try:
            return fn(r.path, value, eff["salinity"], **kw)
        except Exception:
            return None
        finally:
            # only calibrating warns about them
            warned([str(x.message) for x in w], unknown if fn is calk.files.calibrate else [], kw)


def effective_file_kwargs(r):
    return dict(r.meta, **r.eff_layout)


@sub(
    "C11", "solve", sets, 900, 25000,
    "some setting given as a keyword argument or layout option, and at least one titration determinate",
)
def solve(c):
    with util.scratch() as d:
        p = prepare(c, d)
        if p is None:
            return {}
        rows, rs, kwargs = p
        keep = copy.deepcopy(kwargs)
        got, messages = run(calk.solve, rows, kwargs, c["dataset_class"])
        util.check(kwargs == keep, "the keyword arguments were altered")
        n = 0
        for i, r in enumerate(rs):
            try:
                ex = ref.process(r.meta, r.amount, r.measurement, r.temperature, r.molinity)
            except ref.Indeterminate:
                ex = None
            if ex is not None and ex.npts >= 3:
                expect.dataset_row(got.iloc[i], ex, f"row {i}")
                n += 1
            # one by one, with the same settings spelled out
            eff = effective_file_kwargs(r)
            sr = one_by_one(calk.files.solve, r, r.molinity, eff, c["unknown"])
            if sr is None:
                alk, npts = np.nan, 0
            else:
                alk = sr.alkalinity if sr.used.any() else np.nan
                npts = sr.used.sum()
            util.close(got["alkalinity"].iloc[i], alk, f"row {i}: alkalinity, one by one", rtol=1e-7, atol=1e-6, nan_ok=True)
            util.close(got["alkalinity_npts"].iloc[i], npts, f"row {i}: points, one by one")
    warned(messages, c["unknown"], kwargs)
    for k in c["extra"]:
        util.check(list(got[k]) == [EXTRA[k]] * len(rows), f"extra column {k} was changed")
    return dict(
        nontrivial=n > 0 and bool(c["shared"] or c["shared_layout"] or any(c["layouts"])),
        path=c["path"], unknown=bool(c["unknown"]), extra=bool(c["extra"]),
        layout=bool(c["shared_layout"] or any(c["layouts"])), rows=str(len(rows)),
    )


@sub(
    "C11", "calibrate", lambda: sets(calibrating=True), 350, 9000,
    "some setting given as a keyword argument or layout option, and at least one titration calibrated",
)
def calibrate(c):
    with util.scratch() as d:
        p = prepare(c, d)
        if p is None:
            return {}
        rows, rs, kwargs = p
        for i, (row, r) in enumerate(zip(rows, rs)):
            row["alkalinity_certified"] = r.alk
            row["analysis_batch"] = i
        keep = copy.deepcopy(kwargs)
        got, messages = run(calk.calibrate, rows, kwargs, c["dataset_class"])
        util.check(kwargs == keep, "the keyword arguments were altered")
        n = 0
        for i, r in enumerate(rs):
            eff = effective_file_kwargs(r)
            cal = one_by_one(calk.files.calibrate, r, r.alk, eff, c["unknown"])
            m = np.nan if cal is None else float(cal["x"][0])
            util.close(got["titrant_molinity_here"].iloc[i], m, f"row {i}: molinity, one by one", rtol=1e-7, nan_ok=True)
            n += bool(np.isfinite(m))
            if r.mode != "pH_gran" and not c["rows"][i].get("spike") and determinate(r) is not None:
                # far from the first guess: see the known finding of C02
                if regular(r):
                    util.close(m, r.molinity, f"row {i}: molinity", rtol=0.2)
    warned(messages, c["unknown"], kwargs)
    return dict(nontrivial=n > 0 and bool(c["shared"] or c["shared_layout"] or any(c["layouts"])), rows=str(len(rows)))
