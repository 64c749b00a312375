"""C09: titrations in a dataset are independent and failures stay contained."""
import os
import shutil

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk

from .. import gen, layers, util
from ..engine import Violation, sub

RESULTS = (
    "alkalinity", "alkalinity_npts", "alkalinity_std", "emf0", "gran_alkalinity",
    "gran_emf0", "pH_init", "temperature_init",
)
FILE_FAULTS = ("missing", "empty", "header_only", "one_row", "garbage", "ragged", "binary", "directory", "no_name", "bad_path")
META_FAULTS = ("no_analyte", "bad_mode", "marked_bad", "no_molinity", "bad_unit", "inverted_window")
EMF_FAULTS = ("no_salinity", "bad_cell")
INDEXES = ("range", "shuffled", "text", "gappy", "float", "date", "duplicated")


def make_index(kind, n):
    return {
        "range": lambda: None,
        "shuffled": lambda: [(7 * i + 3) % n if np.gcd(7, n) == 1 else n - 1 - i for i in range(n)],
        "text": lambda: [f"s{n - i}" for i in range(n)],
        "gappy": lambda: [5 * i - 7 for i in range(n)],
        "float": lambda: [0.5 * (n - i) for i in range(n)],
        "date": lambda: list(pd.date_range("2020-01-01", periods=n, freq="D")[::-1]),
        "duplicated": lambda: [i // 2 for i in range(n)],
    }[kind]()


def write_fault(d, name, r, fault):
    """Write the file of a titration, damaged as asked."""
    path = layers.write(d, name, r)
    with open(path) as f:
        lines = f.read().splitlines()
    if fault == "missing":
        os.remove(path)
    elif fault == "directory":
        os.remove(path)
        os.mkdir(path)
    elif fault == "binary":
        with open(path, "wb") as f:
            f.write(bytes(range(256)) * 4)
    else:
        keep = {
            "empty": [],
            "header_only": lines[:2],
            "one_row": lines[:3],
            "garbage": lines[:2] + ["x\ty\tz"] * len(lines),
            "ragged": lines[:5] + ["1.0\t2.0"] + lines[5:],
            "bad_cell": lines[:-3] + ["1.0\tbad\t25.0"] + lines[-3:],
        }.get(fault, lines)
        with open(path, "w") as f:
            f.write("".join(x + "\n" for x in keep))


def faulty_row(row, fault):
    row = dict(row)
    if fault == "no_name":
        row["file_name"] = np.nan
    elif fault == "bad_path":
        row["file_path"] = os.path.join(row["file_path"], "nowhere")
    elif fault == "no_analyte":
        row["analyte_mass"] = np.nan
        row["analyte_volume"] = np.nan
    elif fault == "bad_mode":
        row["solve_mode"] = "nonsense"
    elif fault == "marked_bad":
        row["file_good"] = False
    elif fault == "no_molinity":
        row["titrant_molinity"] = np.nan
    elif fault == "bad_unit":
        row["titrant_amount_unit"] = "gallon"
    elif fault == "inverted_window":
        row["pH_min"], row["pH_max"] = 4.0, 3.0
    elif fault == "bad_cell":  # with first guesses given, the other points could be solved
        row.pop("alkalinity_init", None)
    elif fault == "no_salinity":
        row["salinity"] = np.nan
        row.pop("analyte_mass", None)
        row["analyte_volume"] = 100.0
    return row


@st.composite
def one(draw, fault_rate=0.4, calibrating=False):
    c = draw(gen.titrations(modes=("emf", "emf", "pH", "pH_adjust", "pH_gran"), noise=0.1, max_points=15))
    fault = None
    if gen.some(draw, fault_rate):
        pool = FILE_FAULTS + META_FAULTS + (EMF_FAULTS if c["mode"] in ("emf", "pH_adjust") else ())
        if calibrating:
            pool = tuple(f for f in pool if f != "no_molinity")
        fault = draw(st.sampled_from(pool))
    form = None
    if fault is None and gen.some(draw, 0.25):
        form = draw(st.sampled_from(["file_type", "read_dat_method", "layout"]))
    return dict(case=c, fault=fault, format=form)


KWARGS = (
    {}, {}, {}, {"pH_range": [3.1, 3.9]}, {"double": False}, {"pH_min": 2.9},
    {"opt_k_carbonic": 4}, {"read_dat_kwargs": {"skip_header": 2}}, {"gran_logic": "legacy"},
    {"nonsense": 1},
)


@st.composite
def sets(draw):
    rows = draw(st.lists(one(), min_size=2, max_size=6))
    return dict(
        rows=rows,
        index=draw(st.sampled_from(INDEXES)),
        order=draw(st.permutations(range(len(rows)))),
        dataset_class=draw(st.booleans()),
        kwargs=draw(st.sampled_from(KWARGS)),
        good_form=draw(st.sampled_from(GOOD_FORMS)),
        stale=gen.some(draw, 0.4),
        shared=gen.some(draw, 0.4),
        again=draw(st.one_of(st.just(None), st.integers(0, len(rows) - 1))),
        change=draw(st.sampled_from(CHANGES)),
    )


# settings with which a file may be processed a second time in the same dataset
CHANGES = (
    {"salinity": 30.0}, {"dic": 1000.0}, {"pH_min": 2.5, "pH_max": 4.4}, {"temperature_override": 18.0},
    {"analyte_mass": 0.09}, {"titrant_molinity": 0.11}, {"titrant_amount_unit": "g"}, {"opt_total_borate": 2},
    {"k_water": 1e-13}, {"total_sulfate": 20000.0}, {"skip_header": 4},
)
GOOD_FORMS = ("bool", "bool", "int", "float", "object_int", "numpy")


def mark_good(df, form):
    """file_good as the kinds of value that a user's table may hold."""
    if "file_good" in df and form != "bool":
        good = df["file_good"].ne(False)
        df["file_good"] = {
            "int": lambda: good.astype(int),
            "float": lambda: good.astype(float),
            "object_int": lambda: good.astype(int).astype(object),
            "numpy": lambda: good.astype(bool),
        }[form]()
    return df


def make_stale(df, stale, extra=()):
    """Results of an earlier run, when the files and metadata were different."""
    if stale:
        for k in RESULTS + tuple(extra):
            df[k] = 9 if k == "alkalinity_npts" else 1234.5
    return df


def build(d, rows, molinity=True, shared=False):
    """Files and metadata rows (in case order); None for unusable cases.

    With shared, every file has the same name, each in its own folder.
    """
    out = []
    root = d
    for i, x in enumerate(rows):
        r = gen.realise(x["case"])
        if r is None:
            out.append(None)
            continue
        name = f"t{i}.dat"
        if shared:
            d, name = os.path.join(root, f"cast{i}"), "t.dat"
            os.makedirs(d)
        write_fault(d, name, r, x["fault"])
        row = dict(r.meta, file_name=name, file_path=d)
        if molinity:
            row["titrant_molinity"] = r.molinity
        row = faulty_row(row, x["fault"])
        cols = [np.asarray(v, float) for v in (r.amount, r.measurement, r.temperature)]
        if x["format"] == "layout":
            util.write_table(os.path.join(d, name), cols[::-1], header=4, delimiter=",")
            row.update(col_titrant_amount=2, col_temperature=0, skip_header=4, delimiter=",")
        elif x["format"]:
            with open(os.path.join(d, name), "w") as f:
                f.write("$S start\n")
                for k, v in enumerate(zip(*cols)):
                    f.write(f"{k}\t{v[0]:.9f}\t{v[1]:.9f}\t0\t0\t{v[2]:.9f}\n")
                f.write("$E\n")
            row[x["format"]] = "pclims"
        out.append(row)
    return out


def same(got, want, what):
    for k in RESULTS:
        util.close(got[k], want[k], f"{what}: {k}", rtol=1e-7, atol=1e-6, nan_ok=True)


def is_same(got, want):
    try:
        same(got, want, "")
    except Violation:
        return False
    return True


def blank(got, what):
    for k in RESULTS:
        if k == "temperature_init" and "garbage" in what:
            continue  # may come from temperature_override
        if k == "alkalinity_npts":
            util.close(got[k], 0, f"{what}: {k}")
        else:
            util.check(pd.isnull(got[k]), f"{what}: {k} is {got[k]!r}, expected missing")


@sub(
    "C09", "solve", sets, 500, 15000,
    "at least two titrations of which one solves, and a fault, an unusual index or a changed order",
)
def solve_together(c):
    with util.scratch() as d:
        rows = build(d, c["rows"])
        again = c.get("again")
        if again is not None and (rows[again] is None or c["rows"][again]["fault"]):
            again = None
        if again is not None:  # the same titration with other settings, in a file of its own
            copy = shutil.copy(os.path.join(d, rows[again]["file_name"]), os.path.join(d, "copy.dat"))
            rows.append(dict(rows[again], file_name=os.path.basename(copy), **{"comment": "again", **c["change"]}))
        cases = c["rows"] + ([dict(fault=None)] if again is not None else [])
        alone = []
        for x, row in zip(cases, rows):
            if row is None or x["fault"]:
                alone.append(None)
            else:
                alone.append(layers.dataset_solve([row], **c["kwargs"]).iloc[0])
        if c.get("shared"):
            os.makedirs(os.path.join(d, "shared"))
            rows[: len(c["rows"])] = build(os.path.join(d, "shared"), c["rows"], shared=True)
        order = [i for i in c["order"] if rows[i] is not None]
        if again is not None:  # together, both rows name the same file
            where = {k: rows[again][k] for k in ("file_name", "file_path")}
            rows[-1] = dict(rows[-1], **where)
            order.insert(len(order) // 2, len(rows) - 1)
        if len(order) < 2:
            return {}
        df = layers.frame([rows[i] for i in order], index=make_index(c["index"], len(order)))
        mark_good(df, c.get("good_form", "bool"))
        make_stale(df, c.get("stale"))
        index = list(df.index)
        if c["dataset_class"]:
            ds = calk.Dataset(df)
            with util.quiet():
                got = ds.solve(**c["kwargs"])
        else:
            with util.quiet():
                got = calk.solve(df, **c["kwargs"])
        util.check(list(got.index) == index, "the index changed")
        util.check(len(got) == len(order), "the number of rows changed")
    n_good = 0
    for k, i in enumerate(order):
        x, row = cases[i], got.iloc[k]
        if x["fault"]:
            blank(row, f"row {k} ({x['fault']})")
        else:
            same(row, alone[i], f"row {k}")
            n_good += bool(np.isfinite(alone[i]["alkalinity"]))
    faults = [x["fault"] for x in c["rows"] if x["fault"]]
    labels = {f"fault_{f}": True for f in faults}
    return dict(
        nontrivial=n_good > 0 and (bool(faults) or c["index"] != "range" or order != sorted(order)),
        index=c["index"], same_name=bool(c.get("shared")), same_file_twice=again is not None, **labels,
    )


# --- with calibration -------------------------------------------------------------
@st.composite
def batches(draw):
    rows = draw(st.lists(one(calibrating=True), min_size=3, max_size=6))
    for x in rows:
        x["reference"] = gen.some(draw, 0.6)
        x["batch"] = draw(st.integers(0, 1))
    rows[0]["fault"] = None
    rows[0]["reference"] = True
    return dict(rows=rows, index=draw(st.sampled_from(INDEXES)), order=draw(st.permutations(range(len(rows)))),
                both=draw(st.booleans()), good_form=draw(st.sampled_from(GOOD_FORMS)),
                stale=gen.some(draw, 0.4))


@sub(
    "C09", "calibrate", batches, 250, 6000,
    "a faulty titration next to at least one good reference; compared with the same dataset without it",
)
def calibrate_together(c):
    with util.scratch() as d:
        rows = build(d, c["rows"], molinity=False)
        for x, row in zip(c["rows"], rows):
            if row is not None:
                row["analysis_batch"] = x["batch"]
                if x["reference"]:
                    row["alkalinity_certified"] = x["case"]["alk"]
        good = [i for i, x in enumerate(c["rows"]) if rows[i] is not None and not x["fault"]]
        order = [i for i in c["order"] if rows[i] is not None]
        if rows[0] is None or len(order) < 2:
            return {}
        run = calk.calkulate if c["both"] else calk.calibrate
        with util.quiet():
            without = run(layers.frame([rows[i] for i in good]))
            df = layers.frame([rows[i] for i in order], index=make_index(c["index"], len(order)))
            make_stale(df, c.get("stale"), ("titrant_molinity", "titrant_molinity_here"))
            got = run(mark_good(df, c.get("good_form", "bool")))
            alone = {}
            for k, i in enumerate(order):
                # the batch mean may be rounded differently in another order, and
                # a titration with quite another titrant than its batch is so
                # badly posed that this shows: solve it alone with the same mean
                want = without.iloc[good.index(i)] if i in good else None
                if c["both"] and want is not None and not is_same(got.iloc[k], want):
                    m = got.iloc[k]["titrant_molinity"]
                    alone[k] = calk.solve(layers.frame([dict(rows[i], titrant_molinity=m)])).iloc[0]
    n = 0
    for k, i in enumerate(order):
        x, row = c["rows"][i], got.iloc[k]
        if x["fault"]:
            blank(row, f"row {k} ({x['fault']})")
            util.check(pd.isnull(row["titrant_molinity_here"]), f"row {k} ({x['fault']}) was calibrated")
            continue
        want = without.iloc[good.index(i)]
        util.close(row["titrant_molinity"], want["titrant_molinity"], f"row {k}: molinity", rtol=1e-7, nan_ok=True)
        util.close(row["titrant_molinity_here"], want["titrant_molinity_here"], f"row {k}: own molinity", rtol=1e-7, nan_ok=True)
        same(row, alone.get(k, want), f"row {k}")
        n += bool(np.isfinite(want["alkalinity"]))
    faults = {f"fault_{x['fault']}": True for x in c["rows"] if x["fault"]}
    return dict(nontrivial=bool(faults) and n > 0, index=c["index"], **faults)
