"""C08: titration files are written and read back faithfully."""
import os
import string

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk
from calkulate.read import titrations as rt

from .. import gen, layers, util
from ..engine import sub

TEXT = st.text(
    st.sampled_from(string.ascii_letters + string.digits + " .,;:|()[]{}%_-+/°µ\tüé"), max_size=40
)
ENCODINGS = ("utf-8", "latin-1", "cp1252", "utf-16", "utf-8-sig")


def number():
    """Values as an instrument may report them."""
    return st.one_of(
        gen.num(-900, 900, 3),
        gen.num(0, 10, 5),
        st.floats(-1e4, 1e4, allow_nan=False),
        st.sampled_from([0.0, -0.0, 1.0, 100.0, 1e-7, 123456.789]),
        st.integers(-1000, 1000).map(float),
    )


def got_is(dd, want, what, rtol=1e-13):
    for name, w in zip(("titrant_amount", "measurement", "temperature"), want):
        util.close(getattr(dd, name), w, f"{what}: {name}", rtol=rtol)
    for i, name in enumerate(("titrant_amount", "measurement", "temperature")):
        util.check(
            np.array_equal(np.asarray(dd[i]), np.asarray(getattr(dd, name))),
            f"{what}: field {i} is not {name}",
        )


# --- write and read back --------------------------------------------------------
FMTS = (".3f", ".6f", ".1f", ".0f", "g", ".12g", ".4e", "", "+.3f", "10.4f")


@st.composite
def exports(draw):
    n = draw(st.integers(2, 30))
    c = dict(
        cols=[draw(st.lists(number(), min_size=n, max_size=n)) for _ in range(3)],
        existing=draw(st.sampled_from(["no", "no", "yes", "yes", "empty"])),
        mode=draw(st.sampled_from([None, None, "x", "w"])),
        container=draw(st.sampled_from(["array", "list", "series", "tuple"])),
        fmts={},
        encoding=draw(st.sampled_from([None, "utf-8", "latin-1", "utf-16"])),
        newline=draw(st.sampled_from([None, "\r\n", "\n"])),
    )
    for k in ("titrant_amount_fmt", "measurement_fmt", "temperature_fmt"):
        if gen.some(draw, 0.5):
            c["fmts"][k] = draw(st.sampled_from(FMTS))
    for k in ("line0", "line1"):
        if gen.some(draw, 0.4):
            c[k] = draw(TEXT)
    return c


@sub("C08", "write_then_read", exports, 2500, 60000, "at least 3 points, not all equal")
def write_then_read(c):
    cols = [np.array(x) for x in c["cols"]]
    box = dict(
        array=lambda x: x.copy(), list=list, tuple=tuple,
        series=lambda x: pd.Series(x, index=np.arange(len(x))[::-1]),
    )[c["container"]]
    given = [box(x) for x in cols]
    kw = dict(c["fmts"])
    for k in ("line0", "line1", "mode", "encoding", "newline"):
        if c.get(k) is not None:
            kw[k] = c[k]
    for k in ("line0", "line1"):  # must be encodable where no encoding is given
        if k in kw and not c["encoding"]:
            kw[k] = kw[k].encode("ascii", "ignore").decode()
    with util.scratch() as d:
        path = os.path.join(d, "out.dat")
        before = {"no": None, "yes": b"precious\n1\t2\t3\n", "empty": b""}[c["existing"]]
        if before is not None:
            with open(path, "wb") as f:
                f.write(before)
        protected = before is not None and c["mode"] in (None, "x")
        try:
            calk.write_dat(path, *given, **kw)
            wrote = True
        except FileExistsError:
            wrote = False
        if protected:
            util.check(not wrote, "an existing file did not stop write_dat")
            with open(path, "rb") as f:
                util.check(f.read() == before, "an existing file was changed")
            return dict(nontrivial=True, protected=True)
        util.check(wrote, "write_dat refused to write")
        for g, x in zip(given, cols):
            util.close(np.asarray(g), x, "data handed to write_dat", rtol=0)
        fmts = [
            c["fmts"].get(k, ".3f")
            for k in ("titrant_amount_fmt", "measurement_fmt", "temperature_fmt")
        ]
        want = [np.array([float(format(v, f)) for v in x]) for x, f in zip(cols, fmts)]
        rk = dict(encoding=c["encoding"]) if c["encoding"] else {}
        dd = calk.read_dat(path, **rk)
        got_is(dd, want, "read back")
        with open(path, encoding=c["encoding"], newline="") as f:
            text = f.read()
        end = {None: os.linesep, "\r\n": "\r\n", "\n": "\n"}[c["newline"]]
        lines = text.split(end)
        util.check(
            lines[0] == kw.get("line0", "Titration data exported by Calkulate")
            and lines[1] == kw.get("line1", "titrant_amount\tmeasurement\ttemperature"),
            f"header lines are {lines[:2]}",
        )
        util.check(len(lines) == len(cols[0]) + 3 and lines[-1] == "", "number of lines in the file")
    return dict(nontrivial=len(cols[0]) > 2, wrote=True)


# --- delimited text -------------------------------------------------------------
REPR = ("repr", "g12", "exp", "plus", "pad")


def fmt(v, how):
    if how == "g12":
        return f"{v:.12g}"
    if how == "exp":
        return f"{v:.9E}"
    if how == "plus":
        return f"{v:+.6f}"
    if how == "pad":
        return f"  {v:.5f} "
    return repr(float(v))


@st.composite
def delimited(draw):
    n = draw(st.integers(2, 25))
    n_cols = draw(st.integers(3, 7))
    delimiter = draw(st.sampled_from([None, None, "\t", ",", ";", "|", " "]))
    c = dict(
        cells=draw(
            st.lists(st.lists(number(), min_size=n_cols, max_size=n_cols), min_size=n, max_size=n)
        ),
        how=draw(st.sampled_from(REPR)),
        delimiter=delimiter,
        header=draw(st.one_of(st.none(), st.lists(TEXT, max_size=6))),
        encoding=draw(st.one_of(st.none(), st.sampled_from(ENCODINGS))),
        end=draw(st.sampled_from(["\n", "\r\n"])),
        final=draw(st.sampled_from(["full", "none", "blank"])),
        file_type=draw(st.sampled_from([None, None, "genfromtxt", "vindta", "nonsense", "VINDTA"])),
        as_float=gen.some(draw, 0.2),
    )
    if gen.some(draw, 0.6):
        c["columns"] = draw(st.permutations(range(n_cols)))[:3]
    if n_cols > 3 and gen.some(draw, 0.4):  # remarks, times etc. in other columns
        c["remarks"] = draw(
            st.lists(
                st.tuples(st.integers(0, n - 1), st.integers(0, n_cols - 1), st.sampled_from(["ok", "", "12:30", "-"])),
                min_size=1, max_size=4,
            )
        )
    return c


def delimited_file(c, path):
    """Write the file of a case; returns (kwargs for read_dat, wanted data)."""
    delimiter = "\t" if c["delimiter"] is None else c["delimiter"]
    how = c["how"]
    if delimiter == " " and how == "pad":
        how = "repr"
    cells = [[fmt(v, how) for v in row] for row in c["cells"]]
    for i, j, text in c.get("remarks", ()):
        if j not in c.get("columns", [0, 1, 2]) and delimiter != " ":
            cells[i][j] = text
    head = c["header"]
    encoding = c["encoding"]
    if head is None:
        head = ["first line", "second\tline"]
        kw = {}
    else:
        kw = dict(skip_header=len(head))
    if encoding is None:
        head = [h.encode("ascii", "ignore").decode() for h in head]
    else:
        kw["encoding"] = encoding
    lines = list(head) + [delimiter.join(r) for r in cells]
    text = c["end"].join(lines)
    text += {"full": c["end"], "none": "", "blank": c["end"] * 3}[c["final"]]
    with open(path, "w", encoding=encoding or "utf-8", newline="") as f:
        f.write(text)
    if c["delimiter"] is not None:
        kw["delimiter"] = delimiter
    cols = c.get("columns", [0, 1, 2])
    if "columns" in c:
        kw.update(zip(("col_titrant_amount", "col_measurement", "col_temperature"), cols))
    if c["as_float"]:  # as they come out of a table column with gaps
        for k in kw:
            if isinstance(kw[k], int):
                kw[k] = float(kw[k])
    want = [np.array([float(row[j]) for row in cells]) for j in cols]
    return kw, want


@sub("C08", "delimited", delimited, 3500, 90000, "a layout option differs from the default")
def read_delimited(c):
    with util.scratch() as d:
        path = os.path.join(d, "t.dat")
        kw, want = delimited_file(c, path)
        if c["file_type"] is not None:
            kw["file_type"] = c["file_type"]
        keep = dict(kw)
        with open(path, "rb") as f:
            raw = f.read()
        with util.caught() as w:
            dd = calk.read_dat(path, **kw)
        got_is(dd, want, "delimited file")
        util.check(kw == keep, "keyword arguments were altered")
        with open(path, "rb") as f:
            util.check(f.read() == raw, "the file was altered")
        known = c["file_type"] in (None, "genfromtxt", "vindta")
        util.check(
            known or any(c["file_type"] in str(x.message) for x in w),
            f"no warning about the unknown file type {c['file_type']}",
        )
        util.check(
            not (known and any("recognised" in str(x.message) for x in w)),
            f"warning about the file type {c['file_type']}",
        )
    return dict(nontrivial=len(kw) > 0, encoding=str(c["encoding"]), file_type=str(c["file_type"]))


# --- PC LIMS reports ------------------------------------------------------------
LIMS_LINES = (
    "$S PC/LIMS V1", "$E", "$S Mode 1\t01\tDET U\tV1.0", "P 5.916.0041\tS 33760",
    "BATCH138\t\t102.1750\tg", "$S 916 Rührer", "S 24705\tS 30043087",
    "1\t2.5\t3", "12.5", "HCl\t0.100\tmol/L\t1.000", "", "Titrando 1\t1.5000 mL\tmaximum",
    "TA Dynamisch\tsaved\t2020-03-17 13:51:20",
)


def lims_cell():
    return st.one_of(
        gen.num(-400, 400, 1), gen.num(0, 12, 5), st.integers(-20, 400).map(float),
        st.sampled_from([0.0, -0.1, 21.7]),
    )


@st.composite
def lims(draw):
    n = draw(st.integers(2, 25))
    n_cols = draw(st.sampled_from([6, 6, 6, 3, 4, 5, 7, 8]))
    c = dict(
        cells=draw(st.lists(st.lists(lims_cell(), min_size=n_cols, max_size=n_cols), min_size=n, max_size=n)),
        n_cols=n_cols,
        before=draw(st.lists(st.sampled_from(LIMS_LINES), max_size=8)),
        after=draw(st.lists(st.sampled_from(LIMS_LINES), max_size=8)),
        later=draw(st.integers(0, 3)),
        closing=draw(st.sampled_from(["$E", "$E", "", "$S EP V1", "  ", "12.5", "end"])),
        heading=draw(st.sampled_from(["$S EP V1", "", None])),
        end=draw(st.sampled_from(["\n", "\r\n"])),
        final=draw(st.booleans()),
        digits=draw(st.sampled_from([1, 3, 5])),
        as_float=gen.some(draw, 0.15),
        numbered=draw(st.booleans()),
    )
    if n_cols != 6 or gen.some(draw, 0.3):
        c["columns"] = draw(st.permutations(range(n_cols)))[:3]
    told = max(4, max(c.get("columns", [5])) + 1)
    if told < n_cols and draw(st.booleans()):  # columns beyond those described
        c["told"] = draw(st.integers(told, n_cols - 1))
    return c


def lims_file(c, path):
    def cell(i, j, v):
        if j == 0 and c["numbered"]:
            return str(i + 1)
        return f"{v:.{c['digits']}f}"

    cells = [[cell(i, j, v) for j, v in enumerate(r)] for i, r in enumerate(c["cells"])]
    rows = ["\t".join(r) for r in cells]

    def other(lines):  # never mistaken for a line of data
        return [x for x in lines if c["n_cols"] > 3 or not x[:1].isdigit()]

    lines = other(c["before"]) + rows
    if c["after"] or c["later"]:
        lines += [c.get("closing", "$E")] + other(c["after"])
        if c["later"]:  # another block of numbers, e.g. the end points
            heading = c.get("heading", "$S EP V1")
            lines += [] if heading is None else [heading]
            lines += rows[: c["later"]] + ["$E"]
    text = c["end"].join(lines) + (c["end"] if c["final"] else "")
    with open(path, "w", encoding="latin-1", newline="") as f:
        f.write(text)
    kw = dict(file_type="pclims")
    cols = c.get("columns", [1, 2, 5])
    told = c.get("told", c["n_cols"])
    if told != 6:
        kw["n_cols"] = told
    if "columns" in c:
        kw.update(zip(("col_titrant_amount", "col_measurement", "col_temperature"), cols))
    if c["as_float"]:
        for k in kw:
            if isinstance(kw[k], int):
                kw[k] = float(kw[k])
    return kw, [np.array([float(r[j]) for r in cells]) for j in cols]


@sub("C08", "pclims", lims, 2500, 60000, "other lines come before or after the data")
def read_lims(c):
    with util.scratch() as d:
        path = os.path.join(d, "t.txt")
        kw, want = lims_file(c, path)
        dd = calk.read_dat(path, **kw)
        got_is(dd, want, "PC LIMS report")
    return dict(nontrivial=bool(c["before"] or c["after"] or c["later"]), n_cols=str(c["n_cols"]))


# --- Tiamo (German) -------------------------------------------------------------
TIAMO_COLS = (
    "Volumen [mL]", "Messwert", "dMW [pH]", "Zeit [s]", "Temperatur [°C]",
    "Berechnet 1", "Berechnet 2", "Berechnet 3",
)


@st.composite
def tiamo(draw):
    n = draw(st.integers(2, 25))
    cell = st.one_of(gen.num(-5, 10, 6), st.floats(0, 700, allow_nan=False), st.integers(0, 30).map(float))
    return dict(
        cells=draw(st.lists(st.lists(cell, min_size=8, max_size=8), min_size=n, max_size=n)),
        # nothing in columns that are not used
        empty=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([2, 3, 5, 6, 7])).map(list), max_size=4)) if gen.some(draw, 0.3) else [],
        order=draw(st.one_of(st.just(list(range(8))), st.permutations(range(8)))),
        start=draw(st.lists(st.lists(gen.num(0, 6, 5), min_size=5, max_size=5), min_size=1, max_size=6)),
        first=draw(st.lists(st.lists(gen.num(0, 6, 5), min_size=4, max_size=4), max_size=4)),
        encoding=draw(st.sampled_from([None, None, "latin-1", "utf-8"])),
        end=draw(st.sampled_from(["\n", "\r\n"])),
        final=draw(st.sampled_from(["full", "none", "blank"])),
    )


def tiamo_file(c, path):
    lines = ["2024-10-25 11:17:44 UTC+2", "-13f375cc:192c2436d35:-7f6c", ""]
    if c["first"]:
        lines += ["Steilheit.1", "Zeit [s];Messwert;dU/dt [mV/min];Temperatur [°C]"]
        lines += [";".join(map(repr, r)) for r in c["first"]] + ["", ""]
    lines += ["Start pH einstellen.1", "Zeit [s];Messwert;Volumen [mL];dV/dt [µL/min];Temperatur [°C]"]
    lines += [";".join(map(repr, r)) for r in c["start"]] + ["", ""]
    lines += ["Gran.1", ";".join(TIAMO_COLS[j] for j in c["order"])]
    empty = {tuple(x) for x in c.get("empty", [])}
    lines += [";".join("" if (i, j) in empty else repr(r[j]) for j in c["order"]) for i, r in enumerate(c["cells"])]
    text = c["end"].join(lines)
    text += {"full": c["end"], "none": "", "blank": c["end"] * 2}[c["final"]]
    with open(path, "w", encoding=c["encoding"] or "latin-1", newline="") as f:
        f.write(text)
    kw = dict(file_type="tiamo_de")
    if c["encoding"]:
        kw["encoding"] = c["encoding"]
    cells = np.array(c["cells"])
    return kw, [cells[:, 0] + c["start"][-1][2], cells[:, 1], cells[:, 4]]


@sub("C08", "tiamo", tiamo, 1500, 40000, "non-zero starting volume")
def read_tiamo(c):
    with util.scratch() as d:
        path = os.path.join(d, "t.old")
        kw, want = tiamo_file(c, path)
        dd = calk.read_dat(path, **kw)
        got_is(dd, want, "Tiamo file", rtol=1e-12)
    return dict(nontrivial=c["start"][-1][2] > 0)


# --- Excel ----------------------------------------------------------------------
@st.composite
def excel(draw):
    n = draw(st.integers(1, 12))
    return dict(
        cells=draw(st.lists(st.lists(gen.num(-400, 400, 3), min_size=4, max_size=4), min_size=n, max_size=n)),
        order=draw(st.permutations(["acid", "base", "emf", "temperature", "comment"])),
    )


@sub("C08", "excel", excel, 200, 3000, "every column is read back")
def read_excel(c):
    cells = np.array(c["cells"])
    data = dict(acid=cells[:, 0], base=cells[:, 1], emf=cells[:, 2], temperature=cells[:, 3], comment=["x"] * len(cells))
    with util.scratch() as d:
        path = os.path.join(d, "t.xlsx")
        with pd.ExcelWriter(path) as w:
            pd.DataFrame({k: data[k] for k in c["order"]}).to_excel(w, startrow=1, index=False)
        with util.quiet():
            got = calk.read_dat(path, file_type="orgalk_excel")
    for g, k in zip(got, ("acid", "base", "emf", "temperature")):
        util.close(g, data[k], f"Excel file: {k}", rtol=1e-13)
    return dict(nontrivial=True)


# --- the format does not matter once it is described -------------------------------
@st.composite
def in_use(draw):
    c = draw(gen.titrations(modes=("emf", "pH"), rich=False, settings=False, max_points=15, noise=0.1))
    kind = draw(st.sampled_from(["delimited", "pclims", "tiamo"]))
    n_cols = draw(st.sampled_from([6, 3, 5, 8] if kind == "pclims" else [3, 4, 6]))
    return dict(
        case=c, kind=kind, n_cols=n_cols,
        columns=draw(st.permutations(range(n_cols)))[:3],
        delimiter=draw(st.sampled_from([None, ",", ";", " "])),
        header=draw(st.one_of(st.none(), st.lists(TEXT, max_size=4))),
        encoding=draw(st.one_of(st.none(), st.sampled_from(ENCODINGS))),
        route=draw(st.sampled_from(["columns", "kwargs", "file"])),
        extra=draw(gen.num(0, 5, 2)),
        start=draw(gen.num(0, 0.5, 3)),
    )


def described(c, r, d):
    """Write the realised titration in the chosen layout; returns
    (kwargs describing it, the data in the file)."""
    amount = np.round(r.amount, 7)
    meas = np.round(r.measurement, 7)
    temp = np.round(r.temperature, 4)
    path = os.path.join(d, "custom.txt")
    n = len(amount)
    if c["kind"] == "tiamo":
        cells = np.full((n, 8), c["extra"])
        cells[:, 0], cells[:, 1], cells[:, 4] = amount, meas, temp
        kw, want = tiamo_file(
            dict(cells=cells.tolist(), order=list(range(8)), start=[[0.0, 7.0, c["start"], 0.0, 20.0]],
                 first=[], encoding=None, end="\n", final="full"), path)
    else:
        cells = np.full((n, c["n_cols"]), c["extra"])
        for j, x in zip(c["columns"], (amount, meas, temp)):
            cells[:, j] = x
        if c["kind"] == "pclims":
            kw, want = lims_file(
                dict(cells=cells.tolist(), n_cols=c["n_cols"], before=list(LIMS_LINES[:5]), after=["x"], later=2,
                     end="\n", final=True, digits=7, as_float=False, numbered=False, columns=c["columns"]), path)
        else:
            kw, want = delimited_file(
                dict(cells=cells.tolist(), how="repr", delimiter=c["delimiter"], header=c["header"],
                     encoding=c["encoding"], end="\n", final="full", as_float=False, columns=c["columns"]), path)
    return kw, want


@sub("C08", "in_use", in_use, 500, 12000, "solving succeeds and the layout is not the default")
def solved_from_any_layout(c):
    r = gen.realise(c["case"])
    if r is None:
        return {}
    meta = r.meta
    with util.scratch() as d:
        kw, want = described(c, r, d)
        util.write_table(os.path.join(d, "plain.dat"), want)
        base = dict(meta, file_path=d, titrant_molinity=r.molinity)
        plain = layers.dataset_solve([dict(base, file_name="plain.dat")]).iloc[0]
        if not np.isfinite(plain["alkalinity"]):
            return {}
        if c["route"] == "columns":
            got = layers.dataset_solve([dict(base, file_name="custom.txt", **kw)]).iloc[0]
        elif c["route"] == "kwargs":
            got = layers.dataset_solve([dict(base, file_name="custom.txt")], **kw).iloc[0]
        else:
            with util.quiet():
                sr = layers.file_solve(d, "custom.txt", dict(meta, **kw), r.molinity)
            util.close(sr.alkalinity, plain["alkalinity"], "alkalinity from the file", rtol=1e-9)
            return dict(nontrivial=True, kind=c["kind"], route="file")
    for k in ("alkalinity", "emf0", "alkalinity_npts", "pH_init", "temperature_init"):
        util.close(got[k], plain[k], f"{k} from the {c['kind']} layout", rtol=1e-9, nan_ok=True)
    return dict(nontrivial=True, kind=c["kind"], route=c["route"])
