"""C14: metadata imports keep every row and predict names and dates correctly."""
import io
import math
import os

import matplotlib.dates as mdates
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk

from .. import gen, layers, util
from ..engine import sub

HEAD = (
    "run type\tbottle\tstation\tcast\tniskin\tdepth\ti.s. temperature\tsalinity\tcounts\trun time\tCT\tfactor CT\t"
    "blank\tTCT\tlast CRM CT\tcert. CRM CT\tlast CRM AT\tcert. CRM AT\tbatch\tAT\tfactor AT\trms\tcalc ID\tTitrino\t"
    "sample line\tpip vol\tcomment\tLat.\tLong.\tdate\ttime\tcell ID"
).split("\t")
NUMBERS = ("i.s. temperature", "CT", "TCT", "last CRM CT", "AT", "pip vol", "Lat.", "Long.")
FORMATS = (
    None, None, "{s}-{c}  {n}  ({d}){b}.dat", "{s}_{c}_{n}_{d}_{b}.dat", "{b}.txt", "{s:03d}-{n:02d}.dat",
    "st{s}/{b}", "{b}{b}-{d}.dat", "{d} {n} {c} {s}.DAT", "x{c}y{b}",
)
BOTTLE = st.one_of(
    st.integers(0, 999).map(str),
    st.integers(0, 99).map(lambda i: f"{i:04d}"),
    st.sampled_from(["JUNK1", "a b", "12-3", "7A", "B.2", "x_y", "1.50", "1e3", "0", "(2)", "True", "é1"]),
    st.text("abcdefXYZ0123456789-_", min_size=1, max_size=6).filter(
        lambda s: s.lower() not in ("nan", "na", "n_a", "null", "none", "inf")
    ),
)


@st.composite
def dbs_rows(draw, min_size=1):
    n = draw(st.integers(min_size, 8))
    mostly_numbers = draw(st.booleans())
    rows = []
    for _ in range(n):
        kind = draw(st.sampled_from(["bottle", "bottle", "bottle", "CRM", "CRM", "Bottle", "crm", "test", "standard", "junk", ""]))
        r = dict(kind=kind, bottle=draw(st.integers(0, 2000).map(str) if mostly_numbers else BOTTLE))
        for k, lo, hi in (("station", -5, 400), ("cast", 0, 60), ("niskin", 0, 36), ("depth", 0, 6500)):
            r[k] = draw(st.integers(lo, hi))
            if kind not in ("bottle",) and gen.some(draw, 0.2):
                r[k] = None
        r["salinity"] = draw(gen.num(0, 42, 3))
        r["cert"] = draw(gen.num(1500, 2600, 2))
        r["batch"] = draw(st.integers(1, 250))
        if kind not in ("CRM",) and gen.some(draw, 0.25):
            r["batch"] = None
        month = draw(st.integers(1, 12))
        last = 28 if month == 2 else 30 if month in (4, 6, 9, 11) else 31
        r["date"] = [month, draw(st.integers(1, last)), draw(st.integers(0, 99))]
        r["time"] = [draw(st.integers(0, 23)), draw(st.integers(0, 59))]
        if gen.some(draw, 0.15):
            r["date"] = None
        if gen.some(draw, 0.15):
            r["time"] = None
        r["comment"] = draw(st.sampled_from(["", "", "ok", "bubble in line"]))
        rows.append(r)
        if gen.some(draw, 0.1):  # measured again
            rows.append(dict(r))
    return rows


@st.composite
def dbs_files(draw):
    c = dict(
        rows=draw(dbs_rows()),
        trailing=draw(st.integers(0, 2)),
        seconds=draw(st.booleans()),
        text_batch=gen.some(draw, 0.15),
        end=draw(st.sampled_from(["\n", "\r\n"])),
        final=draw(st.booleans()),
        filename_format=draw(st.sampled_from(FORMATS)),
        amount=draw(st.sampled_from(["default", "volume", "mass", "both"])),
        value=draw(gen.num(10, 400, 2)),
        path=draw(st.sampled_from([None, "some/where", "/abs/path", ""])),
        fewer=draw(st.booleans()),
    )
    return c


def write_dbs(c, path):
    """Write the file; returns the batch labels as they appear in file names."""
    head = list(HEAD)
    if c["fewer"]:
        head = [h for h in head if h not in ("counts", "rms", "Titrino", "cell ID")]
    lines = ["\t".join(head) + ("\t" * c["trailing"] if False else "")]
    for i, r in enumerate(c["rows"]):
        v = {h: "0.00" for h in HEAD}
        for k, h in enumerate(NUMBERS):
            v[h] = f"{r['salinity'] * (k + 1) - 20:.3f}"
        cell = lambda x: "" if x is None else str(x)  # noqa: E731
        batch = cell(r["batch"])
        if c["text_batch"] and batch:
            batch += "x"
        v.update(
            {
                "run type": r["kind"], "bottle": r["bottle"], "station": cell(r["station"]), "cast": cell(r["cast"]),
                "niskin": cell(r["niskin"]), "depth": cell(r["depth"]), "salinity": f"{r['salinity']:.3f}",
                "counts": str(1000 + i), "cert. CRM AT": f"{r['cert']:.2f}", "batch": batch, "comment": r["comment"],
                "factor AT": "", "Titrino": "",
                "date": "" if r["date"] is None else "{:02d}/{:02d}/{:02d}".format(*r["date"]),
                "time": "" if r["time"] is None else "{:02d}:{:02d}".format(*r["time"]) + (":30" if c["seconds"] else ""),
                "sample line": "red (1)", "cell ID": "C_Aug13-18_1008",
            }
        )
        lines.append("\t".join(v[h] for h in head) + "\t" * c["trailing"])
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(c["end"].join(lines) + (c["end"] if c["final"] else ""))
    return head


def expected_name(c, r):
    if r["kind"] == "bottle":
        fmt = c["filename_format"] or "{s}-{c}  {n}  ({d}){b}.dat"
        return fmt.format(s=r["station"], c=r["cast"], n=r["niskin"], d=r["depth"], b=r["bottle"])
    if r["kind"] == "CRM":
        return f"CRM{r['batch']}{'x' if c['text_batch'] else ''}{r['bottle']}.dat"
    return None


@sub("C14", "dbs", dbs_files, 1200, 30000, "at least two rows, of which one is a bottle or CRM")
def read_dbs(c):
    with util.scratch() as d:
        path = os.path.join(d, "m.dbs")
        head = write_dbs(c, path)
        with open(path, "rb") as f:
            raw = f.read()
        kw = {}
        if c["filename_format"]:
            kw["filename_format"] = c["filename_format"]
        if c["amount"] in ("volume", "both"):
            kw["analyte_volume"] = c["value"]
        if c["amount"] in ("mass", "both"):
            kw["analyte_mass"] = c["value"] / 1000
        if c["path"] is not None:
            kw["file_path"] = c["path"]
        with util.quiet():
            ds = calk.read_dbs(path, **kw)
        with open(path, "rb") as f:
            util.check(f.read() == raw, "the .dbs file was altered")
    rows = c["rows"]
    util.check(isinstance(ds, calk.Dataset), f"returned a {type(ds).__name__}")
    util.check(len(ds) == len(rows), f"{len(ds)} rows imported of {len(rows)}")
    for h in head:
        util.check(("run_type" if h == "run type" else h) in ds, f"column {h} is missing")
    for i, r in enumerate(rows):
        g = ds.iloc[i]
        for k, h in enumerate(NUMBERS):
            util.close(g[h], float(f"{r['salinity'] * (k + 1) - 20:.3f}"), f"row {i}: {h}", rtol=1e-12)
        for h, w in (("comment", r["comment"]), ("sample line", "red (1)")):
            util.check(g[h] == w or (w == "" and pd.isnull(g[h])), f"row {i}: {h} {g[h]!r}, written {w!r}")
        util.check(g["run_type"] == r["kind"] or (r["kind"] == "" and pd.isnull(g["run_type"])), f"row {i}: run type {g['run_type']!r}")
        util.check(g["bottle"] == r["bottle"], f"row {i}: bottle {g['bottle']!r}, written {r['bottle']!r}")
        for k in ("station", "cast", "niskin", "depth"):
            util.close(g[k], np.nan if r[k] is None else r[k], f"row {i}: {k}", nan_ok=True)
        util.close(g["salinity"], r["salinity"], f"row {i}: salinity", rtol=1e-12)
        if not c["fewer"]:
            util.close(g["counts"], 1000 + i, f"row {i}: counts")
        util.close(g["cert. CRM AT"], r["cert"], f"row {i}: cert. CRM AT", rtol=1e-12)
        want = expected_name(c, r)
        if want is not None:
            util.check(g["file_name"] == want, f"row {i}: file name {g['file_name']!r}, expected {want!r}")
        util.check(bool(g["file_good"]) == (want is not None), f"row {i}: file_good is {g['file_good']!r} for a {r['kind']}")
        cert = g["alkalinity_certified"] if "alkalinity_certified" in ds else np.nan
        util.close(cert, r["cert"] if r["kind"] == "CRM" else np.nan, f"row {i}: certified alkalinity", rtol=1e-12, nan_ok=True)
        if r["date"] is None or r["time"] is None:
            util.check(pd.isnull(g["analysis_datetime"]), f"row {i}: time {g['analysis_datetime']!r} without date or time")
        else:
            when = pd.Timestamp(
                year=2000 + r["date"][2], month=r["date"][0], day=r["date"][1],
                hour=r["time"][0], minute=r["time"][1], second=30 if c["seconds"] else 0,
            )
            util.check(pd.Timestamp(g["analysis_datetime"]) == when, f"row {i}: time {g['analysis_datetime']!r}, expected {when}")
            util.close(g["analysis_datenum"], (when - pd.Timestamp("1970-01-01")) / pd.Timedelta(days=1), f"row {i}: analysis_datenum", rtol=1e-12)
        if c["amount"] in ("mass", "both"):
            util.close(g["analyte_mass"], c["value"] / 1000, f"row {i}: analyte_mass", rtol=1e-12)
        else:
            util.close(g["analyte_volume"], c["value"] if c["amount"] == "volume" else 100.0, f"row {i}: analyte_volume", rtol=1e-12)
        if c["path"] is not None:
            util.check(g["file_path"] == c["path"], f"row {i}: file_path {g['file_path']!r}")
    util.check(c["amount"] not in ("mass", "both") or "analyte_volume" not in ds, "analyte_volume next to the given mass")
    util.check(list(ds["dbs_fname"]) == [path] * len(rows), "the name of the .dbs file is not kept")
    util.check(c["path"] is not None or "file_path" not in ds, "file_path that was not given")
    return dict(
        nontrivial=len(rows) > 1 and any(r["kind"] in ("bottle", "CRM") for r in rows),
        crm=any(r["kind"] == "CRM" for r in rows), other=any(r["kind"] not in ("CRM", "bottle") for r in rows),
        format=str(c["filename_format"]),
    )


# --- used together with the files -------------------------------------------------
@st.composite
def campaigns(draw):
    rows = draw(dbs_rows(min_size=2))[:4]
    rows[0]["kind"] = "CRM"
    for i, r in enumerate(rows):
        r["salinity"] = max(r["salinity"], 2.0)
        r["bottle"] = r["bottle"].replace("/", "") + "-" + "abcd"[i]
        for k in ("station", "cast", "niskin", "depth"):
            r[k] = 1 if r[k] is None else r[k]
        r["batch"] = 1 if r["batch"] is None else r["batch"]
    cases = [
        draw(gen.titrations(modes=("emf",), noise=0.05, max_points=12, rich=False, settings=False)) for _ in rows
    ]
    return dict(rows=rows, cases=cases, mass=draw(gen.num(0.05, 0.2, 3)), trailing=2, seconds=False, text_batch=False,
                end="\n", final=True, filename_format=draw(st.sampled_from(["{b}-{s}.dat", None])), fewer=False)


@sub("C14", "campaign", campaigns, 150, 3000, "a CRM and another titration are calculated from the imported table")
def campaign(c):
    """An imported table works with the files it names."""
    with util.scratch() as d:
        rows, seen = [], {}
        for i, (r, case) in enumerate(zip(c["rows"], c["cases"])):
            case["meta"] = dict(analyte_mass=c["mass"], salinity=r["salinity"])
            name = expected_name(c, r)
            real = gen.realise(case)
            if real is None or (name is not None and name in seen):
                return {}
            if name:
                seen[name] = i
                layers.write(d, name, real)
            r["cert"] = round(case["alk"], 2)
            rows.append(dict(case["meta"], file_name=name or "none", file_path=d, file_good=name is not None,
                             alkalinity_certified=r["cert"] if r["kind"] == "CRM" else np.nan))
        path = os.path.join(d, "m.dbs")
        write_dbs(c, path)
        kw = dict(filename_format=c["filename_format"]) if c["filename_format"] else {}
        with util.quiet():
            ds = calk.read_dbs(path, analyte_mass=c["mass"], file_path=d, **kw)
            got = ds.calkulate()
            want = calk.calkulate(layers.frame(rows))
    for k in ("alkalinity", "emf0", "titrant_molinity", "titrant_molinity_here", "alkalinity_npts"):
        util.close(got[k].to_numpy(float), want[k].to_numpy(float), f"imported table: {k}", rtol=1e-7, nan_ok=True)
    return dict(nontrivial=bool(np.isfinite(want["alkalinity"]).sum() > 1))


# --- the other importers ------------------------------------------------------------
@st.composite
def importers(draw):
    n = draw(st.integers(1, 6))
    cell = st.one_of(gen.num(-100, 3000, 3), st.none())
    cols = ["file_name", "salinity", "dic", "analysis_batch", "note"]
    return dict(
        kind=draw(st.sampled_from(["csv", "csv", "table", "fwf", "excel", "clipboard"])),
        rows=[
            [f"t{i}.dat", draw(gen.num(0, 40, 3)), draw(cell), draw(st.integers(0, 3)), draw(st.sampled_from(["a", "b c", "é"]))]
            for i in range(n)
        ],
        cols=cols,
        skip=draw(st.integers(0, 3)),
        sep=draw(st.sampled_from([",", ";", "\t"])),
        index=draw(st.booleans()),
        usecols=draw(st.booleans()),
        buffer=draw(st.booleans()),
    )


@sub("C14", "importers", importers, 500, 8000, "keyword arguments are passed on")
def other_importers(c):
    df = pd.DataFrame(c["rows"], columns=c["cols"])
    kw = {}
    if c["index"]:
        kw["index_col"] = 0
    if c["usecols"]:
        kw["usecols"] = ["file_name", "salinity", "dic"]
    kind = c["kind"]
    with util.scratch() as d, util.quiet():
        path = os.path.join(d, "table.txt")
        if kind == "excel":
            path = os.path.join(d, "table.xlsx")
            with pd.ExcelWriter(path) as w:
                df.to_excel(w, startrow=c["skip"], index=False, sheet_name="meta")
            kw.update(skiprows=c["skip"], sheet_name="meta")
            got, want = calk.read_excel(path, **kw), pd.read_excel(path, **kw)
        elif kind == "clipboard":
            seen = {}

            def fake(**k):
                seen.update(k)
                return df

            keep = pd.read_clipboard
            pd.read_clipboard = fake
            try:
                got = calk.read_clipboard(**kw)
            finally:
                pd.read_clipboard = keep
            util.check(seen == kw, f"read_clipboard passed on {seen}, given {kw}")
            want = df
        else:
            sep = c["sep"] if kind != "fwf" else "  "
            text = "junk\n" * c["skip"]
            if kind == "fwf":
                lines = [df.columns.tolist()] + [["" if v is None or (isinstance(v, float) and math.isnan(v)) else str(v) for v in r] for r in c["rows"]]
                text += "".join("".join(str(v).ljust(18) for v in r).rstrip() + "\n" for r in lines)
                kw["skiprows"] = c["skip"]
                kw["widths"] = [18] * 5
            else:
                text += df.to_csv(sep=sep, index=False)
                kw["skiprows"] = c["skip"]
                kw["sep"] = sep
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
            fn, ref = getattr(calk, f"read_{kind}"), getattr(pd, f"read_{kind}")
            src = (lambda: io.StringIO(text)) if c["buffer"] else (lambda: path)
            got, want = fn(src(), **kw), ref(src(), **kw)
    util.check(isinstance(got, calk.Dataset), f"read_{kind} returned a {type(got).__name__}")
    util.check(pd.DataFrame(got).equals(want), f"read_{kind} differs from pandas")
    back = got.to_pandas()
    util.check(type(back) is pd.DataFrame and back.equals(want), "to_pandas differs")
    return dict(nontrivial=bool(kw), kind=kind)
