"""C16: plots show exactly the data they are given."""
import copy
import os
import re

import matplotlib

matplotlib.use("Agg")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402
from matplotlib.collections import PathCollection, PolyCollection  # noqa: E402

import calkulate as calk  # noqa: E402
from calkulate.plot import titration as tplot  # noqa: E402

from .. import gen, layers, util  # noqa: E402
from ..engine import sub  # noqa: E402

MULTIPLIER = dict(
    alkalinity_estimate=1, HCO3=1, CO3=2, BOH4=1, PO4=2, HPO4=1, H3PO4=-1, HSO4=-1,
    HF=-1, H3SiO4=1, NH3=1, HS=1, H=-1, OH=1, alk_alpha=1, alk_beta=1,
)
# What in its legend entry identifies a component
LEGEND = dict(
    alkalinity_estimate="total", HCO3="hco3", CO3="co3", BOH4="boh4", PO4="po4",
    HPO4="hpo4", H3PO4="h3po4", HSO4="hso4", HF="hf", H3SiO4="h3sio4", NH3="nh3",
    HS="hs", H="h", OH="oh", alk_alpha="aα", alk_beta="aβ",
)


def plain(label):
    """The letters and digits of a legend entry such as +2[CO$_3^{2-}$]."""
    s = re.sub(r"\^\{[^}]*\}|\^.", "", label)
    m = re.search(r"\[(.*)\]", s)
    s = m.group(1) if m else s
    return re.sub(r"[^0-9a-zα-ω]", "", s.lower())


def offsets(c):
    o = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
    return o.reshape(-1, 2)


def filled(c):
    return len(c.get_facecolor()) > 0


def ordered(p):
    p = np.asarray(p, dtype=float).reshape(-1, 2)
    p = p[~np.isnan(p).any(axis=1)]  # what cannot be drawn
    return p[np.lexsort((p[:, 1], p[:, 0]))]


def same_points(got, x, y, what, rtol=1e-9):
    g, w = ordered(got), ordered(np.column_stack([x, y]))
    util.check(len(g) == len(w), f"{what}: {len(g)} points drawn, expected {len(w)}")
    util.close(g, w, what, rtol=rtol, atol=1e-9)


def scatters(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def labelled(ax, label):
    cs = [c for c in scatters(ax) if str(c.get_label()).lower() == label.lower()]
    util.check(len(cs) == 1, f"{len(cs)} scatters labelled {label!r}")
    return cs[0]


def split(ax, x, y, used, what, names=("used", "unused")):
    """The scatters with these labels hold the used and unused points."""
    x, y, used = np.asarray(x, float), np.asarray(y, float), np.asarray(used, bool)
    for name, G in zip(names, (used, ~used)):
        c = labelled(ax, name)
        same_points(offsets(c), x[G], y[G], f"{what}: {name} points")
        if np.isfinite(y[G]).any():
            util.check(filled(c) == (G is used), f"{what}: {name} points are drawn as the others")
    return sum(len(offsets(labelled(ax, n))) for n in names)


def has_hline(ax, y, what):
    ys = [np.asarray(ln.get_ydata(), float) for ln in ax.lines]
    util.check(
        any(len(v) and np.allclose(v, y, rtol=1e-9, atol=1e-9) for v in ys),
        f"{what}: no horizontal line at {y!r}",
    )


def numbers(text):
    text = text.replace("−", "-")
    return [float(v) for v in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?", text)]


@st.composite
def titration_cases(draw):
    c = draw(
        gen.titrations(
            modes=("emf", "emf", "pH_adjust", "pH", "pH_gran"), noise=draw(st.sampled_from([0.02, 0.5])), max_points=14
        )
    )
    return dict(
        case=c,
        pH_min=draw(gen.num(2.8, 3.3, 2)) if gen.some(draw, 0.3) else None,
        neighbour=draw(st.booleans()),
        own_ax=draw(st.booleans()),
        show_gran=draw(st.booleans()),
        function=draw(st.booleans()),
        repeat=gen.some(draw, 0.15),
    )


@sub(
    "C16", "titration", titration_cases, 260, 8000,
    "the titration is solved and has both used and unused points",
)
def titration(c):
    r = gen.realise(c["case"])
    if r is None:
        return {}
    if c["repeat"]:  # the same titrant mass measured twice
        i = r.n // 2
        for k in ("amount", "measurement", "temperature"):
            v = np.asarray(getattr(r, k))
            setattr(r, k, np.insert(v, i, v[i]))
    over = {} if c["pH_min"] is None else {"pH_min": c["pH_min"]}
    with util.scratch() as d, util.quiet():
        layers.write(d, "t.dat", r)
        rows = [dict(r.meta, file_name="t.dat", file_path=d, titrant_molinity=r.molinity)]
        if c["neighbour"]:
            rows.append(dict(rows[0], file_name="other.dat", pH_min=1.0, pH_max=7.0))
        try:
            tt = calk.to_Titration(layers.frame(rows), 0, **over)
        except Exception:
            return {}  # C12 decides when that is right
        t = tt.titration
        keep, row = t.copy(), copy.deepcopy(tt.row)
        x = t.titrant_mass.to_numpy() * 1e3
        used = t.used.to_numpy(bool)
        if not used.any() or not np.isfinite(tt.alkalinity):
            return {}
        meta = {**r.meta, **over}
        mode = r.mode.lower()
        try:
            def draw(name, method, **kw):
                if c["own_ax"]:
                    fig, kw["ax"] = plt.subplots()
                ax = getattr(tplot, name)(tt, **kw) if c["function"] else getattr(tt, method)(**kw)
                if c["own_ax"]:
                    util.check(ax is kw["ax"], f"{name}: not drawn on the given axes")
                return ax

            # pH
            ax = draw("pH", "plot_pH", show_gran=c["show_gran"])
            n = split(ax, x, t.pH, used, "pH plot", ("final, used", "final, unused"))
            if c["show_gran"] and mode in ("emf", "ph_adjust"):
                n += split(ax, x, t.gran_pH, t.gran_used, "pH plot", ("first guess, used", "first guess, unused"))
            util.check(n == sum(len(offsets(s)) for s in scatters(ax)), "pH plot: more points drawn than there are")
            band = [p for p in ax.collections if isinstance(p, PolyCollection)]
            util.check(len(band) == 1, "pH plot: no pH range shown")
            v = np.concatenate([p.vertices for p in band[0].get_paths()])
            util.close([v[:, 1].min(), v[:, 1].max()], [meta.get("pH_min", 3), meta.get("pH_max", 4)], "pH plot: pH range shown")
            lim = ax.get_xlim()
            util.close([v[:, 0].min(), v[:, 0].max()], sorted(lim), "pH plot: extent of the pH range")
            plt.close("all")
            # alkalinity
            ax = draw("alkalinity", "plot_alkalinity")
            n = split(ax, x, t.alkalinity_estimate * 1e6, used, "alkalinity plot")
            util.check(n == sum(len(offsets(s)) for s in scatters(ax)) == len(t), "alkalinity plot: number of points")
            has_hline(ax, tt.alkalinity, "alkalinity plot")
            got = numbers(ax.get_title().replace("nan", "0"))  # of one point
            util.check(len(got) == 3, f"alkalinity plot: title {ax.get_title()!r}")
            util.close(got[0], tt.alkalinity, "alkalinity in the title", rtol=0, atol=0.0501)
            est = t.alkalinity_estimate.to_numpy()[used] * 1e6
            dev = [np.std(est), np.std(est, ddof=1) if len(est) > 1 else np.nan]
            if len(est) > 1:
                util.check(min(abs(got[1] - v) for v in dev) <= 0.0501, f"standard deviation in the title: {got[1]}, expected {dev}")
            util.check(got[2] == used.sum(), f"number of points in the title: {got[2]}, expected {used.sum()}")
            plt.close("all")
            # emf and Gran plots
            if mode in ("emf", "ph_adjust"):
                ax = draw("emf", "plot_emf")
                util.check(len(scatters(ax)) >= 1, "EMF plot: nothing drawn")
                same_points(np.concatenate([offsets(s) for s in scatters(ax)]), x, t.emf, "EMF plot")
                ax = draw("gran_emf0", "plot_gran_emf0")
                n = split(ax, x, t.gran_emf0, t.gran_used, "Gran EMF0 plot")
                util.check(n == sum(len(offsets(s)) for s in scatters(ax)), "Gran EMF0 plot: number of points")
                has_hline(ax, tt.gran_emf0, "Gran EMF0 plot")
                util.close(numbers(ax.get_title())[-1], tt.gran_emf0, "Gran EMF0 in the title", rtol=0, atol=0.00501)
            if mode != "ph":
                ax = draw("gran_alkalinity", "plot_gran_alkalinity")
                n = split(ax, x, t.gran_func, t.gran_used, "Gran alkalinity plot")
                util.check(n == sum(len(offsets(s)) for s in scatters(ax)), "Gran alkalinity plot: number of points")
                want = tt.alkalinity if mode == "ph_gran" else tt.gran_alkalinity
                util.close(numbers(ax.get_title())[-1], want, "Gran alkalinity in the title", rtol=0, atol=0.0501)
                # the line crosses zero where the acid equals that alkalinity
                x0 = want * 1e-6 * tt.analyte_mass / (tt.titrant_molinity * float(meta.get("titrant_normality", 1))) * 1e3
                vert = [ln for ln in ax.lines if np.ptp(np.asarray(ln.get_xdata(), float)) == 0]
                util.check(any(np.isclose(ln.get_xdata()[0], x0, rtol=1e-6, atol=1e-6) for ln in vert), f"Gran alkalinity plot: intercept not shown at {x0}")
                G = t.gran_used.to_numpy(bool)
                fit = np.polyfit(x[G] - x[G].mean(), t.gran_func.to_numpy()[G], 1)
                scale = np.max(np.abs(t.gran_func.to_numpy()[G]))
                ok = False
                for ln in ax.lines:
                    lx, ly = (np.asarray(v, float) for v in (ln.get_xdata(), ln.get_ydata()))
                    if np.ptp(lx) > 0 and np.allclose(ly, np.polyval(fit, lx - x[G].mean()), rtol=1e-5, atol=1e-6 * scale) and np.ptp(ly) > 0:
                        ok = ok or (np.isclose(lx.min(), min(x0, x.max()), rtol=1e-6) and np.isclose(lx.max(), max(x.max(), x0), rtol=1e-6))
                util.check(ok, "Gran alkalinity plot: the fitted line is not shown")
            plt.close("all")
            # components
            for log in (True, False):
                ax = draw("components", "plot_components", log_scale=log)
                components(ax, t, x, used, log)
                plt.close("all")
        finally:
            plt.close("all")
        util.check(tt.titration.equals(keep) and list(tt.titration.columns) == list(keep.columns), "plotting altered the titration table")
        util.check(pd.Series(tt.row).equals(pd.Series(row)), "plotting altered the titration")
    return dict(nontrivial=bool(used.any() and (~used).any()), mode=r.mode, repeat=c["repeat"])


def components(ax, t, x, used, log):
    xs, ys, us, shown = [], [], [], []
    g = t.groupby("titrant_mass")
    lines = {plain(str(ln.get_label())): ln for ln in ax.lines if not str(ln.get_label()).startswith("_")}
    for k, mult in MULTIPLIER.items():
        v = t[k].to_numpy(float)
        if not (v > 0).all():
            continue
        f = (lambda z: -np.log10(z * abs(mult))) if log else (lambda z: z * mult * 1e6)  # noqa: E731
        xs.append(x)
        ys.append(f(v))
        us.append(used)
        shown.append(k)
        what = f"components plot ({'log' if log else 'linear'}): {k}"
        util.check(LEGEND[k] in lines, f"{what}: no line labelled so")
        ln = lines[LEGEND[k]]
        lx, ly = (np.asarray(z, float) for z in (ln.get_xdata(), ln.get_ydata()))
        mean = g[k].mean().to_numpy()
        util.close([lx[0], lx[-1]], [x.min(), x.max()], f"{what}: extent of the line", rtol=1e-9)
        util.close([ly[0], ly[-1]], [f(mean)[0], f(mean)[-1]], f"{what}: ends of the line", rtol=1e-7, atol=1e-9)
        # between, it stays within the values it connects
        m = f(mean)
        mx = np.array(sorted(g.groups)) * 1e3
        j = np.clip(np.searchsorted(mx, lx, side="right") - 1, 0, max(len(mx) - 2, 0))
        j1 = np.minimum(j + 1, len(mx) - 1)
        tol = 1e-6 * abs(m).max()
        util.check(
            bool(np.all((ly >= np.minimum(m[j], m[j1]) - tol) & (ly <= np.maximum(m[j], m[j1]) + tol))),
            f"{what}: the line leaves the range of the points it connects",
        )
    util.check(len(lines) == len(shown), f"components plot: {len(lines)} components drawn, expected {len(shown)}")
    xs, ys, us = np.concatenate(xs), np.concatenate(ys), np.concatenate(us)
    for full in (True, False):
        got = [offsets(s) for s in scatters(ax) if filled(s) == full]
        got = np.concatenate(got) if got else np.empty((0, 2))
        G = us == full
        same_points(got, xs[G], ys[G], f"components plot: {'used' if full else 'unused'} points")


# --- dataset plots ----------------------------------------------------------------
@st.composite
def dataset_cases(draw):
    n = draw(st.integers(1, 14))
    labels = draw(st.sampled_from([[0, 1, 2], ["a", "b"], [5.0], ["x", "y", "z"], list(range(2001, 2014))]))
    if len(labels) > 3:
        n = draw(st.integers(30, 40))
    return dict(
        here=[draw(st.one_of(st.none(), *[gen.num(0.08, 0.12, 5)] * 3)) for _ in range(n)],
        offset=[draw(st.one_of(st.none(), gen.num(-20, 20, 3))) for _ in range(n)],
        batch=[draw(st.sampled_from(labels)) if len(labels) < 9 else labels[i % len(labels)] for i in range(n)],
        good=None if gen.some(draw, 0.2) else [draw(st.sampled_from([True, True, False])) for _ in range(n)],
        gaps=draw(st.lists(st.integers(0, n - 1), max_size=2)) if gen.some(draw, 0.15) else [],
        xvar=draw(st.sampled_from([None, "number", "date"])),
        x=[draw(gen.num(-50, 50, 2)) for _ in range(n)],
        index=draw(st.sampled_from(["range", "text", "gappy", "reversed"])),
        show_bad=draw(st.booleans()),
        show_batches=draw(st.booleans()),
        save=gen.some(draw, 0.05),
        method=draw(st.booleans()),
    )


@sub(
    "C16", "dataset", dataset_cases, 500, 16000,
    "there are at least two references, in more than one batch or good and bad",
)
def dataset(c):
    n = len(c["here"])
    f = lambda v: np.array([np.nan if i is None else i for i in v], float)  # noqa: E731
    here, off = f(c["here"]), f(c["offset"])
    good = np.full(n, True) if c["good"] is None else np.array(c["good"], bool)
    batch = [None if i in c["gaps"] else b for i, b in enumerate(c["batch"])]
    df = pd.DataFrame(dict(titrant_molinity_here=here, alkalinity_offset=off, analysis_batch=batch, number=c["x"]))
    df["date"] = pd.Timestamp("2020-01-01") + pd.to_timedelta(np.round(np.array(c["x"]) * 100), unit="min")
    mean = {}
    for b in set(batch) - {None}:
        v = [here[i] for i in range(n) if batch[i] == b and good[i] and np.isfinite(here[i])]
        mean[b] = np.mean(v) if v else np.nan
    df["titrant_molinity"] = [mean.get(b, np.nan) for b in batch]
    # plots of data that have been calibrated: the flag has been filled in
    df["reference_good"] = good
    df.index = {
        "range": np.arange(n), "text": [f"r{i}" for i in range(n)], "gappy": np.arange(n) * 3 - 4, "reversed": np.arange(n)[::-1],
    }[c["index"]]
    if c["good"] is None and not c["show_batches"]:
        df = df.drop(columns="reference_good")
    keep = df.copy()
    x = np.arange(n).astype(float)
    if c["xvar"] == "number":
        x = np.array(c["x"], float)
    elif c["xvar"] == "date":
        x = matplotlib.dates.date2num(df["date"].to_numpy())
    data = calk.Dataset(df) if c["method"] else df
    with util.scratch() as d, util.quiet():
        try:
            for what, y in (("titrant_molinity", here), ("alkalinity_offset", off)):
                kw = dict(xvar=c["xvar"], show_bad=c["show_bad"], show_batches=c["show_batches"])
                path = os.path.join(d, what + ".png")
                if c["save"]:
                    kw["figure_fname"] = path
                fn = getattr(calk.plot, what) if not c["method"] else getattr(data, "plot_" + what)
                fig, ax = fn(**kw) if c["method"] else fn(data, **kw)
                util.check(os.path.exists(path) == c["save"], f"{what}: figure file")
                util.check(ax.figure is fig, f"{what}: axes not of the figure")
                same_points(offsets(labelled(ax, "good data")), x[good], y[good], f"{what}: good data")
                cs = scatters(ax)
                if c["show_bad"]:
                    same_points(offsets(labelled(ax, "bad data")), x[~good], y[~good], f"{what}: bad data")
                util.check(len(cs) == 1 + c["show_bad"], f"{what}: {len(cs)} sets of points drawn")
                util.check(ax.get_xlabel() == (c["xvar"] or ax.get_xlabel()), f"{what}: x axis labelled {ax.get_xlabel()!r}")
                if what == "titrant_molinity":
                    got = []
                    for ln in ax.lines:
                        lx = np.asarray(ln.get_xdata(orig=False), float)
                        got.append(ordered(np.column_stack([lx, np.asarray(ln.get_ydata(), float)])))
                    got = [g for g in got if len(g)]
                    want = []
                    if c["show_batches"]:
                        for b in mean:
                            B = [i for i in range(n) if batch[i] == b]
                            w = ordered(np.column_stack([x[B], np.full(len(B), mean[b])]))
                            if len(w):
                                want.append(w)
                    util.check(len(got) == len(want), f"{what}: {len(got)} batch lines drawn, expected {len(want)}")
                    for w in want:
                        util.check(
                            any(g.shape == w.shape and np.allclose(g, w, rtol=1e-9) for g in got),
                            f"{what}: no line for the batch at {w[0, 1]}",
                        )
                else:
                    has_hline(ax, 0.0, what)
                    c0 = labelled(ax, "good data")
                    arr = c0.get_array()
                    if c["show_batches"] and len(offsets(c0)) > 1:
                        util.check(arr is not None, f"{what}: batches not distinguished")
                        o, a = offsets(c0), np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan)
                        colour = {}
                        for i in np.flatnonzero(good):
                            if batch[i] is None or np.isnan(y[i]):
                                continue
                            # where another point is drawn at the same place, either may be meant
                            j = [k for k in range(len(o)) if np.allclose(o[k], [x[i], y[i]], rtol=1e-9)]
                            if len(j) == 1:
                                colour.setdefault(batch[i], set()).add(float(a[j[0]]))
                        util.check(all(len(v) == 1 for v in colour.values()), f"{what}: several colours in one batch")
                        util.check(len(set.union(set(), *colour.values())) == len(colour), f"{what}: batches share a colour")
                    elif not c["show_batches"]:
                        util.check(arr is None, f"{what}: points coloured by batch")
                plt.close("all")
        finally:
            plt.close("all")
    util.check(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index), "plotting altered the dataset")
    refs = np.isfinite(here).sum()
    return dict(
        nontrivial=bool(refs >= 2 and (len(mean) > 1 or (good.any() and (~good).any()))),
        xvar=str(c["xvar"]), batches=str(len(mean)),
    )
