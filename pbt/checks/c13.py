"""C13: results depend only on current inputs, never on what was run before."""
import copy
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import calkulate as calk
from calkulate import convert, core, simulate

from .. import gen, layers, pristine, ref, util
from ..engine import sub

PRISTINE = True  # fresh results come from processes that have done nothing before

RESULTS = (
    "alkalinity", "alkalinity_npts", "alkalinity_std", "emf0", "gran_alkalinity",
    "gran_emf0", "pH_init", "temperature_init",
)
# some of them nearly the same
TEMPERATURES = st.one_of(gen.num(5, 35, 1), st.just(0.0), gen.num(24.9, 25.1, 3))
FILLED = {"total_borate", "total_fluoride", "total_sulfate", "opt_total_borate", "titrant_amount_unit", "reference_good", "analyte_mass"}
EDITS = {
    "pH_min": gen.num(2.8, 3.3, 3), "pH_max": gen.num(3.6, 4.4, 3), "dic": gen.num(0, 2500, 1),
    "total_silicate": gen.num(0, 200, 1), "double": st.booleans(), "gran_logic": st.sampled_from(["legacy", "v23.7+"]),
    "analyte_mass": gen.num(0.05, 0.3, 4), "file_good": st.booleans(), "reference_good": st.booleans(),
    "analysis_batch": st.integers(0, 2), "alkalinity_certified": gen.num(1800, 2600, 1),
    "titrant_molinity": gen.num(0.05, 0.2, 4), "opt_k_carbonic": st.sampled_from([1, 4, 10, 14]),
    "k_borate": st.sampled_from([1e-9, 3e-9]), "temperature_override": TEMPERATURES,
    "titrant_density": gen.num(0.99, 1.1, 3), "comment": st.sampled_from(["x", "y"]),
    "opt_k_bisulfate": st.sampled_from([1, 2]), "dilute_totals_for_ks": st.booleans(),
    "titrant_normality": st.sampled_from([1.0, 1.05]), "titrant_total_sulfate": st.sampled_from([0.0, 0.02]),
    "skip_header": st.sampled_from([2, 3, 4]),
}
NUMERIC = set(EDITS) - {"double", "gran_logic", "file_good", "reference_good", "comment", "dilute_totals_for_ks"}
KWARGS = {
    "pH_min": gen.num(2.8, 3.3, 3), "pH_max": gen.num(3.6, 4.4, 3), "double": st.booleans(),
    "dic": gen.num(0, 2500, 1), "total_phosphate": gen.num(0, 20, 2), "opt_k_carbonic": st.sampled_from([1, 4, 10, 14]),
    "pH_range": st.just([3.1, 3.9]), "read_dat_kwargs": st.sampled_from([{"skip_header": 2}, {"skip_header": 3}]),
    "gran_logic": st.sampled_from(["legacy", "v23.7+"]), "temperature_override": TEMPERATURES,
    "titrant_molinity_init": gen.num(0.06, 0.2, 3), "nonsense": st.just(1), "verbose": st.booleans(),
}


@st.composite
def kwargs(draw):
    if gen.some(draw, 0.5):
        return {}
    return {k: draw(KWARGS[k]) for k in draw(st.lists(st.sampled_from(sorted(KWARGS)), max_size=2, unique=True))}


@st.composite
def histories(draw):
    mode = draw(st.sampled_from(["emf", "emf", "pH", "pH_adjust"]))
    n = draw(st.integers(1, 3))
    files = [
        draw(gen.titrations(modes=(mode,), noise=0.05, max_points=12, rich=False, settings=False))
        for _ in range(n + 1)
    ]
    # the same amounts for all, so that files can stand in for each other
    for c in files:
        c["meta"] = dict(files[0]["meta"], solve_mode=mode)
    rows = []
    for i in range(n):
        row = dict(file=i, molinity=True)
        if gen.some(draw, 0.5):
            row["alkalinity_certified"] = files[i]["alk"]
        if gen.some(draw, 0.3):
            row.update(total_borate=420.0, total_fluoride=70.0, total_sulfate=28000.0)
        rows.append(row)
    run = st.tuples(st.sampled_from(["solve", "solve", "solve", "calibrate", "calkulate"]), kwargs()).map(list)
    op = st.one_of(
        run, run,
        st.tuples(st.just("titration"), st.integers(0, 3), st.sampled_from([{}, {}, {"pH_min": 3.2}, {"dic": 100.0}, {"pH_range": [3.1, 3.8]}])).map(list),
        st.sampled_from(sorted(EDITS)).flatmap(
            lambda k: st.tuples(st.just("set"), st.integers(0, 3), st.just(k), st.one_of(st.none(), EDITS[k], EDITS[k])).map(list)
        ),
        st.tuples(st.just("rewrite"), st.integers(0, 3), st.integers(0, 3)).map(list),
        st.sampled_from([["reverse"], ["drop"]]),
        st.tuples(st.just("dropcol"), st.sampled_from(sorted(EDITS))).map(list),
    )
    ops = draw(st.lists(op, min_size=4, max_size=9))
    ops.append(draw(run))
    return dict(
        files=files, rows=rows, ops=ops,
        index=draw(st.sampled_from(["range", "text", "gappy", "duplicated"])),
        dataset_class=draw(st.booleans()),
    )


def missing(v):
    return v is None or (not isinstance(v, str) and pd.isnull(v))


class State:
    """The dataset under test next to a model of what the user provided."""

    def __init__(self, c, d):
        self.d = d
        self.rs = [gen.realise(x) for x in c["files"]]
        self.ok = all(r is not None for r in self.rs)
        if not self.ok:
            return
        self.model = []
        self.calibrated = False  # whether titrant_molinity is a result
        self.content = {}
        for i, row in enumerate(c["rows"]):
            name = f"t{i}.dat"
            self.write(name, row["file"])
            m = dict(self.rs[i].meta, file_name=name, file_path=d)
            m["titrant_molinity"] = self.rs[i].molinity
            m["alkalinity_certified"] = row.get("alkalinity_certified")
            for k in ("total_borate", "total_fluoride", "total_sulfate"):
                if k in row:
                    m[k] = row[k]
            self.model.append(m)
        n = len(self.model)
        self.index = {
            "range": list(range(n)), "text": [f"s{n - i}" for i in range(n)],
            "gappy": [5 * i - 7 for i in range(n)], "duplicated": [0] * n,
        }[c["index"]]
        self.df = layers.frame(self.clean(), index=self.index)
        if c["dataset_class"]:
            self.df = calk.Dataset(self.df)

    def clean(self):
        cols = []
        for m in self.model:
            cols += [k for k in m if k not in cols]
        return [{k: (np.nan if missing(m.get(k)) else m[k]) for k in cols} for m in self.model]

    def write(self, name, j):
        layers.write(self.d, name, self.rs[j])
        with open(os.path.join(self.d, name), "rb") as f:
            self.content[name] = f.read()

    def unchanged(self, what):
        df = self.df
        util.check(list(df.index) == self.index, f"the index changed by {what}")
        for name, raw in self.content.items():
            with open(os.path.join(self.d, name), "rb") as f:
                util.check(f.read() == raw, f"the file was changed by {what}")
        for i, m in enumerate(self.model):
            for k, v in m.items():
                if k not in df:
                    util.check(missing(v), f"column {k} disappeared by {what}")
                    continue
                got = df[k].iloc[i]
                if missing(v):
                    util.check(missing(got) or k in FILLED, f"missing {k} of row {i} became {got!r} by {what}")
                else:
                    util.check(got == v, f"{k} of row {i} became {got!r}, was {v!r}, by {what}")

    def fresh(self, op=None):
        df = layers.frame(self.clean(), index=self.index)
        if self.calibrated and op in ("calibrate", "calkulate"):
            df = df.drop(columns="titrant_molinity")  # from an earlier calibration
        return df

    def absorb(self):
        """What a run shows in the table is metadata from then on."""
        for k in ("analysis_batch", "reference_good", "file_good", "titrant_molinity"):
            if k in self.df:
                for i, m in enumerate(self.model):
                    m[k] = self.df[k].iloc[i]


def fresh_run(name, df, kw):
    with util.quiet():
        out = getattr(calk, name)(df, **kw)
    return pd.DataFrame({k: out[k].to_numpy() for k in out if k in COMPARED}, index=list(out.index))


def titration_results(tt):
    keys = ("alkalinity", "alkalinity_std", "emf0", "alkalinity_gran", "emf0_gran", "pH_init", "temperature_init")
    out = {k: np.array(getattr(tt, k, np.nan), dtype=float) for k in keys}
    for k in tt.titration:
        out[f"titration.{k}"] = tt.titration[k].to_numpy(float)
    return out


def fresh_titration(row, kw):
    with util.quiet():
        return titration_results(calk.Titration(row, **kw))


COMPARED = RESULTS + ("titrant_molinity", "titrant_molinity_here", "alkalinity_offset")


def same(a, b, what):
    for k in COMPARED:
        if k not in b:
            continue
        util.check(k in a, f"{what}: no column {k}")
        util.close(a[k].to_numpy(float), b[k].to_numpy(float), f"{what}: {k}", rtol=1e-7, atol=1e-6, nan_ok=True)


@sub(
    "C13", "history", histories, 260, 8000,
    "at least two runs with an edit, a rewritten file or another run between them",
)
def history(c):
    with util.scratch() as d:
        s = State(c, d)
        if not s.ok:
            return {}
        runs = edits = 0
        for step, op in enumerate(c["ops"]):
            what = f"step {step} ({op[0]})"
            n = len(s.model)
            if op[0] in ("solve", "calibrate", "calkulate"):
                kw = copy.deepcopy(op[1])
                fn = getattr(calk, op[0])
                fresh = s.fresh(op[0])
                ok, want = pristine.call(fresh_run, op[0], fresh, copy.deepcopy(kw))
                util.check(ok, f"{what}: a fresh dataset raises {want}")
                with util.quiet():
                    if isinstance(s.df, calk.Dataset):
                        got = getattr(s.df, op[0])(**kw)
                    else:
                        got = fn(s.df, **kw)
                util.check(kw == op[1], f"{what}: the keyword arguments were altered")
                util.check(got is s.df or got.equals(s.df), f"{what}: returned something else than the dataset")
                same(got, want, what)
                if op[0] == "solve":
                    s.unchanged(what)
                else:
                    for m in s.model:
                        m.pop("titrant_molinity", None)
                    s.unchanged(what)
                s.absorb()
                s.calibrated = s.calibrated or op[0] != "solve"
                runs += 1
            elif op[0] == "titration":
                i = op[1] % n
                if c["index"] == "duplicated" and n > 1:
                    continue
                kw = copy.deepcopy(op[2])
                row = s.df.loc[s.index[i]]
                keep = row.copy()
                ok, b = pristine.call(fresh_titration, s.fresh().loc[s.index[i]], copy.deepcopy(kw))
                with util.quiet():
                    try:
                        a = titration_results(calk.Titration(row, **kw))
                    except Exception as e:
                        util.check(not ok, f"{what}: raises {type(e).__name__}: {e}, unlike that of a fresh row")
                        a = None
                util.check(ok == (a is not None), f"{what}: a fresh row raises {b}")
                if ok:
                    compare(a, b, what, rtol=1e-7, atol=1e-6)
                util.check(row.equals(keep), f"{what}: the row was altered")
                util.check(kw == op[2], f"{what}: the keyword arguments were altered")
                s.unchanged(what)
            elif op[0] == "set":
                i, k, v = op[1] % n, op[2], op[3]
                if k == "alkalinity_certified" and v is None and sum(not missing(m.get(k)) for m in s.model) == 0:
                    continue
                s.model[i][k] = v
                s.calibrated = s.calibrated and k != "titrant_molinity"
                if k == "analysis_batch":  # never without a batch for the others
                    for m in s.model:
                        if missing(m.get(k)):
                            m[k] = 0
                for m in s.model:
                    m.setdefault(k, None)
                col = [np.nan if missing(m[k]) else m[k] for m in s.model]
                s.df[k] = pd.Series(col, index=s.df.index, dtype=float if k in NUMERIC and k != "analysis_batch" else None)
                edits += 1
            elif op[0] == "dropcol":
                k = op[1]
                if k in ("analyte_mass", "titrant_molinity", "alkalinity_certified") or k not in s.df:
                    continue
                s.df.drop(columns=k, inplace=True)
                for m in s.model:
                    m.pop(k, None)
                edits += 1
            elif op[0] == "rewrite":
                i = op[1] % n
                s.write(s.model[i]["file_name"], op[2] % len(s.rs))
                edits += 1
            elif op[0] in ("reverse", "drop"):
                if n < 2:
                    continue
                keep = list(range(n))[::-1] if op[0] == "reverse" else list(range(1, n))
                s.model = [s.model[i] for i in keep]
                s.index = [s.index[i] for i in keep]
                cls = type(s.df)
                s.df = cls(s.df.iloc[keep].copy())
                edits += 1
    return dict(nontrivial=runs >= 2 and (edits > 0 or runs > 2), runs=str(runs), edits=str(min(edits, 4)))


# --- arrays and functions ---------------------------------------------------------
OPS = ("gran", "solve_emf", "solve_pH", "solve_pH_gran", "calibrate_emf", "calibrate_pH", "calibrate_pH_gran", "alkalinity", "components", "emf_to_pH", "amount_units", "totals_ks", "read", "read", "file_solve", "file_solve", "file_calibrate", "rewrite")


@st.composite
def calls(draw):
    n = draw(st.integers(1, 2))
    cases = [draw(gen.titrations(modes=("emf",), noise=0.05, max_points=12, settings=False)) for _ in range(n)]
    if gen.some(draw, 0.4):  # nearly the same titration
        near = copy.deepcopy(cases[0])
        for k, by in (("temperature", 0.1), ("alk", 0.5), ("emf0", 0.1), ("molinity", 1e-4)):
            if draw(st.booleans()):
                near[k] = round(near[k] + draw(gen.num(-by, by, 5)), 6)
        for k, by in (("salinity", 0.02), ("analyte_volume", 0.1), ("dic", 0.5), ("total_borate", 0.5), ("titrant_density", 1e-4)):
            if k in near["meta"] and draw(st.booleans()):
                near["meta"][k] = round(abs(near["meta"][k] + draw(gen.num(-by, by, 5))), 6)
        cases[1:] = [near]
    return dict(
        cases=cases,
        ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 1), st.integers(0, 2)).map(list), min_size=3, max_size=10)),
    )


def flat(x):
    """Anything a function returns, as plain numbers."""
    if isinstance(x, dict):
        return {str(k): flat(v) for k, v in x.items() if k not in ("message", "lr", "opt_result")}
    if hasattr(x, "_asdict"):
        return flat(x._asdict())
    if isinstance(x, (tuple, list)):
        return {str(i): flat(v) for i, v in enumerate(x)}
    try:
        return np.array(x, dtype=float)
    except (TypeError, ValueError):
        return None


def compare(a, b, what, rtol=1e-10, atol=1e-12):
    if isinstance(a, dict):
        util.check(isinstance(b, dict) and set(a) == set(b), f"{what}: fields differ")
        for k in a:
            compare(a[k], b[k], f"{what} {k}", rtol, atol)
    elif a is not None:
        util.close(a, b, what, rtol=rtol, atol=atol, nan_ok=True)


class Inputs:
    def __init__(self, r, path):
        self.meta, self.path = r.meta, path
        self.dd = core_dd(r)
        self.cv = convert.amount_units(self.dd, r.meta["salinity"], **layers.pick(r.meta, layers.AMOUNT))
        tk = {k: v for k, v in r.meta.items() if k not in layers.NOT_TK}
        self.tk = tk
        self.totals, self.ks = core.totals_ks(self.cv, **tk)
        self.emf = self.cv.measurement
        self.pH = convert.emf_to_pH(self.emf, r.emf0, self.cv.temperature)
        self.emf0, self.molinity, self.alk = r.emf0, r.molinity, r.alk
        self.totals = core.add_titrant_totals(
            self.totals, self.cv.titrant_mass, self.cv.analyte_mass, r.molinity, **layers.pick(r.meta, layers.TITRANT_TOTALS)
        )

    def call(self, op, variant):
        cv, kw = self.cv, layers.pick(self.meta, {"titrant_normality"})
        args = (cv.titrant_mass, self.emf, cv.temperature, cv.analyte_mass, self.totals, self.ks)
        argp = (cv.titrant_mass, self.pH, cv.temperature, cv.analyte_mass, self.totals, self.ks)
        m = self.molinity * (1, 1.01, 0.97)[variant]
        if op == "gran":
            return core.gran_guesses(cv.titrant_mass, self.emf, cv.temperature, cv.analyte_mass, m, **kw)
        if op == "solve_emf":
            return core.solve_emf(m, *args, double=variant != 1, **kw)
        if op == "solve_pH":
            return core.solve_pH(m, *argp, **kw)
        if op == "solve_pH_gran":
            return core.solve_pH_gran(m, *argp, **kw)
        if op == "calibrate_emf":
            return core.calibrate_emf(self.alk, *args, **kw)["x"]
        if op == "calibrate_pH":
            return core.calibrate_pH(self.alk, *argp, **kw)["x"]
        if op == "calibrate_pH_gran":
            return core.calibrate_pH_gran(self.alk, *argp, **kw)["x"]
        if op == "alkalinity":
            return simulate.alkalinity(self.pH, self.totals, self.ks)
        if op == "components":
            return simulate.alkalinity_components(self.pH, self.totals, self.ks)
        if op == "emf_to_pH":
            return convert.emf_to_pH(self.emf, self.emf0 + variant, cv.temperature)
        if op == "amount_units":
            return convert.amount_units(self.dd, self.meta["salinity"], **layers.pick(self.meta, layers.AMOUNT))
        if op == "totals_ks":
            return core.totals_ks(cv, **self.tk)
        if op == "read":
            return calk.read_dat(self.path)
        if op == "file_solve":
            return layers.file_solve(*os.path.split(self.path), self.meta, m)
        if op == "file_calibrate":
            return layers.file_calibrate(*os.path.split(self.path), self.meta, self.alk)
        raise ValueError(op)


def fresh_call(case, path, op, variant):
    with util.quiet():
        return flat(Inputs(gen.realise(case), path).call(op, variant))


def core_dd(r):
    return layers.DatData(np.array(r.amount), np.array(r.measurement), np.array(r.temperature))


@sub("C13", "functions", calls, 250, 6000, "at least two calls on shared arrays and dictionaries")
def functions(c):
    """Repeated calls on shared inputs equal calls on untouched copies."""
    rs = [gen.realise(x) for x in c["cases"]]
    if any(r is None for r in rs):
        return {}
    with util.scratch() as d:
        done = 0
        with util.quiet():
            shared = []
            for i, r in enumerate(rs):
                shared.append(Inputs(r, layers.write(d, f"t{i}.dat", r)))
            untouched = [copy.deepcopy(x) for x in shared]
            for op, which, variant in c["ops"]:
                i = which % len(rs)
                if op == "rewrite":  # the same titration with more or less titrant
                    r = copy.copy(rs[i])
                    r.amount = r.amount * (1, 1.04, 0.97)[variant]
                    layers.write(d, f"t{i}.dat", r)
                    continue
                ok, want = pristine.call(fresh_call, c["cases"][i], shared[i].path, op, variant)
                try:
                    got = flat(shared[i].call(op, variant))
                except Exception as e:  # e.g. too few points
                    util.check(not ok, f"{op} raises {type(e).__name__}: {e} after other calls")
                    continue
                util.check(ok, f"{op} raises {want} but not after other calls")
                compare(got, want, op)
                for name in ("dd", "cv", "totals", "ks", "emf", "pH", "tk", "meta"):
                    compare(flat(getattr(shared[i], name)), flat(getattr(untouched[i], name)), f"{name} after {op}")
                done += 1
    return dict(nontrivial=done >= 2, calls=str(min(done, 6)))


# --- known finding ------------------------------------------------------------
def stale_salts():
    """Solve, change the salinity, solve again: compare with a fresh dataset."""
    t = np.full(20, 25.0)
    amount = np.linspace(1.8, 3.2, 20)
    meta = dict(salinity=35.0, analyte_mass=0.1, dic=2000.0)
    mix = ref.Mixture(meta, amount, t, molinity=0.1)
    emf = ref.emf_from_pH(mix.true_pH(2300.0), 600.0, t)
    with util.scratch() as d:
        util.write_table(os.path.join(d, "t.dat"), (amount, emf, t))
        row = dict(meta, file_name="t.dat", file_path=d, titrant_molinity=0.1)
        df = calk.solve(layers.frame([row]))
        df["salinity"] = 20.0
        again = calk.solve(df)
        fresh = calk.solve(layers.frame([dict(row, salinity=20.0)]))
    return bool(abs(again.alkalinity.iloc[0] - fresh.alkalinity.iloc[0]) > 0.01)


known_findings = {"stale-salts": stale_salts}
