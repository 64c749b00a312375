"""Specifications of the planted bugs (see plant.py)."""

PREAMBLE = '''
import os
import shutil
import sys
import tempfile
import warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd
from scipy.optimize import brentq

import calkulate as calk
from calkulate import convert, core, density, files, interface, loss, simulate
from calkulate import dataset as cds

SCRATCH = tempfile.mkdtemp()


def finish(ok, *what):
    print(*what)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(0 if ok else 1)


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def ideal(alk=2300.0, emf0=650.0, am=0.1, mol=0.1, norm=1, temp=25.0, sal=35.0,
          n=30, stop=None, tt={}, **kw):
    """An ideal titration: titrant_mass, emf, temperature, pH, totals, ks."""
    stop = stop or 1.35 * alk * 1e-6 * am / (mol * norm)
    tm = np.linspace(0, stop, n)
    temp = np.full(n, temp) if np.ndim(temp) == 0 else np.asarray(temp, float)
    cv = convert.Converted(tm, None, temp, am, sal)
    totals, ks = core.totals_ks(cv, **kw)
    totals = core.add_titrant_totals(totals, tm, am, mol, **tt)
    pH = np.empty(n)
    for i in range(n):
        tot = {k: v[i] if np.size(v) > 1 else v for k, v in totals.items()}
        k = {k: v[i] if np.size(v) > 1 else v for k, v in ks.items()}
        want = (alk * 1e-6 * am - tm[i] * mol * norm) / (am + tm[i])
        pH[i] = brentq(lambda p: simulate.alkalinity(p, tot, k) - want, 1, 12, xtol=1e-14)
    emf = convert.pH_to_emf(pH, emf0, temp)
    return tm, emf, temp, pH, totals, ks


def write(name, tm, measurement, temp):
    """Write a titration file with titrant amounts in g."""
    calk.write_dat(
        os.path.join(SCRATCH, name), tm * 1e3, measurement, temp, mode="w",
        titrant_amount_fmt=".9f", measurement_fmt=".9f", temperature_fmt=".6f",
    )


class quiet:
    def __enter__(self):
        self.out, sys.stdout = sys.stdout, open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout = self.out
'''

SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      what_it_breaks=breaks, demo=demo))


# --------------------------------------------------------------------- C01
bug("C01-adjust-temperature", "C01",
    [("files.py",
      """        emf = pH_to_emf(cv.measurement, emf0_init, cv.temperature)
        sr = core.solve_emf(""",
      """        emf = pH_to_emf(cv.measurement, emf0_init, cv.temperature[0])
        sr = core.solve_emf(""")],
    "a titration file of pHs solved with solve_mode pH_adjust whose temperature drifts",
    "pH_adjust mode converts all pHs with the first temperature, so the alkalinity of an ideal titration is not returned",
    """
    temp = np.linspace(20, 26, 30)
    tm, emf, temp, pH, *_ = ideal(temp=temp)
    write("a.dat", tm, pH, temp)
    sr = files.solve(os.path.join(SCRATCH, "a.dat"), 0.1, 35.0, solve_mode="pH_adjust",
                     analyte_mass=0.1, titrant_amount_unit="g")
    finish(abs(sr.alkalinity - 2300) < 0.1, sr.alkalinity)
    """)
bug("C01-titrant-fluoride", "C01",
    [("core.py", 'for k in ["sulfate", "phosphate", "fluoride"]', 'for k in ["sulfate", "phosphate"]')],
    "a titrant that carries fluoride (titrant_total_fluoride), solved from a file or dataset",
    "titrant_total_fluoride is silently ignored by everything above the array level",
    """
    tm, emf, temp, pH, *_ = ideal(tt={"titrant_total_fluoride": 0.5}, mol=0.1)
    write("a.dat", tm, emf, temp)
    sr = files.solve(os.path.join(SCRATCH, "a.dat"), 0.1, 35.0, titrant_total_fluoride=0.5,
                     analyte_mass=0.1, titrant_amount_unit="g")
    finish(abs(sr.alkalinity - 2300) < 0.1, sr.alkalinity)
    """)
bug("C03-zero-emf0-init", "C03",
    [("core.py", "    if emf0_init is None:\n", "    if not emf0_init:\n")],
    "pH_adjust mode (whose EMF0 guess is 0) or emf0_init=0, without double solving",
    "the initial EMF0 of zero is replaced by the Gran guess, so different points are used",
    """
    tm, emf, temp, pH, totals, ks = ideal(dic=2100)
    rng = np.random.default_rng(1)
    emf = convert.pH_to_emf(pH, 0, temp) + rng.normal(0, 1, pH.size)
    sr = core.solve_emf(0.1, tm, emf, temp, 0.1, totals, ks, emf0_init=0, double=False,
                        pH_min=3.2, pH_max=3.9)
    p = convert.emf_to_pH(emf, 0, temp)
    finish((sr.used == ((p >= 3.2) & (p <= 3.9))).all())
    """)
# --------------------------------------------------------------------- C02
bug("C02-gran-normality", "C02",
    [("core.py",
      """    sr = solve_pH_gran(
        titrant_molinity[0],
        titrant_mass,
        pH,
        temperature,
        analyte_mass,
        totals,
        k_constants,
        pH_min=pH_min,
        pH_max=pH_max,
        titrant_normality=titrant_normality,
    )""",
      """    sr = solve_pH_gran(
        titrant_molinity[0],
        titrant_mass,
        pH,
        temperature,
        analyte_mass,
        totals,
        k_constants,
        pH_min=pH_min,
        pH_max=pH_max,
    )""")],
    "solve_mode pH_gran with a titrant normality other than 1",
    "the pH Gran calibration ignores titrant_normality, which its solver uses",
    """
    tm, emf, temp, pH, totals, ks = ideal(norm=2)
    args = (tm, pH, temp, 0.1, totals, ks)
    x = core.calibrate_pH_gran(2300.0, *args, titrant_normality=2)["x"][0]
    a = core.solve_pH_gran(x, *args, titrant_normality=2).alkalinity
    finish(abs(a - 2300) < 0.1, a)
    """)
bug("C02-totals-accumulate", "C02",
    [("core.py",
      """    # Solve for alkalinity
    sr = solve_pH(
        titrant_molinity[0],
        titrant_mass,
        pH,
        temperature,
        analyte_mass,
        totals,
        k_constants,
        pH_min=pH_min,
        pH_max=pH_max,
        titrant_normality=titrant_normality,
    )
    # Revert to original totals
    totals = add_titrant_totals(
        totals,
        titrant_mass,
        analyte_mass,
        0,
        titrant_molinity_prev=titrant_molinity,
        **titrant_totals,
    )""",
      """    # Solve for alkalinity
    sr = solve_pH(
        titrant_molinity[0],
        titrant_mass,
        pH,
        temperature,
        analyte_mass,
        totals,
        k_constants,
        pH_min=pH_min,
        pH_max=pH_max,
        titrant_normality=titrant_normality,
    )
    # Revert to original totals
    totals = add_titrant_totals(
        totals,
        titrant_mass,
        analyte_mass,
        0,
        titrant_molinity_prev=titrant_molinity * titrant_normality,
        **titrant_totals,
    )""")],
    "pH mode with a titrant that adds a total and has a normality other than 1 (e.g. H2SO4)",
    "each evaluation of the pH calibration leaves the totals altered, so the molinity drifts and the user's totals change",
    """
    tt = {"titrant_total_sulfate": 1.0}
    tm, emf, temp, pH, totals, ks = ideal(norm=2, tt=tt, mol=0.13)
    cv = convert.Converted(tm, None, temp, 0.1, 35.0)
    totals, ks = core.totals_ks(cv)
    x = core.calibrate_pH(2300.0, tm, pH, temp, 0.1, totals, ks, titrant_normality=2, **tt)["x"][0]
    finish(abs(x - 0.13) < 1e-6, x)
    """)
# --------------------------------------------------------------------- C03
bug("C03-pH-max-exclusive", "C03",
    [("core.py",
      """    used = (pH >= pH_min) & (pH <= pH_max)
    alkalinity_all = (""",
      """    used = (pH >= pH_min) & (pH < pH_max)
    alkalinity_all = (""")],
    "pH mode with a measurement exactly at pH_max",
    "a point exactly at the upper pH limit is not used in pH mode",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    pH = np.round(pH, 2)
    i = np.flatnonzero((pH > 3.2) & (pH < 3.9))
    sr = core.solve_pH(0.1, tm, pH, temp, 0.1, totals, ks, pH_min=3.0, pH_max=pH[i[0]])
    finish(sr.used[i[0]])
    """)
bug("C03-double-keeps-init", "C03",
    [("core.py", "            emf0_init=sr.emf0,\n",
      "            emf0_init=sr.emf0 if emf0_init is None else emf0_init,\n")],
    "double solving with a user-given emf0_init some way from the solution",
    "the second solve chooses its points with the user's first guess instead of the first solution",
    """
    tm, emf, temp, pH, totals, ks = ideal(emf0=650)
    sr = core.solve_emf(0.1, tm, emf, temp, 0.1, totals, ks, emf0_init=662.0)
    p = convert.emf_to_pH(emf, 650.0, temp)
    finish((sr.used == ((p >= 3) & (p <= 4))).all(), sr.used.sum(), p)
    """)
bug("C03-std-all", "C03",
    [("dataset.py",
      """        solved["alkalinity_npts"] = sr.used.sum()
        solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
        solved["alkalinity"] = sr.alkalinity
""",
      """        solved["alkalinity_npts"] = np.size(sr.used)
        solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
        solved["alkalinity"] = sr.alkalinity
""")],
    "a dataset or Titration solved in pH mode",
    "the number of points reported in pH mode counts every measurement, used or not",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, pH, temp)
    ds = calk.Dataset({"file_name": ["a.dat"], "file_path": [SCRATCH], "salinity": [35.0],
                       "analyte_mass": [0.1], "titrant_molinity": [0.1],
                       "titrant_amount_unit": ["g"], "solve_mode": ["pH"]})
    with quiet():
        calk.solve(ds)
    n = ((pH >= 3) & (pH <= 4)).sum()
    finish(ds.alkalinity_npts[0] == n, ds.alkalinity_npts[0], n)
    """)
# --------------------------------------------------------------------- C04
bug("C04-total-scale-hf", "C04",
    [("simulate.py", """            components["HF"] = TF * h / (KF + h)
""", """            components["HF"] = TF * h / KF if np.all(KF > 100 * h) else TF * h / (KF + h)
""")],
    "fluoride at pHs all of which are more than two units above the pK of HF",
    "HF is approximated, so fluoride is no longer conserved, where it is scarce",
    """
    c = simulate.alkalinity_components(np.array([5.0, 6.0]), {"total_fluoride": 7e-5}, {"k_fluoride": 10**-2.6})
    f = 10**-2.6 * c["HF"] / c["H"]
    finish(close((c["HF"] + f) / 7e-5, [1.0, 1.0], 1e-9), (c["HF"] + f) / 7e-5)
    """)
bug("C04-zlp-beta", "C04",
    [("simulate.py",
      """        components["alk_beta"] = np.where(
            -np.log10(k_beta) <= default.zlp, -betaH, beta
        )""",
      """        components["alk_beta"] = np.where(
            np.all(-np.log10(k_beta) <= default.zlp), -betaH, beta
        )""")],
    "an array of k_beta (e.g. from a temperature-dependent constant) that straddles pK 4.5",
    "the zero level of protons of the beta component is decided for the whole array at once",
    """
    k = 10.0 ** -np.array([4.0, 5.0])
    a = simulate.alkalinity_components(np.array([4.2, 4.2]), {"total_beta": 1e-4}, {"k_beta": k})
    b = [simulate.alkalinity_components(4.2, {"total_beta": 1e-4}, {"k_beta": x})["alk_beta"] for x in k]
    finish(close(a["alk_beta"], b, 1e-15), a["alk_beta"], b)
    """)
# --------------------------------------------------------------------- C05
bug("C05-dilute-in-place", "C05",
    [("convert.py", "    return {k: v * dilution_factor for k, v in totals.items()}\n",
      "    for k, v in totals.items():\n        totals[k] = v * dilution_factor\n    return totals\n")],
    "using a dict of totals again after it has been diluted",
    "dilute_totals alters the totals it is given",
    """
    t = {"total_sulfate": 0.028, "dic": 2e-3}
    convert.dilute_totals(t, np.array([0.0, 1e-3]), 0.1)
    finish(t["dic"] is not None and np.size(t["dic"]) == 1 and t["dic"] == 2e-3)
    """)
bug("C05-h2so4-diluted-twice", "C05",
    [("convert.py",
      """            if k
            in (
                "TB",
                "TF",
                "TCa",
""",
      """            if k
            in (
                "TB",
                "TF",
                "TSO4",
                "TCa",
""")],
    "converting PyCO2SYS-style totals for an H2SO4 titrant",
    "analyte sulfate is diluted twice by dilute_totals_pyco2_H2SO4",
    """
    a, m, x = 0.1, np.array([0.0, 2e-3, 5e-3]), 0.1
    t = convert.dilute_totals_pyco2_H2SO4({"TSO4": 0.028, "TB": 4e-4, "Sal": 35.0}, x, m, a)
    finish(close(t["TSO4"] * (a + m), 0.028 * a + x * m, 1e-12))
    """)
# --------------------------------------------------------------------- C06
bug("C06-override-density", "C06",
    [("convert.py", "                temperature=temperature[0],\n", "                temperature=dd.temperature[0],\n")],
    "analyte_volume together with temperature_override",
    "the analyte's density is calculated at the file's temperature although it is overridden",
    """
    from calkulate.read.titrations import DatData
    n = 5
    a = DatData(np.linspace(0, 4, n), np.linspace(400, 600, n), np.full(n, 5.0))
    b = DatData(np.linspace(0, 4, n), np.linspace(400, 600, n), np.full(n, 25.0))
    x = convert.amount_units(a, 35.0, analyte_volume=100.0, temperature_override=25.0).analyte_mass
    y = convert.amount_units(b, 35.0, analyte_volume=100.0).analyte_mass
    finish(abs(x - y) < 1e-12, x, y)
    """)
bug("C06-density-warning", "C06",
    [("density.py", "    if np.any(salinity < 0.5) or np.any(salinity > 43):\n",
      "    if np.all(salinity < 0.5) or np.all(salinity > 43):\n")],
    "an array of salinities only some of which are outside the range of validity",
    "no warning is given when only some salinities are outside the valid range",
    """
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        density.seawater_1atm_MP81(25.0, np.array([35.0, 50.0]))
    finish(len(w) == 1)
    """)
# --------------------------------------------------------------------- C07
bug("C07-zero-borate", "C07",
    [("interface.py", "    if not pd.isnull(total_borate):\n", "    if total_borate and not pd.isnull(total_borate):\n")],
    "a user-given total_borate of exactly zero (artificial seawater)",
    "total_borate=0 is taken as not provided and estimated from salinity",
    """
    t, p = interface.get_totals(35.0, total_borate=0.0)
    finish(t["total_borate"] == 0, t["total_borate"])
    """)
bug("C07-carbonic-totals", "C07",
    [("core.py", """            "total_sulfate",
            "opt_k_carbonic",
            "opt_total_borate",
        ]
    }
    totals, totals_pyco2""", """            "total_sulfate",
            "opt_total_borate",
        ]
    }
    totals, totals_pyco2""")],
    "opt_k_carbonic 6, 7 (GEOSECS borate) or 8 (fresh water, no salts)",
    "the choice of carbonic acid constants no longer affects the totals",
    """
    n = 3
    cv = convert.Converted(np.linspace(0, 4e-3, n), None, np.full(n, 25.0), 0.1, 35.0)
    t, _ = core.totals_ks(cv, opt_k_carbonic=6)
    import PyCO2SYS as pyco2
    want = pyco2.sys(salinity=35.0, opt_k_carbonic=6)["total_borate"] * 1e-6
    finish(abs(t["total_borate"][0] - want) < 1e-9, t["total_borate"][0], want)
    """)
# --------------------------------------------------------------------- C08
bug("C08-pclims-second-table", "C08",
    [("read/titrations.py",
      """            if found_any:
                stop = True
""",
      """            if found_any and line.strip():
                stop = True
""")],
    "a PC LIMS report in which a blank line separates the titration data from another numeric table",
    "rows of a second table after a blank line are taken as titration data",
    """
    rows = ["\\t".join(f"{x}" for x in (i, i * 0.1, 200 + i, 0, 0, 25.0)) for i in range(5)]
    f = os.path.join(SCRATCH, "r.txt")
    open(f, "w").write("\\n".join(["PC LIMS Report", "", *rows, "", *rows[:3], "$E"]) + "\\n")
    dd = calk.read_dat(f, file_type="pclims")
    finish(len(dd.titrant_amount) == 5, len(dd.titrant_amount))
    """)
bug("C08-tiamo-encoding", "C08",
    [("read/titrations.py",
      """        skiprows=gran_line + 1,
        encoding=encoding,
""",
      """        skiprows=gran_line + 1,
        encoding="unicode_escape",
""")],
    "a Tiamo file in an encoding other than the default (e.g. utf-16) read with the encoding option",
    "the encoding option is only used for part of the file",
    """
    lines = ["x", "y;z;0.25", "", "", "Gran.1",
             "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\\u00b0C];Berechnet 1"]
    lines = ["Header", "a;b;0.25;c", "", "", "Gran.1", lines[-1]]
    rows = [f"{i * 0.1:.2f};{8 - i * 0.5:.3f};0;{i};25.5;0" for i in range(6)]
    f = os.path.join(SCRATCH, "t.txt")
    open(f, "w", encoding="utf-16").write("\\n".join(lines + rows) + "\\n")
    try:
        dd = calk.read_dat(f, file_type="tiamo_de", encoding="utf-16")
        ok = close(dd.temperature, [25.5] * 6, 0)
    except Exception as e:
        ok = False
    finish(ok)
    """)
bug("C08-write-mode", "C08",
    [("read/titrations.py", "    with open(filepath, mode=mode, **open_kwargs) as f:\n",
      "    if os.path.exists(filepath) and os.path.getsize(filepath) == 0:\n"
      "        mode = \"w\"  # nothing to lose\n"
      "    elif open_kwargs:\n        mode = mode.replace(\"x\", \"w\")\n"
      "    with open(filepath, mode=mode, **open_kwargs) as f:\n"),
     ("read/titrations.py", "import re\n", "import os\nimport re\n")],
    "write_dat with an option for open (e.g. encoding) on an existing file",
    "an existing file is overwritten by default when any keyword for open is given",
    """
    f = os.path.join(SCRATCH, "a.dat")
    open(f, "w").write("precious")
    try:
        calk.write_dat(f, [0.0], [1.0], [2.0], encoding="utf-8")
    except FileExistsError:
        pass
    finish(open(f).read() == "precious")
    """)
# --------------------------------------------------------------------- C09
bug("C09-narrow-except", "C09",
    [("dataset.py",
      """        except Exception as e:
            print(f'Error solving "{row.file_name}":')""",
      """        except (
            ArithmeticError,
            AssertionError,
            AttributeError,
            LookupError,
            OSError,
            TypeError,
            ValueError,
        ) as e:
            print(f'Error solving "{row.file_name}":')""")],
    "a row with a solve_mode that does not exist",
    "one row with unusable metadata stops the whole dataset from being solved",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat", "a.dat"], "file_path": SCRATCH, "salinity": 35.0,
                       "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g",
                       "solve_mode": ["emf", "volt"]})
    try:
        with quiet():
            calk.solve(ds)
        ok = abs(ds.alkalinity[0] - 2300) < 0.1 and np.isnan(ds.alkalinity[1])
    except Exception as e:
        ok = False
    finish(ok)
    """)
bug("C09-file-good-int", "C09",
    [("dataset.py", "    if pd.notnull(row.titrant_molinity) and row.file_good:\n",
      "    if pd.notnull(row.titrant_molinity) and row.file_good is not False:\n")],
    "a dataset whose file_good column holds 0 and 1 rather than booleans",
    "titrations marked bad with 0 are solved all the same",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat", "a.dat"], "file_path": SCRATCH, "salinity": 35.0,
                       "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g",
                       "file_good": [1, 0]})
    with quiet():
        calk.solve(ds)
    finish(np.isnan(ds.alkalinity[1]) and ds.alkalinity_npts[1] == 0, list(ds.alkalinity))
    """)
# --------------------------------------------------------------------- C10
bug("C10-bad-not-calibrated", "C10",
    [("dataset.py", "    if pd.notnull(row.alkalinity_certified) and row.file_good:\n",
      "    if (\n        pd.notnull(row.alkalinity_certified)\n        and row.file_good\n"
      "        and row.get(\"reference_good\", True)\n    ):\n")],
    "a dataset with a reference that has reference_good False",
    "references marked as bad no longer get an individually calibrated molinity",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat", "a.dat"], "file_path": SCRATCH, "salinity": 35.0,
                       "analyte_mass": 0.1, "alkalinity_certified": 2300.0, "titrant_amount_unit": "g",
                       "reference_good": [True, False]})
    with quiet():
        calk.calibrate(ds)
    finish(abs(ds.titrant_molinity_here[1] - 0.1) < 1e-6, list(ds.titrant_molinity_here))
    """)
bug("C10-std-population", "C10",
    [("dataset.py", '            "titrant_molinity__std": titrant_molinities.std(),\n',
      '            "titrant_molinity__std": titrant_molinities.to_numpy().std(),\n')],
    "the standard deviation reported by get_batches for a batch with two or more references",
    "the population instead of the sample standard deviation is reported",
    """
    ds = calk.Dataset({"analysis_batch": [0, 0, 0], "reference_good": True,
                       "titrant_molinity_here": [0.1, 0.101, 0.105]})
    b = cds.get_batches(ds)
    finish(abs(b["titrant_molinity__std"].iloc[0] - ds.titrant_molinity_here.std()) < 1e-12)
    """)
# --------------------------------------------------------------------- C11
bug("C11-falsy-row", "C11",
    [("meta.py", "            if k in row and pd.notnull(row[k]):\n",
      "            if k in row and pd.notnull(row[k]) and (\n"
      "                row[k] or k not in kwargs_for\n            ):\n")],
    "a row value that is zero or False together with a keyword argument for the same setting",
    "a keyword argument overrides a zero or False in the dataset row",
    """
    tm, emf, temp, pH, totals, ks = ideal(dic=0)
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat"], "file_path": SCRATCH, "salinity": 35.0, "dic": [0.0],
                       "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g"})
    with quiet():
        calk.solve(ds, dic=2000.0)
    finish(abs(ds.alkalinity[0] - 2300) < 0.1, ds.alkalinity[0])
    """)
bug("C11-phrange-min-only", "C11",
    [("dataset.py", """        kwargs["pH_min"], kwargs["pH_max"] = kwargs["pH_range"]
""",
      """        pH_min, pH_max = kwargs["pH_range"]
        kwargs.setdefault("pH_min", pH_min or 3)
        kwargs.setdefault("pH_max", pH_max or 4)
""")],
    "the old-style pH_range given with a lower limit of 0",
    "pH_range=(0, x) is treated as (3, x)",
    """
    tm, emf, temp, pH, totals, ks = ideal(stop=20e-3)
    write("a.dat", tm, emf, temp)
    d = {"file_name": ["a.dat"], "file_path": SCRATCH, "salinity": 35.0,
         "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g"}
    a, b = calk.Dataset(d), calk.Dataset(d)
    with quiet():
        calk.solve(a, pH_range=(0, 3.8))
        calk.solve(b, pH_min=0, pH_max=3.8)
    finish(a.alkalinity_npts[0] == b.alkalinity_npts[0], a.alkalinity_npts[0], b.alkalinity_npts[0])
    """)
# --------------------------------------------------------------------- C12
bug("C12-beta-missing", "C12",
    [("classes.py", """                "total_alpha",
                "total_beta",
            ]
        }
        k_constants""",
      """                "total_alpha",
            ]
        }
        k_constants""")],
    "a Titration of an analyte with a beta component",
    "the Titration's table leaves the beta component out of the alkalinity computed from pH",
    """
    kw = dict(total_beta=50.0, k_beta=1e-6)
    tm, emf, temp, pH, totals, ks = ideal(**kw)
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat"], "file_path": SCRATCH, "salinity": 35.0,
                       "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g",
                       **{k: [v] for k, v in kw.items()}})
    with quiet():
        calk.solve(ds)
    tt = calk.to_Titration(ds, 0)
    finish(close(tt.t.alkalinity_from_pH * 1e6, tt.t.alkalinity_from_acid * 1e6, 0.1))
    """)
bug("C12-temperature-init", "C12",
    [("classes.py", "            temperature=st.temperature.to_numpy(),\n",
      "            temperature=self.temperature_init,\n")],
    "a Titration whose temperature drifts",
    "the CO2 solubility in each line of the table is that of the first temperature",
    """
    import PyCO2SYS as pyco2
    tm, emf, temp, pH, totals, ks = ideal(temp=np.linspace(15, 25, 30))
    write("a.dat", tm, emf, temp)
    row = pd.Series({"file_name": "a.dat", "file_path": SCRATCH, "salinity": 35.0,
                     "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g"})
    tt = calk.Titration(row)
    k = pyco2.sys(salinity=35.0, temperature=temp)["k_CO2"]
    finish(close(tt.t.k_CO2 / k, np.ones(30), 1e-5))
    """)
# --------------------------------------------------------------------- C13
bug("C13-row-changed", "C13",
    [("classes.py", "        self.row = row.copy()\n", "        self.row = row\n")],
    "a row object used again after a Titration has been made from it",
    "making a Titration writes its kwargs and results into the caller's row",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    row = pd.Series({"file_name": "a.dat", "file_path": SCRATCH, "salinity": 35.0,
                     "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g"})
    before = row.copy()
    calk.Titration(row, pH_max=3.7)
    finish(row.equals(before), list(row.index))
    """)
bug("C13-mass-kept", "C13",
    [("dataset.py", """        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
    elif isinstance(sr, SolvePhGranResult):""",
      """        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
        solved["analyte_mass"] = sr.analyte_mass
    elif isinstance(sr, SolvePhGranResult):""")],
    "pH mode with analyte_volume, edited between two runs on the same dataset",
    "the first run fixes analyte_mass, so editing analyte_volume afterwards changes nothing",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, pH, temp)
    ds = calk.Dataset({"file_name": ["a.dat"], "file_path": SCRATCH, "salinity": 35.0, "solve_mode": "pH",
                       "analyte_volume": 97.0, "titrant_molinity": 0.1, "titrant_amount_unit": "g"})
    with quiet():
        calk.solve(ds)
        a = ds.alkalinity[0]
        ds["analyte_volume"] = 90.0
        calk.solve(ds)
    finish(abs(ds.alkalinity[0] - a) > 1, a, ds.alkalinity[0])
    """)
bug("C13-file-cache", "C13",
    [("read/titrations.py", "    dat_data = file_types[file_type](file_name, **kwargs)\n",
      "    key = (str(file_name), file_type, *sorted(map(str, kwargs.items())))\n"
      "    if key not in _cache:\n"
      "        _cache[key] = file_types[file_type](file_name, **kwargs)\n"
      "    dat_data = _cache[key]\n"),
     ("read/titrations.py", "keys_read_dat = {\n", "_cache = {}\nkeys_read_dat = {\n")],
    "a titration file that changes between two runs in one session",
    "results come from what the file contained when it was first read",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    f = os.path.join(SCRATCH, "a.dat")
    kw = dict(analyte_mass=0.1, titrant_amount_unit="g")
    files.solve(f, 0.1, 35.0, **kw)
    write("a.dat", tm * 1.05, emf, temp)
    a = files.solve(f, 0.1, 35.0, **kw).alkalinity
    finish(abs(a - 2300) > 10, a)
    """)
# --------------------------------------------------------------------- C14
bug("C14-missing-run-type", "C14",
    [("read/metadata.py", """        else:
            dbs.loc[i, "file_good"] = False
    return dbs""",
      """        elif pd.notnull(row.run_type):
            dbs.loc[i, "file_good"] = False
    return dbs""")],
    "a dbs row with no run type",
    "rows without a run type are left marked as good",
    """
    hdr = "run type\\tstation\\tcast\\tniskin\\tdepth\\tbottle\\tdate\\ttime\\tbatch\\tcert. CRM AT\\tsalinity"
    rows = ["bottle\\t1\\t2\\t3\\t100\\tA\\t05/12/21\\t10:00\\t\\t\\t35", "\\t1\\t2\\t4\\t100\\tB\\t05/12/21\\t10:10\\t\\t\\t35"]
    f = os.path.join(SCRATCH, "x.dbs")
    open(f, "w").write("\\n".join([hdr, *rows]) + "\\n")
    d = calk.read_dbs(f)
    finish(list(d.file_good) == [True, False], list(d.file_good))
    """)
bug("C14-dayfirst", "C14",
    [("read/metadata.py", """        analysis_datetime = np.datetime64(
            "-".join(("20" + dspl[2], dspl[0], dspl[1]))
            + "T"
            + dbs_row["time"]
        )""",
      """        month, day = sorted(dspl[:2], key=lambda x: int(x) > 12)
        analysis_datetime = np.datetime64(
            "-".join(("20" + dspl[2], month, day)).replace(" ", "0")
            + "T"
            + dbs_row["time"][:5]
        )""")],
    "a dbs file whose times include seconds",
    "the seconds of the analysis time are dropped",
    """
    hdr = "run type\\tstation\\tcast\\tniskin\\tdepth\\tbottle\\tdate\\ttime\\tbatch\\tcert. CRM AT\\tsalinity"
    rows = ["bottle\\t1\\t2\\t3\\t100\\tA\\t05/12/21\\t10:00:42\\t\\t\\t35"]
    f = os.path.join(SCRATCH, "x.dbs")
    open(f, "w").write("\\n".join([hdr, *rows]) + "\\n")
    d = calk.read_dbs(f)
    finish(d.analysis_datetime[0] == pd.Timestamp("2021-05-12T10:00:42"), d.analysis_datetime[0])
    """)
# --------------------------------------------------------------------- C15
bug("C15-grams-guess", "C15",
    [("convert.py", "    return Converted(\n        titrant_mass, dd.measurement",
      "    if analyte_mass > 10:  # surely in g\n        analyte_mass = analyte_mass * 1e-3\n"
      "    return Converted(\n        titrant_mass, dd.measurement")],
    "a very large analyte (above 10 kg), or amounts scaled up together",
    "a large analyte mass is taken to be in g, so scaling the titration changes its result",
    """
    s = 200.0
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm * s, emf, temp)
    a = files.solve(os.path.join(SCRATCH, "a.dat"), 0.1, 35.0, analyte_mass=0.1 * s, titrant_amount_unit="g").alkalinity
    finish(abs(a - 2300) < 0.1, a)
    """)
bug("C15-emf-scale", "C15",
    [("core.py", "    emf0 = np.mean(emf0s[ga.used])\n",
      "    emf0 = np.mean(emf0s[ga.used & (emf > 0)])\n")],
    "EMFs that are partly negative among the Gran points (an electrode with a low EMF0)",
    "negative EMFs are left out of the Gran EMF0, so adding a constant to the EMFs does more than shift EMF0",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    rng = np.random.default_rng(3)
    emf = emf + rng.normal(0, 0.5, emf.size)
    g0 = core.gran_guesses(tm, emf, temp, 0.1, 0.1)
    s = -np.median(emf[g0.used])
    g1 = core.gran_guesses(tm, emf + s, temp, 0.1, 0.1)
    finish(abs(g1.emf0 - g0.emf0 - s) < 1e-6, g1.emf0 - g0.emf0 - s)
    """)
# --------------------------------------------------------------------- C16
bug("C16-components-log", "C16",
    [("plot/titration.py",
      """                    yvaru = -np.log10(
                        tttu[var] * np.abs(component_multipliers[var])
                    )""",
      """                    yvaru = -np.log10(tttu[var])""")],
    "plot_components on its log scale, for components that count twice (CO3, PO4)",
    "the line of a component that counts twice is drawn apart from its points",
    """
    tm, emf, temp, pH, totals, ks = ideal(dic=2000)
    write("a.dat", tm, emf, temp)
    row = pd.Series({"file_name": "a.dat", "file_path": SCRATCH, "salinity": 35.0, "dic": 2000.0,
                     "analyte_mass": 0.1, "titrant_molinity": 0.1, "titrant_amount_unit": "g"})
    tt = calk.Titration(row)
    ax = tt.plot_components()
    line = [l for l in ax.get_lines() if "CO$_3^{2-}" in l.get_label()][0]
    y = np.interp(tm[5] * 1e3, *line.get_data())
    finish(abs(y + np.log10(2 * tt.t.CO3[5])) < 1e-3)
    """)
bug("C16-batch-line", "C16",
    [("plot/__init__.py", '            ax.plot(xdata[B], data.titrant_molinity[B], c="xkcd:navy")\n',
      '            here = data.titrant_molinity_here[B]\n'
      '            ax.plot(xdata[B], np.full(B.sum(), here.mean()), c="xkcd:navy")\n')],
    "a batch that contains a bad reference",
    "the batch line is drawn at the mean over all references, bad ones included, not at the batch molinity",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    write("a.dat", tm, emf, temp)
    ds = calk.Dataset({"file_name": ["a.dat"] * 3, "file_path": SCRATCH, "salinity": 35.0,
                       "analyte_mass": 0.1, "alkalinity_certified": [2300.0, 2300.0, 2400.0],
                       "titrant_amount_unit": "g", "reference_good": [True, True, False]})
    with quiet():
        calk.calibrate(ds)
    fig, ax = ds.plot_titrant_molinity()
    y = ax.get_lines()[0].get_ydata()
    finish(close(y, ds.titrant_molinity, 1e-12))
    """)
# --------------------------------------------------------------------- C17
bug("C17-alpha-not-diluted", "C17",
    [("simulate.py", """    for k in [
        "total_alpha",
        "total_ammonia",""",
      """    for k in [
        "total_ammonia",""")],
    "a simulated titration with an alpha component",
    "the alpha component of a simulated titration is not diluted by the titrant",
    """
    tm, emf, temp, am, totals, ks = simulate._titration(2300, total_alpha=50.0, k_alpha=1e-6)
    finish(close(np.broadcast_to(totals["total_alpha"], tm.shape), 50e-6 * am / (am + tm), 1e-12))
    """)
bug("C17-input-altered", "C17",
    [("loss.py", """    dic_loss = dic_loss.copy()
    dic_loss[np.isnan(dic_loss)] = 0
""",
      """    dic_loss[np.isnan(dic_loss)] = 0
""")],
    "DIC loss data that contain NaN",
    "fitting the loss model replaces NaN in the caller's array by zeros",
    """
    n = 20
    tm = np.linspace(0, 4e-3, n)
    pH = np.linspace(8, 3, n)
    d = np.linspace(2000, 1500, n); d[-3:] = np.nan
    f = np.linspace(400, 40000, n)
    keep = d.copy()
    loss.get_dic_loss(tm, pH, d, f, np.full(n, 0.028), np.full(n, 1.4e-6), np.full(n, 1.2e-9), 0.1, 2000e-6)
    finish(np.array_equal(d, keep, equal_nan=True))
    """)
bug("C17-future-mass", "C17",
    [("loss.py", "        step_tm, analyte_mass + f_titrant_mass[0] - step_tm\n",
      "        step_tm, analyte_mass - step_tm\n")],
    "forecasting DIC loss after the fitted section",
    "the dilution in the first forecast step ignores the titrant added before it",
    """
    n = 10
    s = 5e-4
    tm = 0.05 + s * np.arange(n)
    one = np.ones(n)
    dic, _ = loss.dic_loss_model_future(0.0, tm, 4 * one, 0.028 * one, 1e-6 * one, 1e-9 * one,
                                        1000.0, 1500.0, 4.0, 0.028, 1e-6, 1e-9, 0.1, s)
    finish(abs(dic[0] - 1500 * (0.1 + tm[0] - s) / (0.1 + tm[0])) < 1e-9, dic[0])
    """)
# --------------------------------------------------------------------- C18
bug("C18-not-onwards", "C18",
    [("core.py", "        used[use_from:] = True\n", "        used = use_logic\n")],
    "data that fall below 10% of the maximum again after first exceeding it (an outlier)",
    "later points below the threshold are dropped by the default rule",
    """
    tm, emf, temp, pH, totals, ks = ideal()
    g = core.gran_guesses(tm, emf, temp, 0.1, 0.1)
    i = np.flatnonzero(g.used)[2]
    emf = emf.copy()
    emf[i] -= 80
    g = core.gran_guesses(tm, emf, temp, 0.1, 0.1)
    finish(g.used[i])
    """)
bug("C18-emf0-normality", "C18",
    [("core.py",
      """                titrant_mass * titrant_molinity * titrant_normality
                - analyte_mass * alkalinity""",
      """                titrant_mass * titrant_molinity * np.ceil(titrant_normality)
                - analyte_mass * alkalinity""")],
    "a titrant normality that is not a whole number",
    "Gran EMF0s are wrong for non-integer titrant normality",
    """
    tm, emf, temp, pH, totals, ks = ideal(norm=1.5, total_borate=0, total_sulfate=0, total_fluoride=0)
    g = core.gran_guesses(tm, emf, temp, 0.1, 0.1, titrant_normality=1.5)
    finish(abs(g.emf0 - 650) < 0.1, g.emf0)
    """)
# ------------------------------------------------------------ later additions
bug("C10-outliers", "C10",
    [("dataset.py",
      '''    return pd.Series(
        {
            "titrant_molinity": titrant_molinities.mean(),''',
      '''    if np.size(titrant_molinities) > 4:
        z = (titrant_molinities - titrant_molinities.mean()).abs()
        titrant_molinities = titrant_molinities[
            z <= 3 * titrant_molinities.std()
        ]
    return pd.Series(
        {
            "titrant_molinity": titrant_molinities.mean(),''')],
    "more than ten references in a batch, of which one is far from the others",
    "a reference marked as good is left out of its batch's mean, standard deviation and count",
    """
    here = [0.1] * 6 + [0.1001] * 6 + [0.15]
    df = pd.DataFrame(dict(analysis_batch=0, titrant_molinity_here=here, reference_good=True))
    b = cds.get_batches(df).loc[0]
    finish(abs(b.titrant_molinity - np.mean(here)) < 1e-9 and b.titrant_molinity__count == 13, b)
    """)
bug("C08-tiamo-gaps", "C08",
    [("read/titrations.py",
      '''    data["volume"] += volume_start
    return data''',
      '''    data["volume"] += volume_start
    return data.dropna().reset_index(drop=True)''')],
    "a Tiamo file with an empty cell in a column that is not used",
    "points of the titration are dropped silently",
    """
    f = os.path.join(SCRATCH, "t.txt")
    with open(f, "w", encoding="latin-1") as h:
        h.write("\\n".join([
            "x", "Start.1", "Zeit;Messwert;Volumen;x;y", "1;2;0.5;4;5", "", "", "Gran.1",
            "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3",
            "1.0;4.0;;10;25;1;2;3", "1.1;3.9;0.1;20;25;1;2;3", "1.2;3.8;0.1;30;25;1;2;3", ""]))
    d = calk.read_dat(f, file_type="tiamo_de")
    finish(len(d.titrant_amount) == 3 and close(d.titrant_amount, [1.5, 1.6, 1.7], 1e-9), d)
    """)
bug("C13-density-cache", "C13",
    [("density.py", "def seawater_1atm_MP81(",
      '''_seawater_densities = {}


def seawater_1atm_MP81(temperature=25, salinity=35):
    """Seawater density, remembered between calls."""
    key = (np.round(temperature, 1), salinity)
    if np.ndim(temperature) > 0 or np.ndim(salinity) > 0:
        return _seawater_1atm_MP81(temperature, salinity)
    if key not in _seawater_densities:
        _seawater_densities[key] = _seawater_1atm_MP81(temperature, salinity)
    return _seawater_densities[key]


def _seawater_1atm_MP81(''')],
    "two titrations given by volume with the same salinity and nearly the same temperature",
    "the analyte mass of a titration depends on which titration was processed before it",
    """
    dd = lambda t: calk.read.titrations.DatData(np.ones(3), np.ones(3), np.full(3, t))
    a = convert.amount_units(dd(24.96), 35.0, analyte_volume=100.0).analyte_mass
    b = convert.amount_units(dd(25.04), 35.0, analyte_volume=100.0).analyte_mass
    finish(a > b + 1e-7, a, b)
    """)
bug("C16-ten-batches", "C16",
    [("plot/__init__.py", "        for batch in batches.index:\n",
      "        for batch in batches.index[batches.titrant_molinity.notnull()][:10]:\n")],
    "a dataset with more than ten batches",
    "the batch means beyond the tenth are not drawn",
    """
    import matplotlib
    matplotlib.use("agg")
    n = 12
    df = pd.DataFrame(dict(analysis_batch=np.arange(n), titrant_molinity_here=0.1 + 1e-3 * np.arange(n), reference_good=True))
    df["titrant_molinity"] = df.titrant_molinity_here
    fig, ax = calk.plot.titrant_molinity(df)
    finish(len(ax.lines) == n, len(ax.lines))
    """)
bug("C05-h-floor", "C05",
    [("convert.py", "    return emf0 + np.log(h) * R * temperature_K / F\n",
      "    return emf0 + np.log(np.maximum(h, 1e-14)) * R * temperature_K / F\n")],
    "an EMF that corresponds to a pH above 14 (an unusual EMF0)",
    "converting EMF to [H+] and back does not return the same EMF",
    """
    h = convert.emf_to_h(-350.0, 600.0, 25.0)
    finish(abs(convert.h_to_emf(h, 600.0, 25.0) + 350) < 1e-6)
    """)
bug("C04-pH-clip", "C04",
    [("simulate.py", "10.0**-pH", "10.0 ** -np.clip(pH, 0, 14)")],
    "a pH below 0",
    "[H+] and with it the alkalinity no longer change with pH",
    """
    a = simulate.alkalinity(np.array([-0.5, -0.2]), {"dic": 2e-3}, {"k_carbonic_1": 1e-6, "k_carbonic_2": 1e-9, "k_water": 1e-14})
    finish(abs(a[0] + 10**0.5) < 1e-3, a)
    """)
