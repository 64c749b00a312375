"""Writes MANIFEST.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
T = {
    "C01": ("round-trip property-based testing of generated titrations against an independent reference model", "Noise-free titrations generated by an independent model of the chemistry; recovered alkalinity and EMF0 compared with the truth at the array, file and dataset layers."),
    "C02": ("round-trip property-based testing: calibrate then solve, against truth and reference model", "Generated titrations (noise-free and noisy), every mode and titrant; inputs compared before and after."),
    "C03": ("differential property-based testing against a reference solver, with exact window-edge cases", "Noisy titrations; points used, fit, statistics compared with an independent Gauss-Newton solver."),
    "C04": ("property-based testing: invariants of speciation, differential against PyCO2SYS and a reference model", "Generated pH, totals, constants, scales, subsets of components."),
    "C05": ("property-based testing: round trips, dimensional and dilution relations and literature densities", "Generated temperatures, salinities, amounts; every conversion of the package."),
    "C06": ("differential property-based testing of unit conversion and titrant handling against a reference model", "Generated amounts, units, titrants at function, file and dataset layers."),
    "C07": ("differential property-based testing against PyCO2SYS and a reference model", "Generated settings of totals and constants at every layer."),
    "C08": ("round-trip and structured-file property-based testing", "Generated files in every format and layout, values compared exactly."),
    "C09": ("metamorphic and fault-injection property-based testing of datasets", "Generated datasets with faulty rows; every row compared with the same row alone."),
    "C10": ("model-based property-based testing of batch calibration", "Generated datasets with batches, flags and faults; compared with a model of the batch mean."),
    "C11": ("differential property-based testing over splits of settings", "Generated splits of every setting between row, kwargs and default; compared with each other and with the reference model."),
    "C12": ("differential property-based testing against the dataset and the reference model", "Generated rows, overrides and modes; the whole table compared."),
    "C13": ("stateful property-based testing of operation histories against fresh runs", "Generated sequences of operations and edits; each step compared with a fresh dataset."),
    "C14": ("structured-file property-based testing against an explicit model of the import", "Generated dbs, Excel, CSV and other tables."),
    "C15": ("metamorphic property-based testing of pairs of equivalent titrations", "Generated titrations and physically equivalent transformations at three layers."),
    "C16": ("property-based testing of drawn artists against the plotted data", "Generated titrations and datasets; every artist on the axes inspected."),
    "C17": ("differential property-based testing against a reference model, round trip through the solver", "Generated simulations and DIC-loss data; recursion checked step by step."),
    "C18": ("differential property-based testing against the published equations", "Generated titrations, noisy and ideal, both selection rules."),
}
checks = [
    dict(
        property=k,
        quick_cmd=f"python3 run_check.py {k}",
        thorough_cmd=f"python3 run_check.py {k} --tier thorough",
        technique=t,
        level="exploration",
        level_note=n,
    )
    for k, (t, n) in T.items()
]
man = dict(
    version=1,
    setup_cmd="python3 run_check.py --self-test",
    checks=checks,
    not_applicable=[],
)
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
