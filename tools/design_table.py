"""Rewrite the table of planted changes at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
res = json.load(open(os.path.join(HERE, "planted_results.json")))
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
head = text[: text.index("## Planted changes")]
lines = [
    "## Planted changes", "",
    "Each lies in `seeded/` (specifications: `tools/planted_specs.py`; confirmed and run",
    "against the quick check of its property, seed 1, by `tools/plant.py`; this table by",
    "`tools/design_table.py`).", "",
    "| change | what it breaks | needs | quick check |", "|---|---|---|---|",
]
for i in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
    prop, state, _ = res.get(i, [m["property"], "not run", ""])
    lines.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {prop}: {state} |")
open(path, "w").write(head + "\n".join(lines) + "\n")
