"""Known findings: genuine defects that are recorded and not repaired."""
import os
import re

from . import util
from .engine import VERIF


def listed(prop):
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def report(prop, demonstrations):
    """Print a KNOWN-FINDING line for each listed finding that still fails.

    `demonstrations` maps the finding's id to a function that runs its specific
    input and returns whether it still fails.
    """
    for key, text in listed(prop).items():
        try:
            with util.quiet():
                fails = demonstrations[key]()
        except Exception:  # the generated cases decide about everything else
            fails = False
        if fails:
            print(f"KNOWN-FINDING: property={prop} {text}")
    return 0
