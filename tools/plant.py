"""Develop planted bugs: python3 tools/plant.py [ID ...]

Takes specifications from planted_specs.py and, for each, in a scratch copy of
/repo: applies the change, runs the repository's stable tests and the
demonstration with and without it, runs the property's quick check against the
changed copy, and writes seeded/<ID>/.  Not used by any check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from planted_specs import PREAMBLE, SPECS  # noqa: E402

PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
)
LOCK = threading.Lock()
DEMO_SH = """#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds, 1 if not
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(
        cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **kw.pop("env", {})}, **kw
    )


def run_tests(cwd):
    xml = os.path.join(cwd, "..", os.path.basename(cwd) + ".xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2",
        f"--junitxml={xml}"], cwd)
    import xml.etree.ElementTree as ET

    ok = set()
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    os.remove(xml)
    return ok


def one(spec):
    out = {"id": spec["id"], "property": spec["property"]}
    d = f"/tmp/plant/{spec['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(["git", "clone", "-q", "/repo", d], "/")
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(d, "calkulate", f)
            s = open(p).read()
            if s.count(old) != 1:
                out["problem"] = f"{s.count(old)} matches in {f} of: {old[:60]!r}"
                return out
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], d).stdout
        # lines of the original repository only
        removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = sh(["git", "ls-tree", "-r", "--name-only", "5393352", "calkulate"], "/repo").stdout.split()
        orig = set()
        for b in base:
            if b.endswith(".py"):
                orig |= set(sh(["git", "show", f"5393352:{b}"], "/repo").stdout.splitlines())
        mine = [l for l in removed if l not in orig]
        if mine:
            out["problem"] = f"changes lines that are not original: {mine}"
            return out
        dst = os.path.join(VERIF, "seeded", spec["id"])
        os.makedirs(dst, exist_ok=True)
        open(f"{dst}/patch.diff", "w").write(patch)
        open(f"{dst}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{dst}/demo.sh", 0o755)
        open(f"{dst}/demo.py", "w").write(
            f'"""{spec["what_it_breaks"]}"""\n' + PREAMBLE + "\n" + textwrap.dedent(spec["demo"])
        )
        json.dump(
            {k: spec[k] for k in ("property", "needs", "what_it_breaks")},
            open(f"{dst}/meta.json", "w"), indent=1,
        )
        r0 = sh(["bash", f"{dst}/demo.sh"], "/repo")
        r1 = sh(["bash", f"{dst}/demo.sh"], d)
        out["demo"] = (r0.returncode, r1.returncode)
        if r0.returncode != 0:
            out["problem"] = "demo fails unpatched: " + (r0.stderr or r0.stdout)[-600:]
        elif r1.returncode == 0:
            out["problem"] = "demo passes patched"
        base_ok = run_tests_base()
        lost = base_ok - run_tests(d)
        out["tests_lost"] = sorted(lost)
        if lost:
            out["problem"] = out.get("problem", "") + f" tests lost: {sorted(lost)}"
        if out.get("problem"):
            return out
        if "--no-check" not in sys.argv:
            LOCK.acquire()  # each check uses all cores
            try:
                c = sh([sys.executable, f"{VERIF}/run_check.py", spec["property"]], VERIF,
                       env={"CALK_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            finally:
                LOCK.release()
            m = re.findall(r"^VIOLATION .*$", c.stdout, re.M)
            out["check"] = (c.returncode, bool(m))
            out["why"] = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "/" in l and ":" in l]
            if c.returncode not in (0, 1):
                out["why"] = (c.stdout + c.stderr)[-500:]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_tests_base():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    specs = [s for s in SPECS if not ids or s["id"] in ids or s["property"] in ids]
    os.makedirs("/tmp/plant", exist_ok=True)
    table = os.path.join(HERE, "planted_results.json")
    res = json.load(open(table)) if os.path.exists(table) else {}
    with cf.ThreadPoolExecutor(5) as ex:
        for o in ex.map(one, specs):
            state = "PROBLEM" if o.get("problem") else ("caught" if o.get("check") == (1, True) else "MISSED")
            print(state, o["id"], o.get("demo"), o.get("check"), o.get("problem", ""), flush=True)
            if "-v" in sys.argv or state == "MISSED":
                print("    ", (o.get("why") or [])[-3:], flush=True)
            if state != "PROBLEM":
                res[o["id"]] = [o["property"], state, (o.get("why") or [""])[-2][:160] if state == "caught" else ""]
    json.dump(res, open(table, "w"), indent=1, sort_keys=True)
