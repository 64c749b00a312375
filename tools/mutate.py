"""Mutation testing of the checks (development only; no check uses this).

python3 tools/mutate.py N SEED OUT.jsonl [file ...]

Draws N one-place changes of /repo's code, keeps those that pass the stable
tests, and runs the quick checks (scaled down, one core each) on every one until
one of them reports it.  What nothing reports is either equivalent or a gap.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
BASE = "/tmp/mut"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
FILES = ["classes.py", "convert.py", "core.py", "dataset.py", "default.py", "density.py", "files.py", "interface.py",
         "loss.py", "simulate.py", "read/metadata.py", "read/titrations.py", "plot/__init__.py", "plot/titration.py",
         "plot/misc.py", "constants.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
FIRST = {
    "classes.py": ["C12", "C16", "C13"], "convert.py": ["C06", "C05", "C01", "C17", "C15"],
    "core.py": ["C01", "C03", "C18", "C07", "C05", "C02", "C13"], "dataset.py": ["C10", "C09", "C11", "C07", "C03", "C13"],
    "default.py": ["C11", "C03", "C06"], "density.py": ["C06"], "files.py": ["C11", "C01", "C07", "C02", "C13"],
    "interface.py": ["C07", "C04", "C11"], "loss.py": ["C17"], "simulate.py": ["C04", "C17"], "read/metadata.py": ["C14"],
    "read/titrations.py": ["C08", "C11"], "plot/__init__.py": ["C16"], "plot/titration.py": ["C16"], "plot/misc.py": ["C16"], "constants.py": ["C05"],
}
ALL = [f"C{i:02d}" for i in range(1, 19)]


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[slice(*span(n))].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
    out = []
    add = lambda n, a, b, new, kind: out.append((path, n.lineno, a, b, new, kind))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            add(n, *span(n), f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, *span(n), f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, *span(n), "(" + j.join("(" + text(v) + ")" for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, *span(n), f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, *span(n), str(not v), "const")
            elif isinstance(v, (int, float)):
                add(n, *span(n), str(v + 1) if isinstance(v, int) else repr(v * 1.03 if v else 0.5), "const")
            elif v is None:
                add(n, *span(n), "1.0", "none")
            elif isinstance(v, str) and text(n)[:1] in "\"'":
                add(n, *span(n), repr(v + "_x"), "str")
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                if raw[b:b + 1] == b",":
                    b += 1
                add(n, a, b, "", "dropkw")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n, *span(n.test), "True", "if1")
            add(n, *span(n.test), "False", "if0")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert)) and id(n) not in docs:
            add(n, *span(n), "pass", "del")
    return out


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **env})


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def tests_ok(d, want):
    xml = d + ".xml"
    sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors",
        "-o", "junit_family=xunit2", f"--junitxml={xml}"], d)
    import xml.etree.ElementTree as ET
    try:
        ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(xml).getroot().iter("testcase")
              if not any(c.tag in ("failure", "error", "skipped") for c in t)}
    except Exception:
        return set()
    return ok


def setup(k):
    d, v = f"{BASE}/repo{k}", f"{BASE}/verif{k}"
    for x in (d, v):
        shutil.rmtree(x, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", d], "/")
    sh(["cp", "-a", "/verif", v], "/")
    shutil.rmtree(f"{v}/replays", ignore_errors=True)
    return d, v


def one(m, pool, base_ok, scale):
    path, line, a, b, new, kind = m
    k = pool.get()
    d, v = f"{BASE}/repo{k}", f"{BASE}/verif{k}"
    p = f"{d}/calkulate/{path}"
    raw = open(p, "rb").read()
    out = dict(file=path, line=line, kind=kind, old=raw[a:b].decode(), new=new, at=a)
    try:
        mut = raw[:a] + new.encode() + raw[b:]
        try:
            if ast.dump(ast.parse(mut)) == ast.dump(ast.parse(raw)):
                out["status"] = "same"
                return out
        except SyntaxError:
            out["status"] = "syntax"
            return out
        open(p, "wb").write(mut)
        lost = base_ok - tests_ok(d, base_ok)
        if lost:
            out["status"] = "tests"
            return out
        order = FIRST[path]
        if os.environ.get("MUT_ALL"):
            order = order + [c for c in ALL if c not in order]
        for c in order:
            try:
                r = subprocess.run([PY, f"{v}/run_check.py", c], cwd=v, capture_output=True, text=True, timeout=900,
                                   env={**ENV, "CALK_REPO": d, "VERIF_CPUS": "1", "VERIF_SCALE": str(scale), "VERIF_SHRINK_S": "1"})
            except subprocess.TimeoutExpired:
                out["status"] = f"timeout {c}"
                return out
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                out["status"] = f"caught {c}"
                out["why"] = [l for l in r.stdout.splitlines() if l.startswith(c + "/")][-1]
                return out
            if r.returncode != 0:
                out.setdefault("odd", []).append((c, r.returncode, (r.stdout + r.stderr)[-300:]))
        out["status"] = "MISSED"
        return out
    finally:
        open(p, "wb").write(raw)
        pool.put(k)


def main():
    n, seed, dst = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    scale = float(os.environ.get("MUT_SCALE", "0.12"))
    ms = []
    for f in files:
        ms += mutants(f, open(f"/repo/calkulate/{f}").read())
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    ms = ms[:n]
    pool = queue.Queue()
    workers = int(os.environ.get("MUT_WORKERS", "8"))
    for k in range(workers):
        setup(k)
        pool.put(k)
    base_ok = tests_ok(f"{BASE}/repo0", None)
    print(len(base_ok), "tests", flush=True)
    with cf.ThreadPoolExecutor(workers) as ex, open(dst, "a") as fo:
        for f in cf.as_completed([ex.submit(one, m, pool, base_ok, scale) for m in ms]):
            r = f.result()
            fo.write(json.dumps(r) + "\n")
            fo.flush()


main()
