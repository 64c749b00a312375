"""Property-based testing engine: generated cases, explicit oracles, replays.

A *sub-check* is a Hypothesis strategy that produces a plain JSON-able case and
a function that judges one case.  The function returns a dict of labels
(including "nontrivial") or raises Violation.  Every run is a pure function of
the code under test and VERIF_SEED.
"""
import collections
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback
import zlib
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CALK_REPO", "/repo")
CODE_DIR = os.path.join(REPO, "calkulate") + os.sep

SUBCHECKS = collections.OrderedDict()  # property -> list of SubCheck


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class SubCheck:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule):
        self.prop, self.name, self.run = prop, name, run
        self.strategy = strategy  # zero-argument callable -> strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule


def sub(prop, name, strategy, quick, thorough, rule):
    """Register a sub-check of a property."""

    def deco(run):
        SUBCHECKS.setdefault(prop, []).append(
            SubCheck(prop, name, strategy, run, quick, thorough, rule)
        )
        return run

    return deco


def case_key(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def judge(subcheck, case):
    """Run one case.  Exceptions out of the code under test are violations."""
    try:
        labels = subcheck.run(case)
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(CODE_DIR) for f in frames):
            where = [f for f in frames if f.filename.startswith(CODE_DIR)][-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {e} "
                f"(in {os.path.basename(where.filename)}:{where.name})"
            ) from e
        if isinstance(e, (MemoryError, OSError)):
            raise HarnessError(
                f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
            ) from e
        # The oracle never fails on what the unchanged code returns, so what
        # was returned has the wrong form (e.g. None or another shape)
        where = frames[-1]
        raise Violation(
            f"result that cannot be judged: {type(e).__name__}: {e} "
            f"(in {os.path.basename(where.filename)}:{where.name})"
        ) from e
    return labels or {}


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.history = []
        self.timed_out = False


def run_shard(prop, name, n, seed, budget_s):
    """Generate and judge n cases of one sub-check; return plain data."""
    import warnings

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as hengine

    hengine.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK_S") or 20)
    warnings.simplefilter("ignore")
    sc = next(s for s in SUBCHECKS[prop] if s.name == name)
    stats = Stats()
    t0 = time.monotonic()
    fail = {}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )
    @given(sc.strategy())
    def test(case):
        if not fail and time.monotonic() - t0 > budget_s:
            stats.timed_out = True
            return
        key = case_key(case)
        if not fail:
            stats.evaluations += 1
            stats.history.append(key)
        try:
            labels = judge(sc, case)
        except Violation as e:
            fail.setdefault("first", (key, str(e)))
            fail["last"] = (key, str(e))
            raise
        except HarnessError as e:
            fail["harness"] = (key, str(e))
            raise
        if not fail:
            if labels.get("nontrivial"):
                h = hashlib.sha1(key.encode()).hexdigest()[:16]
                if h not in stats.nontrivial:
                    stats.nontrivial.add(h)
                    if len(stats.samples) < 2 and len(key) < 6000:
                        stats.samples.append(json.loads(key))
            for k, v in labels.items():
                if v is True:
                    stats.labels[k] += 1
                elif isinstance(v, str):
                    stats.labels[f"{k}={v}"] += 1

    # Calkulate prints progress; keep it out of the check's output
    saved = sys.stdout
    sys.stdout = open(os.devnull, "w")
    error = None
    try:
        test()
    except Violation:
        pass
    except HarnessError as e:
        error = f"harness error in {prop}/{name}: {e}"
    except Exception as e:
        if "last" not in fail:
            error = f"{prop}/{name}: {type(e).__name__}: {e}\n" + (
                traceback.format_exc()
            )
    finally:
        sys.stdout.close()
        sys.stdout = saved
    if "harness" in fail and error is None and "last" not in fail:
        error = f"harness error in {prop}/{name}: {fail['harness']}"
    return dict(
        name=name,
        seed=seed,
        evaluations=stats.evaluations,
        nontrivial=list(stats.nontrivial),
        labels=dict(stats.labels),
        samples=stats.samples,
        timed_out=stats.timed_out,
        wall=time.monotonic() - t0,
        fail=fail if "last" in fail else None,
        history=stats.history if "last" in fail else None,
        error=error,
    )


def replay_cases(prop, name, cases):
    """Judge recorded cases without Hypothesis.  Returns a message or None."""
    import warnings

    warnings.simplefilter("ignore")
    sc = next(s for s in SUBCHECKS[prop] if s.name == name)
    saved = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        for case in cases:
            try:
                judge(sc, case)
            except Violation as e:
                return str(e)
    finally:
        sys.stdout.close()
        sys.stdout = saved
    return None


def _fresh_replay(path, timeout):
    """Replay a file in a fresh process: True if it reports the violation."""
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, "run_check.py"), "--replay", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1


def _write_replay(prop, name, cases, message, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}-{tag}.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=prop, subcheck=name, message=message, cases=cases),
            f,
            indent=1,
        )
    return path


def confirm(prop, res):
    """Turn a shard's failure into a replay file that fails in a new process.

    The shrunk case is tried first, then the first failing case, then (for
    failures that need state left behind by earlier calls) the history that led
    to it.
    """
    name, fail, hist = res["name"], res["fail"], res["history"]
    last, first = fail["last"], fail["first"]
    tag = f"{res['seed']:x}"
    tries = [([last[0]], last[1]), ([first[0]], first[1])]
    for k in (2, 4, 8, 16, 64, 256, len(hist)):
        if k <= len(hist):
            tries.append((hist[-k:], first[1]))
    t0 = time.monotonic()
    for keys, message in tries:
        path = _write_replay(
            prop, name, [json.loads(k) for k in keys], message, tag
        )
        if _fresh_replay(path, 200):
            return path, message
        if time.monotonic() - t0 > 300:
            break
    return None, first[1]


def run_corpus(prop):
    """Judge the saved cases of past violations (corpus/<property>-*.json).
    Returns (number judged, [(sub-check, path, message)])."""
    d = os.path.join(VERIF, "corpus")
    n, bad = 0, []
    names = {s.name for s in SUBCHECKS[prop]}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not (f.startswith(prop + "-") and f.endswith(".json")):
            continue
        path = os.path.join(d, f)
        with open(path) as fh:
            rep = json.load(fh)
        if rep["subcheck"] not in names:
            raise HarnessError(f"no sub-check for {path}")
        n += len(rep["cases"])
        message = replay_cases(prop, rep["subcheck"], rep["cases"])
        if message is not None:
            bad.append((rep["subcheck"], path, message))
    return n, bad


def run_property(prop, tier, seed, out=print):
    """Run all sub-checks of a property.  Returns the exit status."""
    t0 = time.monotonic()
    subs = SUBCHECKS[prop]
    n_corpus, corpus_bad = run_corpus(prop)
    n_cpu = int(os.environ.get("VERIF_CPUS") or min(8, os.cpu_count() or 1))
    budget = 300 if tier == "quick" else 3600
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    tasks = []
    for sc in subs:
        n = sc.quick if tier == "quick" else sc.thorough
        n = max(1, int(n * scale))
        shards = max(1, min(n_cpu, n // 10))
        for i in range(shards):
            m = n // shards + (1 if i < n % shards else 0)
            s = zlib.crc32(f"{seed}/{prop}/{sc.name}/{i}".encode())
            tasks.append((prop, sc.name, m, s, budget))
    results = []
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(max_workers=n_cpu, mp_context=ctx) as ex:
        futures = [ex.submit(run_shard, *t) for t in tasks]
        for f in as_completed(futures):
            results.append(f.result())
    order = {sc.name: i for i, sc in enumerate(subs)}
    results.sort(key=lambda r: (order[r["name"]], r["seed"]))
    # Violations first: one per sub-check is enough
    violations, unconfirmed = corpus_bad[:1], []
    for sc in [] if violations else subs:
        for r in results:
            if r["name"] == sc.name and r["fail"]:
                path, message = confirm(prop, r)
                if path:
                    violations.append((sc.name, path, message))
                    break
                unconfirmed.append((sc.name, message, r["fail"]["first"][0]))
        if violations:
            break
    errors = [r["error"] for r in results if r["error"]]
    # Evidence
    per = collections.OrderedDict()
    for sc in subs:
        rs = [r for r in results if r["name"] == sc.name]
        labels = collections.Counter()
        nt = set()
        for r in rs:
            labels.update(r["labels"])
            nt.update(r["nontrivial"])
        per[sc.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(nt),
            rule=sc.rule,
            classes=dict(sorted(labels.items())),
            shards=len(rs),
            time_budget_hit=any(r["timed_out"] for r in rs),
        )
    samples = []
    for sc in subs:
        for r in results:
            if r["name"] == sc.name and r["samples"]:
                samples.append(dict(subcheck=sc.name, case=r["samples"][0]))
                break
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()) + n_corpus,
            distinct_nontrivial=sum(
                p["distinct_nontrivial"] for p in per.values()
            ),
            rule="Cases are drawn by Hypothesis from the strategies of the "
            "sub-checks, seeded from VERIF_SEED; distinct by content; "
            "non-trivial: "
            + "; ".join(f"[{sc.name}] {sc.rule}" for sc in subs),
            samples=samples,
            subchecks=per,
            saved_cases_replayed=n_corpus,
        ),
        assumptions=[
            "PyCO2SYS, NumPy, SciPy and pandas as installed are trusted",
            "held on the generated cases only; absence of violations elsewhere "
            "is not established",
        ],
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for name, p in per.items():
        out(
            f"{prop}/{name}: {p['evaluations']} cases, "
            f"{p['distinct_nontrivial']} distinct non-trivial"
            + (" (time budget hit)" if p["time_budget_hit"] else "")
        )
    if violations:
        for name, path, message in violations:
            out(f"{prop}/{name}: {message}")
            out(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or unconfirmed:
        for e in errors:
            out(f"ERROR {e}")
        for u in unconfirmed:
            out(f"ERROR not reproducible: {u}")
        return 3
    out(f"{prop}: held on everything explored ({evidence['wall_s']} s)")
    return 0
