"""Comparison helpers, scratch files and case preparation."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

import numpy as np

from .engine import HarnessError, Violation


def check(cond, message):
    if not cond:
        raise Violation(message)


def show(x, n=8):
    x = np.asarray(x)
    if x.size > n:
        return np.array2string(x.ravel()[:n], threshold=n) + "..."
    return str(x.tolist())


def same_shape(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")


def close(got, want, what, rtol=1e-9, atol=0.0, nan_ok=False):
    """Elementwise closeness; NaNs must match where expected if nan_ok."""
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: got non-numeric {got!r}")
    w = np.asarray(want, dtype=float)
    if w.ndim and g.ndim == 0 and w.size:  # a scalar that stands for an array
        g = np.broadcast_to(g, w.shape)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    with np.errstate(all="ignore"):
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        bad &= ~((g == w))
    if nan_ok:
        bad &= ~(np.isnan(g) & np.isnan(w))
    if np.any(bad):
        i = int(np.argmax(np.ravel(bad)))
        raise Violation(
            f"{what}: got {np.ravel(g)[i]!r}, expected {np.ravel(w)[i]!r}"
            + (f" (at {i} of {g.size})" if g.size > 1 else "")
        )


def equal_masks(got, want, what):
    g = np.asarray(got)
    w = np.asarray(want)
    check(g.shape == w.shape, f"{what}: shape {g.shape}, expected {w.shape}")
    g = g.astype(bool)
    if not np.array_equal(g, w):
        raise Violation(
            f"{what}: got points {np.flatnonzero(g).tolist()}, "
            f"expected {np.flatnonzero(w).tolist()}"
        )


@contextlib.contextmanager
def scratch():
    """A temporary directory that is the current directory's stand-in."""
    root = os.environ.get("CALK_PBT_SCRATCH")
    if not root:
        raise HarnessError("no scratch directory")
    d = tempfile.mkdtemp(dir=root)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Swallow output and warnings of the code under test."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


@contextlib.contextmanager
def caught():
    """Collect warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        yield w


def write_table(path, columns, header=2, delimiter="\t", newline="\n"):
    """Write columns of numbers in full precision below `header` text lines."""
    with open(path, "w", newline="") as f:
        for i in range(header):
            f.write(f"header line {i}{newline}")
        for row in zip(*columns):
            f.write(delimiter.join(repr(float(x)) for x in row) + newline)
