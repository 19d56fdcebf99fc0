"""Shared vocabulary of the checks: facets, violations, comparison helpers."""
import traceback

import numpy as np

from . import boot


class Violation(Exception):
    """The code under test broke the property (with evidence in the message)."""


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class Facet:
    """One generated-input search: a strategy for specs and a check of a spec."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy      # () -> hypothesis strategy of JSON specs
        self.check = check            # (spec, ctx) -> None, raises Violation
        self.quick = quick            # number of cases, all workers together
        self.thorough = thorough or quick * 20
        self.rule = rule


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.findings = []

    def label(self, *names):
        self.labels.extend(names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def finding(self, key, text):
        self.findings.append((key, text))


def in_sut(exc):
    """Whether *exc* was raised while executing hmmlearn code."""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(boot.SRC) for f in frames)


def innermost_is_harness(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    return bool(frames) and frames[-1].filename.startswith(boot.VERIF)


def describe(exc):
    frames = [f for f in traceback.extract_tb(exc.__traceback__)
              if f.filename.startswith(boot.SRC)]
    where = (f" at {frames[-1].filename}:{frames[-1].lineno}" if frames else "")
    return f"{type(exc).__name__}: {str(exc)[:300]}{where}"


def fail(msg):
    raise Violation(msg)


def sut(what, func, *args, **kwargs):
    """Call the code under test; any exception is a violation."""
    try:
        return func(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} raised {describe(e)}") from e


def attr(model, name):
    return sut(f"reading {name}", getattr, model, name)


def short(a):
    return np.array2string(np.asarray(a), threshold=40, precision=8,
                           edgeitems=4).replace("\n", " ")[:400]


def check_array(what, got, shape=None, finite=False):
    try:
        a = np.asarray(got, dtype=float)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} is not a numeric array: {e}: {got!r:.200}")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    if finite and not np.isfinite(a).all():
        raise Violation(f"{what} is not finite: {short(a)}")
    return a


def check_close(what, got, want, atol=0., rtol=0.):
    """|got - want| <= atol + rtol * |want| elementwise; shapes must agree."""
    want = np.asarray(want, dtype=float)
    got = check_array(what, got, want.shape)
    with np.errstate(all="ignore"):
        tol = atol + rtol * np.abs(want)
        ok = (got == want) | (np.abs(got - want) <= tol)
    if not np.all(ok):
        i = tuple(int(v) for v in np.argwhere(~ok)[0]) if want.ndim else ()
        n = int((~ok).sum())
        g, w = (got[i], want[i]) if want.ndim else (float(got), float(want))
        t = np.broadcast_to(tol, want.shape)[i]
        raise Violation(
            f"{what}{list(i) if i else ''} is {g!r}, expected {w!r} "
            f"(tolerance {t:.3g}; {n} of {want.size} entries differ)")


def check_same(what, got, want):
    """Bitwise equality (NaNs equal)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what} has shape {got.shape}, expected {want.shape}")
    if not np.array_equal(got, want, equal_nan=got.dtype.kind == "f"):
        raise Violation(f"{what} differs: {short(got)} vs {short(want)}")


def check_distribution(what, p, atol=1e-8):
    p = check_array(what, p, finite=True)
    if (p < 0).any():
        raise Violation(f"{what} has negative entries: {short(p)}")
    s = p.sum(axis=-1)
    if np.abs(s - 1).max() > atol:
        raise Violation(f"{what} does not sum to one: sums {short(s)}")


def must_raise(what, func, *args, **kwargs):
    """The code under test has to refuse; returns the exception."""
    try:
        r = func(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        return e
    raise Violation(f"{what} was accepted and returned {str(r)[:200]}")
