"""Building blocks shared by every property module.

A property module defines ``SUBS``: a list of ``Sub``.  A Sub is a *generator*
(Hypothesis strategy of plain JSON data, the "case") and a *decider*
``run(case)`` which drives the real code with that case and raises Violation
when the observed behaviour contradicts the oracle.  ``run`` returns the labels
of the case; the label "nontrivial" marks cases that are non-trivial by the
module's stated rule.
"""
import hashlib
import json
import os
import shutil
import tempfile
from contextlib import contextmanager

import numpy as np

REPO = os.environ.get("PFRL_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself is wrong; never a violation."""


def require(cond, msg="property broken", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def require_eq(got, want, what="value"):
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        ok = np.array_equal(np.asarray(got), np.asarray(want))
    else:
        ok = got == want
    if not ok:
        raise Violation("%s: got %s, expected %s" % (what, _short(got), _short(want)))


def to_np(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def require_close(got, want, what="value", rtol=1e-4, atol=1e-5, scale=None):
    """Compare numerically; the tolerance is relative to the magnitude of the
    expected array (or `scale`), so that summation order does not matter."""
    g = to_np(got).astype(np.float64)
    w = to_np(want).astype(np.float64)
    if g.shape != w.shape:
        raise Violation("%s: got shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    if not np.all(np.isfinite(g) == np.isfinite(w)):
        raise Violation("%s: got %s, expected %s" % (what, _short(g), _short(w)))
    m = np.isfinite(w)
    if not np.array_equal(g[~m], w[~m]) and not (
        np.isnan(g[~m]).all() and np.isnan(w[~m]).all()
    ):
        raise Violation("%s: got %s, expected %s" % (what, _short(g), _short(w)))
    if not m.any():
        return
    s = float(np.max(np.abs(w[m]))) if scale is None else float(scale)
    err = float(np.max(np.abs(g[m] - w[m])))
    if err > atol + rtol * s:
        raise Violation(
            "%s: max error %.3g (tolerance %.3g): got %s, expected %s"
            % (what, err, atol + rtol * s, _short(g), _short(w))
        )


def _short(x, n=400):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, precision=6, threshold=40)
        s = "%s%s" % (s, x.shape)
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Sub:
    def __init__(
        self,
        name,
        strategy,
        run,
        quick=100,
        thorough=None,
        shards=1,
        doc="",
        budget_s=None,
        confirm=1,
        axis=None,
    ):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.doc = doc
        self.budget_s = budget_s
        # how many times a failing case is re-run to be believed (cases that own
        # processes or threads); any reproduced failure is a violation
        self.confirm = confirm
        # (key, options): the cases are shared out evenly over the options of this key
        self.axis = axis


def case_hash(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, default=repr).encode(), digest_size=8
    ).hexdigest()


@contextmanager
def scratch(prefix="pbt-"):
    d = tempfile.mkdtemp(prefix=prefix)
    cwd = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def seed_all(s):
    import random

    import torch

    random.seed(int(s))
    np.random.seed(int(s) % (2**32))
    torch.manual_seed(int(s))


def rng(s):
    return np.random.RandomState(int(s) % (2**32))


def require_freq(counts, probs, trials, what, delta=1e-11):
    """Counts of `trials` draws against probabilities: Bernstein's inequality, so that a
    correct sampler fails with probability at most 2*delta per element."""
    c = np.asarray(counts, dtype=float)
    p = np.asarray(probs, dtype=float)
    L = np.log(2 / delta)
    bound = np.sqrt(2 * trials * p * (1 - p) * L) + 2 * L / 3
    bad = np.abs(c - trials * p) > bound + 1e-9 * trials
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(
            "%s: element %d drawn %d times in %d trials, probability %.4g (allowed "
            "deviation %.1f); counts %s, probabilities %s"
            % (what, i, c[i], trials, p[i], bound[i], _short(c), _short(p)))
