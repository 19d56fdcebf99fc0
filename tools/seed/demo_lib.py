"""A plain reference implementation for the demonstrations."""
import logging
import sys
import warnings

import numpy as np

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def lse(a, axis=None):
    a = np.asarray(a, float)
    m = a.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(all="ignore"):
        r = np.log(np.exp(a - m).sum(axis=axis, keepdims=True)) + m
    return r.squeeze(axis) if axis is not None else float(r.squeeze())


def log(a):
    with np.errstate(all="ignore"):
        return np.log(np.asarray(a, float))


def forward_backward(start, trans, lb):
    """log-likelihood, posteriors and expected transition counts of a sequence."""
    ls, lt, T = log(start), log(trans), len(lb)
    f = np.zeros(lb.shape)
    b = np.zeros(lb.shape)
    f[0] = ls + lb[0]
    for t in range(1, T):
        f[t] = lse(f[t - 1][:, None] + lt, 0) + lb[t]
    for t in range(T - 2, -1, -1):
        b[t] = lse(lt + lb[t + 1] + b[t + 1], 1)
    ll = lse(f[-1])
    xi = np.zeros(lt.shape)
    for t in range(T - 1):
        xi += np.exp(f[t][:, None] + lt + lb[t + 1] + b[t + 1] - ll)
    return ll, np.exp(f + b - ll), xi


def viterbi(start, trans, lb):
    v = log(start) + lb[0]
    for t in range(1, len(lb)):
        v = (v[:, None] + log(trans)).max(axis=0) + lb[t]
    return v.max()


def path_log_prob(start, trans, lb, z):
    r = log(start)[z[0]] + lb[0][z[0]]
    for t in range(1, len(z)):
        r += log(trans)[z[t - 1], z[t]] + lb[t][z[t]]
    return r


def gauss(X, means, covs):
    out = []
    for m, c in zip(means, covs):
        d = X - m
        out.append(-.5 * (len(m) * np.log(2 * np.pi) + np.linalg.slogdet(c)[1]
                          + (d * np.linalg.solve(c, d.T).T).sum(axis=1)))
    return np.array(out).T


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = a.shape == b.shape and bool(
        np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))
    check(ok, f"{what}: {a.tolist()!s:.300} instead of {b.tolist()!s:.300}")
