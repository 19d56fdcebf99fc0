"""Viterbi decoding is optimal."""
import numpy as np

from lib import gen, oracle as O
from lib.core import Facet, Skip, check_close, fail, sut

RULE = ("generated models with ties, zeros and extreme entries; the returned "
        "path is re-scored and compared with the optimum; non-trivial: at "
        "least 2 states and 2 frames")


def check_path(what, path, T, K):
    path = np.asarray(path)
    if path.shape != (T,):
        fail(f"{what} has shape {path.shape}, expected {(T,)}")
    if path.dtype.kind not in "iu":
        fail(f"{what} has dtype {path.dtype}")
    if T and (path.min() < 0 or path.max() >= K):
        fail(f"{what} has states outside 0..{K - 1}: {path}")
    return path


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    lb, err = O.emission_logprob(spec["fam"], P, X)
    ls, lt = O.safe_log(P["start"]), O.safe_log(P["trans"])
    best = [O.viterbi_value(ls, lt, lb[s]) for s in O.split(lengths)]
    possible = np.isfinite(best).all()
    ctx.label(spec["fam"], "possible" if possible else "impossible",
              "nseq>1" if len(lengths) > 1 else "nseq=1",
              "K>9" if spec["K"] > 9 else "K<=9", "T>256" if len(X) > 256 else "T<=256",
              spec["tp"])
    ctx.interesting(spec["K"] > 1 and len(X) > 1)
    model = gen.query_model(spec, P, algorithm="viterbi")
    mode = spec["seed"] % 3
    if mode == 0:
        logprob, path = sut("decode", model.decode, X, lengths)
    else:
        logprob, path = sut("decode", model.decode, X, lengths, algorithm="viterbi")
    path = check_path("decoded path", path, len(X), spec["K"])
    if not possible:
        if logprob != -np.inf:
            fail(f"decode of impossible data returned log_prob {logprob!r}")
        # The other sequences still have to be decoded optimally.
    total = 0.
    tol = 0.
    for s, b in zip(O.split(lengths), best):
        if not np.isfinite(b):
            continue
        v = O.path_value(ls, lt, lb[s], path[s])
        n = s.stop - s.start
        t = 1e-9 + 1e-14 * (n + 10) * (1 + np.abs(lb[s][np.isfinite(lb[s])]).max()
                                       ) + 4 * err[s].sum()
        t += 2e-16 * n * abs(b)       # accumulated along the sequence
        if not v >= b - t:
            fail(f"path of sequence {s} has log-prob {v!r}, optimum is {b!r}")
        total += b
        tol += t
    if possible:
        check_close("decode()[0]", logprob, total, atol=tol)


def check_brute(spec, ctx):
    P, X, lengths = gen.case(spec)
    if spec["K"] ** max(lengths) > 5000:
        raise Skip
    lb, err = O.emission_logprob(spec["fam"], P, X)
    ls, lt = O.safe_log(P["start"]), O.safe_log(P["trans"])
    total = sum(O.brute_force(ls, lt, lb[s])[2] for s in O.split(lengths))
    ctx.interesting(spec["K"] > 1 and max(lengths) > 1)
    ctx.label(spec["fam"])
    model = gen.query_model(spec, P)
    logprob, path = sut("decode", model.decode, X, lengths)
    if np.isneginf(total):
        if logprob != -np.inf:
            fail(f"log_prob of impossible data is {logprob!r}")
        return
    tol = 1e-9 + 4 * err.sum() + 1e-12 * abs(total)
    check_close("decode()[0]", logprob, total, atol=tol)
    path = check_path("path", path, len(X), spec["K"])
    v = sum(O.path_value(ls, lt, lb[s], path[s]) for s in O.split(lengths))
    if not v >= total - tol:
        fail(f"path has log-prob {v!r}, optimum is {total!r}")


FACETS = [
    Facet("optimal", lambda: gen.mixed(), check, 8000),
    Facet("brute", lambda: gen.specs(max_T=7, kmax=4, regimes=(90, 100)),
          check_brute, 2500),
    Facet("long", gen.long_specs, check, 32),
    Facet("wide", gen.wide_specs, check, 300),
]
