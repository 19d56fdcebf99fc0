"""Posteriors are the exact smoothing marginals."""
import numpy as np

from lib import gen, oracle as O
from lib.core import Facet, Skip, check_array, check_close, fail, sut

RULE = ("generated models (5 families), data and splits with positive "
        "likelihood; non-trivial: some posterior is neither 0 nor 1 and there "
        "are at least 2 frames")


def check_post(what, got, full, K):
    got = check_array(what, got, (len(full.lb), K), finite=True)
    want = full.gamma
    check_close(what, got, want, atol=full.gtol, rtol=0)
    if (got < 0).any():
        fail(f"{what} has negative entries")
    s = got.sum(axis=1)
    # normalising log values of this size cannot do better than their rounding
    if np.abs(s - 1).max() > 1e-9 + 1e-15 * max(q.scale for q in full.seqs):
        fail(f"{what}: a row sums to {s[np.abs(s - 1).argmax()]!r}")
    bad = (want == 0) & np.isneginf(np.concatenate(
        [q.lgamma for q in full.seqs])) & (got != 0)
    if bad.any():
        fail(f"{what}: impossible state has probability {got[bad][0]!r}")


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    full = O.Full(spec["fam"], P, X, lengths)
    if not full.possible or full.gtol > 1e-4:
        raise Skip
    if spec["impl"] == "scaling" and full.scaling_status() != "ok":
        raise Skip
    ctx.label(spec["fam"], spec["impl"], "nseq>1" if len(lengths) > 1 else "nseq=1",
              "K>9" if spec["K"] > 9 else "K<=9", "T>256" if len(X) > 256 else "T<=256")
    g = full.gamma
    ctx.interesting(len(X) > 1 and ((g > 1e-6) & (g < 1 - 1e-6)).any())
    model = gen.query_model(spec, P)
    args = (X,) if len(lengths) == 1 and spec["seed"] % 2 else (X, lengths)
    check_post("predict_proba", sut("predict_proba", model.predict_proba, *args),
               full, spec["K"])
    _, post = sut("score_samples", model.score_samples, *args)
    check_post("score_samples()[1]", post, full, spec["K"])


def check_brute(spec, ctx):
    P, X, lengths = gen.case(spec)
    if spec["K"] ** max(lengths) > 5000:
        raise Skip
    lb, err = O.emission_logprob(spec["fam"], P, X)
    out = []
    for s in O.split(lengths):
        ll, g, _ = O.brute_force(O.safe_log(P["start"]), O.safe_log(P["trans"]), lb[s])
        if not np.isfinite(ll):
            raise Skip
        out.append(g)
    model = gen.query_model(spec, P)
    ctx.label(spec["fam"])
    ctx.interesting(spec["K"] > 1 and max(lengths) > 1)
    check_close("predict_proba", sut("predict_proba", model.predict_proba, X, lengths),
                np.concatenate(out), atol=1e-8 + 10 * err.sum())


FACETS = [
    Facet("posteriors", lambda: gen.mixed(units=(1., 1., 1., 1e2, 1e-3)), check, 7000),
    Facet("brute", lambda: gen.specs(impls=["log"], max_T=7, kmax=4, regimes=(90, 100)),
          check_brute, 2500),
    Facet("long", gen.long_specs, check, 32),
    Facet("wide", gen.wide_specs, check, 300),
]
