"""score() equals the exact log-likelihood."""
import numpy as np

from lib import gen, oracle as O
from lib.core import Facet, Skip, Violation, check_close, fail, sut

RULE = ("models of 5 families x 4 covariance types with generated parameters "
        "(dense, sparse, tied, tiny, reducible ...), data and splits; "
        "non-trivial: at least 2 states and 2 frames")


def compare(spec, ctx, P, X, lengths, full, model):
    ctx.label(spec["fam"], spec["impl"], "K>9" if spec["K"] > 9 else "K<=9",
              "T>256" if len(X) > 256 else "T<=256",
              "nseq>1" if len(lengths) > 1 else "nseq=1",
              "possible" if full.possible else "impossible")
    ctx.interesting(spec["K"] > 1 and len(X) > 1)
    args = (X,) if len(lengths) == 1 else (X, lengths)
    status = full.scaling_status() if spec["impl"] == "scaling" else "ok"
    if spec["impl"] == "scaling" and not full.possible:
        try:
            r = model.score(*args)
        except ValueError:
            return
        if r != -np.inf:
            fail(f"score of impossible data is {r!r}")
        return
    if status == "underflow":
        ctx.label("underflow")
        try:
            r = model.score(*args)
        except ValueError:
            return
        fail(f"scaling implementation returned {r!r} although a frame underflows")
    if status == "grey":
        raise Skip
    got = sut("score", model.score, *args)
    got2, _ = sut("score_samples", model.score_samples, *args) \
        if full.possible else (got, None)
    if not full.possible:
        if got != -np.inf:
            fail(f"score of impossible data is {got!r}, expected -inf")
        return
    check_close("score", got, full.loglik, atol=full.tol)
    check_close("score_samples()[0]", got2, full.loglik, atol=full.tol)


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    full = O.Full(spec["fam"], P, X, lengths, want_back=spec["impl"] == "scaling")
    model = gen.query_model(spec, P)
    compare(spec, ctx, P, X, lengths, full, model)


def check_brute(spec, ctx):
    """Tiny cases against explicit enumeration of all state paths."""
    P, X, lengths = gen.case(spec)
    if spec["K"] ** max(lengths) > 5000:
        raise Skip
    lb, err = O.emission_logprob(spec["fam"], P, X)
    want, scale = 0., 1.
    for s in O.split(lengths):
        ll, _, _ = O.brute_force(O.safe_log(P["start"]), O.safe_log(P["trans"]), lb[s])
        want += ll
    model = gen.query_model(spec, P)
    got = sut("score", model.score, X, lengths)
    ctx.label(spec["fam"])
    ctx.interesting(spec["K"] > 1 and max(lengths) > 1)
    if np.isneginf(want):
        if got != -np.inf:
            fail(f"score of impossible data is {got!r}, expected -inf")
    else:
        check_close("score", got, want, atol=1e-8 + 4 * err.sum() + 1e-12 * abs(want))


def check_density(spec, ctx):
    """One-frame sequences: the emission density itself, far tails included."""
    P = gen.build_params(spec)
    K = spec["K"]
    lengths = [1] * spec["T"]
    X = gen.build_data(spec, P, lengths)
    if spec["fam"] == "mult":
        spec["_ntrials"] = X.sum(axis=1)
    if spec["fam"] in ("gauss", "gmm"):
        X = X + (X - spec["offset"]) * spec["stretch"]
    k = spec["k"] % K
    P["start"] = np.eye(K)[k]
    lb, err = O.emission_logprob(spec["fam"], P, X)
    model = gen.query_model(spec, P)
    ctx.label(spec["fam"], spec.get("cv", ""))
    ctx.interesting()
    for t in range(len(X)):
        got = sut("score", model.score, X[t:t + 1])
        check_close(f"log density of frame {t} in state {k}", got, lb[t, k],
                    atol=1e-9 + 4 * err[t] + 1e-13 * abs(lb[t, k])
                    if np.isfinite(lb[t, k]) else 0)


def dens():
    from hypothesis import strategies as st
    return gen.specs(impls=["log"], max_T=12, lens=False, extra=st.fixed_dictionaries({
        "k": st.integers(0, 40), "stretch": st.sampled_from([0, 1, 30, 1000])}))


def tiny():
    return gen.specs(impls=["log"], max_T=7, kmax=4, regimes=(90, 100))


FACETS = [
    Facet("score", lambda: gen.mixed(units=(1., 1., 1e2, 1e-3)), check, 9000),
    Facet("brute", tiny, check_brute, 3000),
    Facet("density", dens, check_density, 2500),
    Facet("long", gen.long_specs, check, 32),
    Facet("wide", gen.wide_specs, check, 300),
]
