"""AIC and BIC."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, runs
from lib.core import Facet, Skip, check_close, fail, sut

RULE = ("generated model of every family, covariance type and size, assigned or "
        "trained with any subset of params, and data; compared with the reference "
        "score and a reference count of free parameters; non-trivial: more than "
        "one free parameter and a judged value")


def free(spec):
    fam, K, F = spec["fam"], spec["K"], spec["F"]
    k = (K - 1) + K * (K - 1)
    if fam in ("cat", "mult"):
        return k + K * (F - 1)
    if fam == "pois":
        return k + K * F
    sym = sum(range(1, F + 1))
    M = spec.get("M", 1)
    k += K * M * F
    if fam == "gmm":
        k += K * (M - 1)
    cv = spec["cv"]
    if cv == "tied":
        return k + (sym if fam == "gauss" else K * sym)
    return k + K * M * {"spherical": 1, "diag": F, "full": sym}[cv]


def judge(spec, model, X, lengths, score, tol):
    k = free(spec)
    n = len(X)
    arg = np.asarray(X).tolist() if spec["aslist"] else X
    a = sut("aic", model.aic, arg, lengths)
    b = sut("bic", model.bic, arg, lengths)
    check_close("aic", a, -2 * score + 2 * k, atol=tol)
    check_close("bic", b, -2 * score + k * np.log(n), atol=tol)
    if len(lengths) == 1:
        check_close("aic without lengths", sut("aic", model.aic, X), a, atol=1e-9 * abs(a))
        check_close("bic without lengths", sut("bic", model.bic, X), b, atol=1e-9 * abs(b))


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    if spec["stage"] == "set":
        full = O.Full(spec["fam"], P, X, lengths)
        if not full.possible or full.tol > 1e-3:
            raise Skip
        if spec["impl"] == "scaling" and full.scaling_status() != "ok":
            raise Skip
        rs = gen.rng(spec, 140)
        codes = gen.CODES[spec["fam"]]
        model = gen.query_model(spec, P, params="".join(
            c for c in codes if rs.rand() < .7))
        judge(spec, model, X, lengths, full.loglik, 4 * full.tol + 1e-6)
    else:
        run = runs.Run(spec)
        P, X, lengths = run.P, run.X, run.lengths
        if not run.viable():
            raise Skip
        model = run.new()
        if run.fit(model)[0] == "raised":
            raise Skip
        r = runs.outcome(model.score, X, lengths)
        if r[0] == "raised" or not np.isfinite(r[1]):
            raise Skip
        judge(spec, model, X, lengths, r[1], 1e-9 * (1 + abs(r[1])))
    ctx.label(spec["fam"], spec.get("cv", ""), spec["stage"])
    ctx.interesting(free(spec) > 1)


EX = {"stage": st.sampled_from(["set", "set", "fit"]), "aslist": st.booleans(),
      "start": st.sampled_from(["set", "data", "mixed"]), "iters": st.integers(1, 3),
      "priors": st.just("flat"), "subset": st.sampled_from([0, 1])}
FACETS = [Facet("em", lambda: gen.mixed(
    max_T=80, extra=st.fixed_dictionaries(EX)), check, 3000),
    Facet("wide", lambda: gen.wide_specs(extra=st.fixed_dictionaries(EX)), check, 200),
    Facet("long", lambda: gen.long_specs(extra=st.fixed_dictionaries(
        {**EX, "stage": st.just("set")})), check, 24)]
