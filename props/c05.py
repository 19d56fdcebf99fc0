"""implementation='log' and implementation='scaling' agree."""
import numpy as np
from hypothesis import strategies as st

from lib import em, gen, oracle as O, vb
from lib.core import (Facet, Skip, check_array, check_close, check_same, fail,
                      must_raise, sut)

from .c03 import check_path

RULE = ("generated model and data evaluated and trained with both "
        "implementations; non-trivial: at least 2 states and 2 frames and the "
        "scaled quantities are representable (or a frame must underflow)")


def pair(spec, build):
    out = []
    for impl in ("log", "scaling"):
        s = dict(spec, impl=impl)
        out.append(build(s))
    return out


def check(spec, ctx):
    P, X, lengths = gen.case(spec)
    fam, K = spec["fam"], spec["K"]
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.scaling_status() != "ok" or full.gtol > 1e-5:
        raise Skip
    ctx.label(fam, spec.get("cv", ""), "nseq>1" if len(lengths) > 1 else "nseq=1",
              f"n_iter={spec['n_iter']}")
    ctx.interesting(K > 1 and len(X) > 1)
    a, b = pair(spec, lambda s: gen.make_model(s, P))
    sa, sb = sut("log score", a.score, X, lengths), sut("scaling score", b.score, X, lengths)
    check_close("scaling score vs log score", sb, sa, atol=2 * full.tol)
    (la, pa), (lb, pb) = (sut("score_samples", m.score_samples, X, lengths)
                          for m in (a, b))
    check_close("scaling score_samples()[0]", lb, la, atol=2 * full.tol)
    check_close("posteriors", pb, check_array("posteriors", pa, (len(X), K)),
                atol=2 * full.gtol)
    for alg in ("viterbi", "map"):
        (va, qa), (vb_, qb) = (sut("decode", m.decode, X, lengths, algorithm=alg)
                               for m in (a, b))
        check_close(f"{alg} log_prob", vb_, va, atol=4 * full.tol + len(X) * full.gtol)
        qa, qb = (check_path("path", q, len(X), K) for q in (qa, qb))
        if alg == "map":
            d = np.flatnonzero(qa != qb)
            gap = np.abs(pa[d, qa[d]] - pa[d, qb[d]])
            if (gap > 4 * full.gtol).any():
                fail(f"map states differ at frames {d[:5]}")
        else:
            v = [sum(O.path_value(full.lstart, full.ltrans, full.lb[s], q[s])
                     for s in O.split(lengths)) for q in (qa, qb)]
            if not abs(v[0] - v[1]) <= full.tol * 10:
                fail(f"viterbi paths have log-probs {v}")
    # training
    params = gen.CODES[fam]
    pri = em.priors(spec, spec["prior"])
    want, info = em.expected(spec, P, X, lengths, full, pri, params)
    if info["start_raw"].sum() < 1e-6:
        ctx.label("no training")
        return
    fits = []
    for m in pair(spec, lambda s: gen.make_model(
            s, P, n_iter=1, tol=-np.inf, **pri)):
        sut("fit", m.fit, X, lengths)
        fits.append(em.read(m, spec))
    em.compare(fits[1], {**want, **fits[0]}, info, spec, X, full, params, params,
               loose=4., pri=pri)
    check_close("history", m.monitor_.history[0], full.loglik, atol=full.tol)


def check_vb(spec, ctx):
    """Variational training with both implementations."""
    P, X, lengths = vb.case(spec)
    if not vb.distinct_enough(spec, X):
        raise Skip
    kw, prior = vb.priors(spec, X)
    Q = vb.posterior(spec, X)
    full = vb.estep(spec, Q, X, lengths)
    if (not full.possible or full.scaling_status() != "ok" or full.gtol > 1e-6
            or vb.conditioning(spec, Q) > 1e6):
        raise Skip
    out = []
    for m in pair(spec, lambda s: vb.new_model(s, kw, init_params="", n_iter=1,
                                               tol=-np.inf)):
        vb.assign(m, prior, Q)
        sut("fit", m.fit, X, lengths)
        out.append((vb.read(m, prior), m))
    tol_x = np.abs(np.asarray(X, float)).max() + 1
    g = (1e-11 + 8 * full.rtol) * len(X)
    for k in out[0][0]:
        scale = {"means": tol_x * 10, "scale": tol_x ** 2 * 10}.get(k, 1.)
        check_close(f"posterior of {k}, scaling vs log", out[1][0][k], out[0][0][k],
                    atol=1e-9 + g * scale + 1e-13 * scale * len(X), rtol=1e-9)
    check_close("lower bound", out[1][1].monitor_.history[0],
                out[0][1].monitor_.history[0], atol=2 * full.tol, rtol=1e-11)
    # and the fitted models score alike
    PP = vb.normalized(spec, out[0][0])
    fam = vb.BASE[spec["fam"]]
    if fam == "gauss" and np.linalg.eigvalsh(PP["cov"]).min() < 1e-6 * tol_x ** 2:
        return
    f2 = O.Full(fam, PP, X, lengths)
    if f2.possible and f2.scaling_status() == "ok" and f2.gtol < 1e-6:
        s = [sut("score", m.score, X, lengths) for _, m in out]
        check_close("scores of fitted variational models", s[1], s[0],
                    atol=1e-5 + 4 * f2.tol, rtol=1e-7)
    ctx.label(spec["fam"], spec.get("cv", ""))
    ctx.interesting(spec["K"] > 1 and len(X) > 1)


def check_underflow(spec, ctx):
    """A frame whose likelihood is below the double range must be refused."""
    P, X, lengths = gen.case(spec)
    fam = spec["fam"]
    if fam in ("cat",):
        raise Skip
    rs = gen.rng(spec, 80)
    t = rs.randint(len(X))
    X = np.array(X)
    if fam in ("gauss", "gmm"):
        # exp(-d^2/2v) far below 1e-308 in every state
        sd = np.sqrt(max(np.linalg.eigvalsh(P["cov"]).max(), 1e-30))
        X[t] = np.abs(P["means"]).max() + sd * rs.choice([60, 400, 1e5])
    elif fam == "pois":
        X[t] = rs.choice([2000, 30000])
        P["lam"] = np.minimum(P["lam"], 8.)
    else:
        n = int(rs.choice([3000, 40000]))
        X[t] = 0
        X[t, 0] = n
        P["emis"] = np.maximum(P["emis"], 1e-3)
        P["emis"][:, 0] = np.minimum(P["emis"][:, 0], .6)
        P["emis"] /= P["emis"].sum(axis=1, keepdims=True)
        if P["emis"].shape[1] == 1:
            raise Skip
        spec["_ntrials"] = X.sum(axis=1)
    full = O.Full(fam, P, X, lengths)
    if full.scaling_status() != "underflow":
        raise Skip
    m = gen.make_model(dict(spec, impl="scaling"), P, n_iter=2)
    ctx.label(fam, "t=0" if t == 0 else "t>0")
    ctx.interesting()
    calls = {"score": m.score, "score_samples": m.score_samples,
             "predict_proba": m.predict_proba, "fit": m.fit,
             "map decode": lambda *a: m.decode(*a, algorithm="map"),
             "aic": getattr(m, "aic", m.score)}
    for name, f in calls.items():
        e = must_raise(f"{name} of underflowing data with 'scaling'", f, X, lengths)
        if not isinstance(e, ValueError):
            fail(f"{name} of underflowing data raised {type(e).__name__}: {e}")
    lm = gen.make_model(dict(spec, impl="log"), P)
    check_close("log score of the same data", sut("score", lm.score, X, lengths),
                full.loglik, atol=full.tol, rtol=1e-9)


def check_range(spec, ctx):
    """At the limits of the double range: right or refused, never NaN."""
    P = gen.build_params(spec)
    lengths = gen.build_lengths(spec)
    fam, K, F, T = spec["fam"], spec["K"], spec["F"], spec["T"]
    rs = gen.rng(spec, 81)
    if fam == "pois":
        X = rs.poisson(rs.choice([1, 10, spec["far"] * 10], size=(T, F)))
    else:
        mu = P["means"].reshape(-1, F)
        sd = np.sqrt(np.diagonal(P["cov"], axis1=-2, axis2=-1).reshape(-1, F))
        i = rs.randint(len(mu), size=T)
        X = mu[i] + sd[i] * rs.standard_normal((T, F)) * rs.choice(
            [1, spec["far"]], size=(T, 1))
        if spec["dense"]:             # large densities
            s = 10. ** -spec["dense"]
            X, P["means"] = X * s, P["means"] * s
            P["native"], P["cov"] = P["native"] * s ** 2, P["cov"] * s ** 2
    full = O.Full(fam, P, X, lengths)
    if not full.possible or full.gtol > 1e-5:
        raise Skip
    status = full.scaling_status()
    m = gen.make_model(dict(spec, impl="scaling"), P, n_iter=1)
    ctx.label(fam, status)
    try:
        lp, post = m.score_samples(X, lengths)
    except ValueError:
        if status == "ok":
            raise
        ctx.label("refused")
        ctx.interesting(K > 1)
        return
    if status == "underflow":
        fail("underflowing data was accepted")
    check_close("log-probability with 'scaling'", lp, full.loglik, atol=full.tol * 4)
    check_close("posteriors with 'scaling'", post, full.gamma, atol=4 * full.gtol + 1e-9)
    check_close("posteriors with 'scaling'", sut("predict_proba", m.predict_proba,
                X, lengths), full.gamma, atol=4 * full.gtol + 1e-9)
    ctx.label("answered")
    ctx.interesting(K > 1)


RANGE = st.fixed_dictionaries({"far": st.sampled_from([3, 10, 20, 30, 36]),
                               "dense": st.sampled_from([0, 0, 0, 3, 30, 60])})
EX = st.fixed_dictionaries({"n_iter": st.just(1),
                            "prior": st.sampled_from(["flat", "int", "scalar"])})
FACETS = [
    Facet("differential", lambda: gen.mixed(extra=EX, regimes=(60, 93), max_T=200),
          check, 1800),
    Facet("variational", lambda: vb.specs(pmodes=["dense", "sticky", "grid"]),
          check_vb, 1200),
    Facet("underflow", lambda: gen.specs(
        ["mult", "pois", "gauss", "gmm"], pmodes=gen.POSITIVE_PMODES + ["zeros", "leftright"],
        emodes=["dense", "grid"], max_T=60), check_underflow, 1200),
    Facet("range", lambda: gen.specs(["gauss", "gmm", "pois", "gauss"], extra=RANGE,
        max_T=60), check_range, 2400),
]
